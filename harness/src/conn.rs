//! Commands, framing, responses, result sets.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use crate::values::{same, value};
use mysql_connector::types::Value;

/// C01: text commands. param0: text length, param1: stream mode (0 whole, 1 chosen splits and
/// pendings), param2: command (0 query, 1 execute_query, 2 prepare)
#[no_mangle]
#[inline(never)]
pub fn h_frame_text() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let text = sym::vec(n);
    for b in &text {
        sym::assume(*b < 0x80);
    }
    let t = unsafe { std::str::from_utf8_unchecked(&text) };
    let m = net();
    m.buffering = true;
    if sym::param(1) == 1 {
        m.wmode = 1;
        m.splits = 3;
        m.pend = 2;
    }
    let cmd = sym::param(2);
    m.send(1, &ok(0, 0, 2, 0));
    if cmd == 2 {
        m.inc.clear();
        m.send(1, &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    }
    let okay = match cmd {
        0 => block(c.query::<Vec<Value>>(t)).is_ok(),
        1 => block(c.execute_query(t)).is_ok(),
        _ => block(c.prepare_statement(t)).is_ok(),
    };
    chk(okay, "the command succeeds");
    let want = [&[if cmd == 2 { 0x16 } else { 3 }], &text[..]].concat();
    match take_command() {
        Some(p) => chk(sym::eq(&p, &want), "the payload is the command byte and the text"),
        None => chk(false, "one command is sent"),
    }
    chk(take_command().is_none(), "nothing else is sent");
    cover("text command framed");
    sym::observe(&m.out);
}

const MAX: usize = 0xFF_FFFF;

/// C01: commands whose payload reaches the size of a full packet. param0: payload size relative to
/// 2^24-1, plus 2; param1: command (0 query, 1 execute_query, 2 prepare); param2: full packets
#[no_mangle]
#[inline(never)]
pub fn h_frame_large() {
    let total = MAX * sym::param(2) as usize + sym::param(0) as usize - 2;
    let n = total - 1;
    let mut c = connect(FULL);
    let mut text = vec![b'x'; n];
    // symbolic bytes at both ends and around every packet border
    let mut marks = vec![0, n - 1];
    for k in 1..=sym::param(2) as usize {
        for d in 0..4 {
            let p = MAX * k + d;
            if p >= 3 && p - 3 < n {
                marks.push(p - 3);
            }
        }
    }
    for &p in &marks {
        let b = sym::u8();
        sym::assume(b < 0x80);
        text[p] = b;
    }
    let t = unsafe { std::str::from_utf8_unchecked(&text) };
    let m = net();
    let cmd = sym::param(1);
    // one answer per packet that might be taken for a command
    let want_seq = (total / MAX + 1) as u8;
    if cmd == 2 {
        m.send(want_seq, &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    } else {
        m.send(want_seq, &ok(0, 0, 2, 0));
    }
    let okay = match cmd {
        0 => block(c.query::<Vec<Value>>(t)).is_ok(),
        1 => block(c.execute_query(t)).is_ok(),
        _ => block(c.prepare_statement(t)).is_ok(),
    };
    chk(okay, "the command succeeds");
    // full packets, then a shorter one
    let mut at = 0;
    let mut got = 0;
    let mut seq = 0;
    loop {
        if m.out.len() < at + 4 {
            chk(false, "full packets are closed by a shorter one");
            return;
        }
        let l = m.out[at] as usize | (m.out[at + 1] as usize) << 8 | (m.out[at + 2] as usize) << 16;
        chk(m.out[at + 3] == seq, "sequence numbers count from 0");
        let want = (total - got).min(MAX);
        chk(l == want, "payloads are split into full packets and a shorter one");
        if l != want || m.out.len() < at + 4 + l {
            chk(false, "packets are complete");
            return;
        }
        let body = &m.out[at + 4..at + 4 + l];
        if got == 0 {
            chk(body[0] == if cmd == 2 { 0x16 } else { 3 }, "the payload starts with the command");
            chk(body[1..] == text[..l - 1], "the packets carry the text in order");
        } else {
            chk(body[..] == text[got - 1..got - 1 + l], "the packets carry the text in order");
        }
        got += l;
        at += 4 + l;
        seq += 1;
        if l < MAX {
            break;
        }
    }
    chk(got == total && m.out.len() == at, "exactly the payload is sent");
    cover("large command framed");
}

/// C01: disconnect.
#[no_mangle]
#[inline(never)]
pub fn h_frame_quit() {
    let c = connect(FULL);
    let m = net();
    m.buffering = true;
    m.wmode = 1;
    m.splits = 4;
    m.pend = 3;
    chk(block(c.disconnect()).is_ok(), "disconnect succeeds");
    chk(m.out == [1, 0, 0, 0, 1], "disconnect sends the quit command");
    cover("quit framed");
}

/// C01: execute of a prepared statement and its long data under short writes. param0: splits, param1: pendings
#[no_mangle]
#[inline(never)]
pub fn h_frame_execute() {
    let mut c = connect(FULL);
    let m = net();
    m.send(1, &[0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0]);
    m.send(2, &col(b"?", 253, 0));
    let mut s = match block(c.prepare_statement("s")) {
        Ok(s) => s,
        Err(_) => return chk(false, "prepare succeeds"),
    };
    rewind();
    m.buffering = true;
    m.wmode = 1;
    m.splits = sym::param(0) as u32;
    m.pend = sym::param(1) as u32;
    m.send(1, &ok(0, 0, 2, 0));
    let b = sym::vec(2);
    chk(block(s.execute(&[Value::Bytes(b.clone())])).is_ok(), "execute succeeds");
    match take_command() {
        Some(p) => {
            let want = [&[0x17, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1][..], &p[12..14.min(p.len())], &[2], &b].concat();
            chk(sym::eq(&p, &want), "the payload is the whole execute");
        }
        None => chk(false, "one command is sent"),
    }
    chk(take_command().is_none(), "nothing else is sent");
    cover("execute framed");
}

// ---------------------------------------------------------------- reading

/// C02: a response means the same under any split. param0: response (0 OK, 1 result set, 2 prepare,
/// 3 error), param1: chosen splits, param2: pendings, param3: read mode
#[no_mangle]
#[inline(never)]
pub fn h_read_split() {
    let kind = sym::param(0);
    let caps = if sym::param(4) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let m = net();
    m.rmode = sym::param(3) as u8;
    m.splits = sym::param(1) as u32;
    m.pend = sym::param(2) as u32;
    m.closed = false;
    match kind {
        0 => {
            let a = sym::u8();
            sym::assume(a < 251);
            let i = sym::u16();
            let st = sym::u16() & !4;
            let p = [&[0u8, a, 0xFC][..], &i.to_le_bytes(), &st.to_le_bytes(), &[7, 0]].concat();
            m.send(1, &p);
            match block(c.execute_query("x")) {
                Ok(o) => {
                    chk(o.affected_rows() == a as u64 && o.last_insert_id() == i as u64 && o.warnings() == 7, "the result is the server's");
                    cover("split response read");
                }
                Err(_) => chk(false, "the response is accepted"),
            }
        }
        1 => {
            let r1 = sym::vec(2);
            let r2 = sym::vec(1);
            crate::rows::send_result(caps, &[col(b"a", 253, 0)], &[lestr(&r1), lestr(&r2)], 2);
            match block(c.query::<Vec<Value>>("x")) {
                Ok(mut q) => match block(q.collect()) {
                    Ok(v) => {
                        chk(v.len() == 2 && same(&v[0][0], &Value::Bytes(r1)) && same(&v[1][0], &Value::Bytes(r2)), "the rows are the server's");
                        cover("split response read");
                    }
                    Err(_) => chk(false, "the rows are accepted"),
                },
                Err(_) => chk(false, "the response is accepted"),
            }
        }
        2 => {
            let id: [u8; 4] = sym::bytes();
            m.send(1, &[&[0][..], &id, &[1, 0, 1, 0, 0, 0, 0]].concat());
            let mut s = 2;
            for name in [b"?", b"a"] {
                m.send(s, &col(name, 253, 0));
                s += 1;
                if caps & DEPRECATE_EOF == 0 {
                    m.send(s, &end(0, 2, 0));
                    s += 1;
                }
            }
            match block(c.prepare_statement("x")) {
                Ok(mut st) => {
                    let m = net();
                    chk(m.pos == m.inc.len(), "the whole answer is consumed");
                    rewind();
                    m.send(1, &ok(1, 0, 2, 0));
                    chk(block(st.execute(&[Value::Tiny(1)])).is_ok(), "execute succeeds");
                    chk(m.out.len() > 9 && sym::eq(&m.out[5..9], &id), "the statement has the server's id");
                    cover("split response read");
                }
                Err(_) => chk(false, "the response is accepted"),
            }
        }
        _ => {
            let code = sym::u16();
            m.send(1, &err(code, b"HY000", b"ab"));
            match block(c.execute_query("x")) {
                Ok(_) => chk(false, "an error is no result"),
                Err(e) => {
                    chk(is_server_error(&e, code, Some(b"HY000"), b"ab"), "the error is the server's");
                    cover("split response read");
                }
            }
        }
    }
}

/// C02: one packet of the response has any other sequence number. param0: response (0 OK, 1 result
/// set, 2 prepare), param1: 1 without DEPRECATE_EOF
#[no_mangle]
#[inline(never)]
pub fn h_read_seq() {
    let caps = if sym::param(1) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let m = net();
    let mut packets: Vec<Vec<u8>> = match sym::param(0) {
        0 => vec![ok(1, 2, 2, 0)],
        1 => vec![vec![1], col(b"a", 3, 0), lestr(b"1"), lestr(b"2"), lestr(b"3"), end(caps, 2, 0)],
        _ => vec![vec![0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0], col(b"?", 3, 0), col(b"a", 3, 0)],
    };
    if caps & DEPRECATE_EOF == 0 {
        match sym::param(0) {
            1 => packets.insert(2, end(0, 2, 0)),
            2 => {
                packets.insert(2, end(0, 2, 0));
                packets.push(end(0, 2, 0));
            }
            _ => {}
        }
    }
    let bad = sym::choose(packets.len());
    let seq = sym::u8();
    sym::assume(seq != bad as u8 + 1);
    for (i, p) in packets.iter().enumerate() {
        m.send(if i == bad { seq } else { i as u8 + 1 }, p);
    }
    match sym::param(0) {
        0 => chk(block(c.execute_query("x")).map_or_else(|e| is_out_of_sync(&e), |_| false), "a wrong sequence number is an error"),
        1 => match block(c.query::<Vec<Value>>("x")) {
            Ok(mut q) => {
                // rows before the bad packet are delivered, then the error
                let first = if caps & DEPRECATE_EOF == 0 { 3 } else { 2 };
                for i in first..packets.len() {
                    match block(q.next()) {
                        Ok(Some(r)) => {
                            chk(i != bad, "the content of an unexpected packet is never delivered");
                            chk(same(&r[0], &Value::Int((i - first) as i32 + 1)), "the rows before it are delivered");
                        }
                        Ok(None) => {
                            chk(false, "a wrong sequence number is not the end");
                            return;
                        }
                        Err(e) => {
                            chk(i == bad && is_out_of_sync(&e), "the error is at the packet");
                            break;
                        }
                    }
                }
            }
            Err(e) => {
                chk(bad < if caps & DEPRECATE_EOF == 0 { 3 } else { 2 }, "the column definitions are accepted");
                chk(is_out_of_sync(&e), "a wrong sequence number is out of sync");
            }
        },
        _ => match block(c.prepare_statement("x")) {
            Ok(_) => chk(false, "a wrong sequence number is an error"),
            Err(e) => chk(is_out_of_sync(&e), "a wrong sequence number is out of sync"),
        },
    }
    cover("wrong sequence number");
}

/// C02: the stream ends anywhere inside a response. Parameters as for `h_read_seq`.
#[no_mangle]
#[inline(never)]
pub fn h_read_eof() {
    let caps = if sym::param(1) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let m = net();
    let mut marks = vec![0];
    match sym::param(0) {
        0 => m.send(1, &ok(1, 2, 2, 0)),
        1 => {
            let mut k = 1;
            let mut ps = vec![vec![1u8], col(b"a", 3, 0)];
            if caps & DEPRECATE_EOF == 0 {
                ps.push(end(0, 2, 0));
            }
            let first = ps.len();
            ps.extend([lestr(b"1"), lestr(b"2"), end(caps, 2, 0)]);
            for (i, p) in ps.iter().enumerate() {
                m.send(k, p);
                k += 1;
                if i >= first {
                    marks.push(m.inc.len());
                }
            }
        }
        _ => {
            let mut k = 2;
            m.send(1, &[0, 1, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0]);
            for name in [b"?", b"a"] {
                m.send(k, &col(name, 253, 0));
                k += 1;
                if caps & DEPRECATE_EOF == 0 {
                    m.send(k, &end(0, 2, 0));
                    k += 1;
                }
            }
        }
    }
    let cut = sym::choose(m.inc.len());
    m.inc.truncate(cut);
    m.rmode = sym::param(2) as u8;
    let eof = |e: &mysql_connector::Error| io_kind(e) == Some(std::io::ErrorKind::UnexpectedEof);
    match sym::param(0) {
        0 => chk(block(c.execute_query("x")).map_or_else(|e| eof(&e), |_| false), "a stream that ends inside a packet is an error"),
        1 => match block(c.query::<Vec<Value>>("x")) {
            Ok(mut q) => {
                let mut n = 0;
                loop {
                    match block(q.next()) {
                        Ok(Some(r)) => {
                            n += 1;
                            chk(n < marks.len() - 1 && marks[n] <= cut && same(&r[0], &Value::Int(n as i32)), "only complete rows are delivered");
                        }
                        Ok(None) => {
                            chk(false, "a stream that ends early is not the end of the rows");
                            break;
                        }
                        Err(e) => {
                            chk(eof(&e), "a stream that ends inside a packet is an error");
                            chk(marks[n + 1] > cut, "complete rows are delivered");
                            break;
                        }
                    }
                }
            }
            Err(e) => chk(eof(&e), "a stream that ends inside a packet is an error"),
        },
        _ => match block(c.prepare_statement("x")) {
            Ok(_) => chk(false, "a stream that ends inside a packet is an error"),
            Err(e) => chk(eof(&e), "a stream that ends inside a packet is an error"),
        },
    }
    cover("stream ended");
}

/// C02: payloads of several packets: a text row of one string. param0: payload size relative to
/// 2^24-1, plus 8; param1: full packets; param2: read mode, param3: 1 without DEPRECATE_EOF,
/// param4: 1 if one of its packets has a wrong sequence number
#[no_mangle]
#[inline(never)]
pub fn h_read_big() {
    let caps = if sym::param(3) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let total = MAX * sym::param(1) as usize + sym::param(0) as usize - 8;
    let mut row = lenenc((total - 4) as u64);
    if row.len() != 4 {
        row = lenenc((total - 9) as u64);
    }
    let head = row.len();
    row.resize(total, b'y');
    for k in 1..=sym::param(1) as usize {
        for d in 0..4 {
            let p = MAX * k + d;
            if p >= 3 && p - 3 < total {
                row[p - 3] = sym::u8();
            }
        }
    }
    row[head] = sym::u8();
    row[total - 1] = sym::u8();
    let m = net();
    let mut seq = 1u8;
    let before = if caps & DEPRECATE_EOF == 0 { 5 } else { 4 };
    let bad = if sym::param(4) == 1 { before + sym::choose(total / MAX + 1) as u8 } else { 0 };
    let wrong = sym::u8();
    sym::assume(sym::or(bad == 0, wrong != bad));
    let mut send = |m: &mut Net, p: &[u8]| {
        let mut rest = p;
        loop {
            let l = rest.len().min(MAX);
            m.send(if seq == bad { wrong } else { seq }, &rest[..l]);
            seq = seq.wrapping_add(1);
            rest = &rest[l..];
            if l < MAX {
                break;
            }
        }
    };
    send(m, &[1]);
    send(m, &col(b"a", 253, 0));
    if caps & DEPRECATE_EOF == 0 {
        send(m, &end(0, 2, 0));
    }
    send(m, &lestr(b"first"));
    send(m, &row);
    send(m, &lestr(b"last"));
    send(m, &end(caps, 2, 0));
    m.rmode = sym::param(2) as u8;
    m.splits = 1;
    match block(c.query::<Vec<Value>>("x")) {
        Ok(mut q) => {
            for i in 0..3 {
                match block(q.next()) {
                    Ok(Some(r)) => match &r[0] {
                        Value::Bytes(b) => match i {
                            0 => chk(b == b"first", "the row before it"),
                            1 => chk(b.len() == total - head && b[..] == row[head..], "a payload of several packets is their concatenation"),
                            _ => chk(b == b"last", "the row after it"),
                        },
                        _ => chk(false, "a string column is bytes"),
                    },
                    Err(e) if bad > 0 && i == 1 => {
                        chk(is_out_of_sync(&e), "a wrong sequence number is out of sync");
                        cover("wrong sequence number");
                        return;
                    }
                    _ => {
                        chk(false, "the row is delivered");
                        return;
                    }
                }
            }
            chk(bad == 0, "a wrong sequence number is an error");
            chk(matches!(block(q.next()), Ok(None)), "then the rows end");
            cover("big row read");
        }
        Err(_) => chk(false, "the result set is accepted"),
    }
}

/// C02: more packets than there are sequence numbers. param0: rows
#[no_mangle]
#[inline(never)]
pub fn h_read_wrap() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let bad = sym::choose(3);
    let at = [255usize, n - 1, 254][bad];
    let m = net();
    m.send(1, &[1]);
    m.send(2, &col(b"a", 1, 32));
    let wrong = sym::u8();
    for i in 0..n {
        let seq = (i + 3) as u8;
        m.send(if i == at { seq.wrapping_add(wrong) } else { seq }, &lestr(format!("{}", i as u8).as_bytes()));
    }
    m.send((n + 3) as u8, &end(FULL, 2, 0));
    let mut q = match block(c.query::<Vec<Value>>("x")) {
        Ok(q) => q,
        Err(_) => return chk(false, "the result set is accepted"),
    };
    let mut k = 0;
    loop {
        match block(q.next()) {
            Ok(Some(r)) => {
                chk(k != at || wrong == 0, "a wrong sequence number is an error");
                chk(same(&r[0], &Value::UTiny(k as u8)), "the rows are the server's");
                k += 1;
            }
            Ok(None) => {
                chk(k == n && wrong == 0, "all rows are delivered");
                cover("sequence numbers wrap");
                break;
            }
            Err(e) => {
                chk(k == at && wrong != 0 && is_out_of_sync(&e), "only a wrong sequence number is an error");
                cover("wrapped mismatch");
                break;
            }
        }
    }
}

/// C01: a stream that holds written bytes back until it is flushed. Parameters: what is sent (0: login,
/// 1: login with a switch, 2: query, 3: prepare, 4: execute, 5: long data and execute, 6: quit),
/// short writes, pendings.
#[no_mangle]
#[inline(never)]
pub fn h_flush() {
    let what = sym::param(0);
    let m = net();
    let hold = || {
        let m = net();
        m.buffering = true;
        m.wmode = 1;
        m.splits = sym::param(1) as u32;
        m.pend = sym::param(2) as u32;
    };
    if what < 2 {
        hold();
        m.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, NATIVE));
        if what == 1 {
            m.send(2, &[&[0xFE], NATIVE, &[0], &NONCE[..], &[0]].concat());
        }
        m.send(2 + 2 * what as u8, &ok(0, 0, 2, 0));
        let mut o = options::<false>();
        o.password = String::from("pw");
        chk(block(mysql_connector::Connection::connect(std::sync::Arc::new(o))).is_ok(), "login succeeds");
    } else {
        let mut c = connect(FULL);
        rewind();
        let okay = match what {
            2 | 3 => {
                m.send(1, &if what == 2 { ok(0, 0, 2, 0) } else { crate::rows::prepare_ok(9, 0, 0) });
                hold();
                if what == 2 {
                    block(c.execute_query("x")).is_ok()
                } else {
                    block(c.prepare_statement("x")).is_ok()
                }
            }
            4 | 5 => {
                m.send(1, &crate::rows::prepare_ok(9, 0, 1));
                m.send(2, &col(b"?", 253, 0));
                let mut s = match block(c.prepare_statement("s")) {
                    Ok(s) => s,
                    Err(_) => return chk(false, "prepare succeeds"),
                };
                rewind();
                m.send(1, &ok(0, 0, 2, 0));
                hold();
                let v = if what == 4 { Value::Tiny(1) } else { Value::Bytes(vec![b'x'; MAX + 100]) };
                block(s.execute(&[v])).is_ok()
            }
            _ => {
                hold();
                block(c.disconnect()).is_ok()
            }
        };
        chk(okay, "the call succeeds");
    }
    chk(net().held.is_empty(), "what was written is flushed when the call ends");
    cover("flushed");
}
