//! Histories of commands, result sets.
use crate::mock::*;
use crate::rows::*;
use crate::sym::{self, chk, cover};
use crate::values::same;
use mysql_connector::{types::Value, Connection, Error};

/// What the server answers to the next commands: expected payload and packets.
static mut SCRIPT: Vec<(Vec<u8>, Vec<Vec<u8>>)> = Vec::new();

fn script() -> &'static mut Vec<(Vec<u8>, Vec<Vec<u8>>)> {
    unsafe { &mut *std::ptr::addr_of_mut!(SCRIPT) }
}

fn serve(n: &mut Net) -> bool {
    // complete command?
    let o = &n.out[n.out_pos..];
    if o.len() < 4 {
        return false;
    }
    let l = o[0] as usize | (o[1] as usize) << 8 | (o[2] as usize) << 16;
    if o.len() < 4 + l {
        return false;
    }
    chk(o[3] == 0, "a command starts with sequence number 0");
    let s = script();
    if s.is_empty() {
        chk(false, "the client sends only the commands of the calls");
        return false;
    }
    let (want, packets) = s.remove(0);
    chk(sym::eq(&o[4..4 + l], &want), "the command is the one of the call");
    n.out_pos += 4 + l;
    n.send_all(1, &packets);
    true
}

fn expect(cmd: &[u8], packets: Vec<Vec<u8>>) {
    script().push((cmd.to_vec(), packets));
}

fn result(caps: u32, rows: Vec<Vec<u8>>, last: Vec<u8>) -> Vec<Vec<u8>> {
    let mut p = vec![vec![1], col(b"a", 1, 32)];
    if caps & DEPRECATE_EOF == 0 {
        p.push(end(0, 2, 0));
    }
    p.extend(rows);
    p.push(last);
    p
}

fn end_with(caps: u32, warnings: u16, message: bool) -> Vec<u8> {
    let mut p = end(caps, 2, warnings);
    if message && caps & DEPRECATE_EOF != 0 {
        p.extend(lestr(b"Rows matched: 40  Changed: 40  Warnings: 0"));
    }
    p
}

fn num(x: u8) -> Vec<u8> {
    lestr(format!("{x}").as_bytes())
}

fn prepared(caps: u32, params: u16, cols: u16) -> Vec<Vec<u8>> {
    let mut p = vec![vec![0, 9, 0, 0, 0, cols as u8, 0, params as u8, 0, 0, 0, 0]];
    for n in [params, cols] {
        for _ in 0..n {
            p.push(col(b"p", 1, 32));
        }
        if n > 0 && caps & DEPRECATE_EOF == 0 {
            p.push(end(0, 2, 0));
        }
    }
    p
}

pub const OPS: usize = 25;

fn exec_cmd() -> Vec<u8> {
    vec![0x17, 9, 0, 0, 0, 0, 1, 0, 0, 0]
}

fn code_of(k: u8) -> u16 {
    1000 + k as u16
}

fn is_err(e: &Error, k: u8) -> bool {
    is_server_error(e, code_of(k), Some(b"42000"), b"no")
}

/// One call; `k` makes its answer different from every other one.
fn op(c: &mut Connection, caps: u32, which: usize, k: u8) {
    let text = format!("q{k}");
    let t = text.as_str();
    let query = [&[3u8], t.as_bytes()].concat();
    let prep = [&[0x16u8], t.as_bytes()].concat();
    let fail = err(code_of(k), b"42000", b"no");
    // (every other one has a message, which makes it as long as a row)
    let fin = end_with(caps, k as u16, k % 2 == 1);
    // the answer's content is anything
    let v = sym::u8();
    let brow = |v: u8| vec![0u8, 0, v];
    let want = |r: &Vec<Value>, v: u8| r.len() == 1 && same(&r[0], &Value::UTiny(v));
    match which {
        0 => {
            sym::assume(v < 251);
            expect(&query, vec![ok(0, 0, 2, 0).iter().enumerate().map(|(i, b)| if i == 1 { v } else { *b }).collect()]);
            match block(c.execute_query(t)) {
                Ok(o) => chk(o.affected_rows() == v as u64, "the result is the call's own"),
                Err(_) => chk(false, "the call succeeds"),
            }
        }
        1 => {
            expect(&query, vec![fail]);
            match block(c.execute_query(t)) {
                Ok(_) => chk(false, "the call fails"),
                Err(e) => chk(is_err(&e, k), "the error is the call's own"),
            }
        }
        2..=6 | 15 => {
            // 2: read fully, 3: one row, 4: nothing, 5: rows then an error, read, 6: rows then an error,
            // dropped after one row, 15: no rows, dropped
            let rows = if which == 15 { vec![] } else { vec![num(k), num(k + 1)] };
            let last = if which == 5 || which == 6 { fail } else { fin };
            expect(&query, result(caps, rows, last));
            match block(c.query::<Vec<Value>>(t)) {
                Ok(mut r) => {
                    let reads = match which {
                        2 | 5 => 3,
                        3 | 6 => 1,
                        _ => 0,
                    };
                    for i in 0..reads {
                        match block(r.next()) {
                            Ok(Some(x)) => chk(i < 2 && want(&x, k + i as u8), "the rows are the call's own"),
                            Ok(None) => chk(i == 2 && which == 2, "the rows end after the last"),
                            Err(e) => chk(i == 2 && which == 5 && is_err(&e, k), "the error is the call's own"),
                        }
                    }
                }
                Err(_) => chk(false, "the call succeeds"),
            }
        }
        7 => {
            expect(&query, vec![fail]);
            match block(c.query::<Vec<Value>>(t)) {
                Ok(_) => chk(false, "the call fails"),
                Err(e) => chk(is_err(&e, k), "the error is the call's own"),
            }
        }
        8 => {
            expect(&query, vec![ok(k as u64, 0, 2, 0)]);
            match block(c.query::<Vec<Value>>(t)) {
                Ok(mut r) => {
                    chk(matches!(block(r.next()), Ok(None)), "there are no rows");
                    match block(r.finish()) {
                        Ok(o) => chk(o.affected_rows() == k as u64, "the result is the call's own"),
                        Err(_) => chk(false, "the call succeeds"),
                    }
                }
                Err(_) => chk(false, "the call succeeds"),
            }
        }
        9 => {
            // rows although none were expected: an error, and the next call gets its own answer
            expect(&query, result(caps, vec![num(k)], fin));
            chk(block(c.execute_query(t)).is_err(), "an unexpected result set is an error");
        }
        10 => {
            expect(&prep, vec![fail]);
            match block(c.prepare_statement(t)) {
                Ok(_) => chk(false, "the call fails"),
                Err(e) => chk(is_err(&e, k), "the error is the call's own"),
            }
        }
        11 => {
            // prepared, not executed
            expect(&prep, prepared(caps, 1, 2));
            chk(block(c.prepare_statement(t)).is_ok(), "the call succeeds");
        }
        12..=14 | 16..=19 => {
            expect(&prep, prepared(caps, 0, if which == 12 || which == 14 { 0 } else { 1 }));
            let mut s = match block(c.prepare_statement(t)) {
                Ok(s) => s,
                Err(_) => return chk(false, "the call succeeds"),
            };
            let none: [Value; 0] = [];
            match which {
                12 => {
                    expect(&exec_cmd(), vec![ok(k as u64, 0, 2, 0)]);
                    match block(s.execute(&none)) {
                        Ok(o) => chk(o.affected_rows() == k as u64, "the result is the call's own"),
                        Err(_) => chk(false, "the call succeeds"),
                    }
                }
                14 => {
                    expect(&exec_cmd(), vec![fail]);
                    match block(s.execute(&none)) {
                        Ok(_) => chk(false, "the call fails"),
                        Err(e) => chk(is_err(&e, k), "the error is the call's own"),
                    }
                }
                19 => {
                    // wrong number of values, then right
                    chk(block(s.execute(&[Value::Tiny(1)])).is_err(), "the wrong number of values is an error");
                    expect(&exec_cmd(), result(caps, vec![brow(v)], fin));
                    match block(s.query::<Value, Vec<Value>>(&none)) {
                        Ok(mut r) => match block(r.one()) {
                            Ok(Some(x)) => chk(want(&x, v), "the row is the call's own"),
                            _ => chk(false, "the row is delivered"),
                        },
                        Err(_) => chk(false, "the call succeeds"),
                    }
                }
                _ => {
                    // 13: read fully twice, 16: dropped unread, executed again, 17: one row, dropped,
                    // 18: a failing execute, then a good one
                    for round in 0..2 {
                        if which == 18 && round == 0 {
                            expect(&exec_cmd(), vec![fail.clone()]);
                            match block(s.query::<Value, Vec<Value>>(&none)) {
                                Ok(_) => chk(false, "the call fails"),
                                Err(e) => chk(is_err(&e, k), "the error is the call's own"),
                            }
                            continue;
                        }
                        let v = v ^ round;
                        expect(&exec_cmd(), result(caps, vec![brow(v), brow(!v)], fin.clone()));
                        match block(s.query::<Value, Vec<Value>>(&none)) {
                            Ok(mut r) => {
                                let reads = match which {
                                    16 => 0,
                                    17 => 1,
                                    _ => 3,
                                };
                                for i in 0..reads {
                                    match block(r.next()) {
                                        Ok(Some(x)) => chk(i < 2 && want(&x, if i == 0 { v } else { !v }), "the rows are the call's own"),
                                        Ok(None) => chk(i == 2, "the rows end after the last"),
                                        Err(_) => chk(false, "the row is read"),
                                    }
                                }
                            }
                            Err(_) => chk(false, "the call succeeds"),
                        }
                    }
                }
            }
        }
        20 | 21 => {
            // a column of a type the client does not know (20: rows expected, 21: none expected)
            let mut p = vec![vec![2], col(b"a", if v & 1 == 0 { 242 } else { 244 }, 32), col(b"b", 1, 32)];
            if caps & DEPRECATE_EOF == 0 {
                p.push(end(0, 2, 0));
            }
            p.extend([[num(k), num(k)].concat(), [num(k), num(k)].concat(), fin]);
            expect(&query, p);
            if which == 20 {
                chk(block(c.query::<Vec<Value>>(t)).is_err(), "the refused answer is an error");
            } else {
                chk(block(c.execute_query(t)).is_err(), "the refused answer is an error");
            }
        }
        22 | 23 => {
            // a value that is no number, then another row (22: dropped, 23: read on)
            expect(&query, result(caps, vec![num(k), lestr(b"x"), num(k + 1)], fin));
            match block(c.query::<Vec<Value>>(t)) {
                Ok(mut r) => {
                    chk(matches!(block(r.next()), Ok(Some(x)) if want(&x, k)), "the rows are the call's own");
                    chk(block(r.next()).is_err(), "the value is refused");
                    if which == 23 {
                        match block(r.next()) {
                            Ok(Some(x)) => chk(want(&x, k + 1), "the rows are the call's own"),
                            Ok(None) => {}
                            Err(_) => chk(false, "the error belongs to its row"),
                        }
                    }
                }
                Err(_) => chk(false, "the call succeeds"),
            }
        }
        24 => {
            // a statement with a result column of a type the client does not know
            let mut p = prepared(caps, 0, 1);
            p[1] = col(b"a", 242, 32);
            expect(&prep, p.clone());
            if let Ok(mut s) = block(c.prepare_statement(t)) {
                let mut q = vec![vec![1], p[1].clone()];
                if caps & DEPRECATE_EOF == 0 {
                    q.push(end(0, 2, 0));
                }
                q.extend([brow(v), fin]);
                expect(&exec_cmd(), q);
                let none: [Value; 0] = [];
                chk(block(s.query::<Value, Vec<Value>>(&none)).is_err(), "the refused answer is an error");
            }
        }
        _ => {}
    }
}

/// C03: histories. param0: calls, param1: 1 without DEPRECATE_EOF, param2: first call + 1 (0: chosen),
/// param3: second call + 1
#[no_mangle]
#[inline(never)]
pub fn h_history() {
    let caps = if sym::param(1) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    net().hook = Some(Box::new(serve));
    net().closed = false;
    for i in 0..sym::param(0) {
        let fixed = match i {
            0 => sym::param(2),
            1 => sym::param(3),
            _ => 0,
        } as usize;
        let which = if fixed > 0 { fixed - 1 } else { sym::choose(OPS) };
        op(&mut c, caps, which, 10 + 20 * i as u8);
        chk(script().is_empty(), "every command is sent when its call returns");
    }
    // what is left is skipped before the last command
    op(&mut c, caps, 0, 200);
    let n = net();
    chk(n.pos == n.inc.len(), "nothing is left over");
    chk(n.out_pos == n.out.len(), "nothing else is sent");
    cover("history");
}

/// C22: rows of a result set. param0: rows, param1: way of reading, param2: 1 binary, param3: 1 without
/// DEPRECATE_EOF
#[no_mangle]
#[inline(never)]
pub fn h_result_set() {
    let n = sym::param(0) as usize;
    let binary = sym::param(2) == 1;
    let caps = if sym::param(3) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let m = net();
    m.closed = false;
    let mut rows = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let v = sym::vec(1);
        // NULL or a string: in text rows also one that starts like a closing packet
        let null = sym::choose(2) == 1;
        rows.push(match (binary, null) {
            (true, true) => vec![0, 4],
            (true, false) => [&[0, 0], &lestr(&v)[..]].concat(),
            (false, true) => vec![0xFB],
            (false, false) => [&[0xFC, 1, 0], &v[..]].concat(),
        });
        want.push(if null { Value::Null } else { Value::Bytes(v) });
    }
    let warnings = sym::u16();
    let cols = [col(b"a", 253, 0)];
    let mut p = vec![lenenc(1)];
    p.extend_from_slice(&cols);
    if caps & DEPRECATE_EOF == 0 {
        p.push(end(0, 0xFFFB, 0xFFFF));
    }
    p.extend_from_slice(&rows);
    p.push(end_with(caps, warnings, sym::choose(2) == 1));
    let right = |i: usize, r: &Vec<Value>| r.len() == 1 && i < n && same(&r[0], &want[i]);
    macro_rules! go {
        ($r:expr) => {{
            let mut r = match $r {
                Ok(r) => r,
                Err(_) => return chk(false, "the result set is accepted"),
            };
            let mut i = 0;
            // some rows one by one
            let first = match sym::param(1) {
                0 => n,
                1 => 0,
                _ => sym::choose(n + 1),
            };
            while i < first {
                match block(r.next()) {
                    Ok(Some(x)) => chk(right(i, &x), "the rows are the server's, in order"),
                    _ => return chk(false, "every row is delivered"),
                }
                i += 1;
            }
            let mut ended = false;
            match sym::param(1) {
                0 => {}
                1 | 2 => match block(r.collect()) {
                    Ok(v) => {
                        chk(v.len() == n - i, "collect delivers every remaining row");
                        for x in &v {
                            chk(right(i, x), "the rows are the server's, in order");
                            i += 1;
                        }
                        ended = true;
                    }
                    Err(_) => return chk(false, "collect succeeds"),
                },
                3 => match block(r.one()) {
                    Ok(Some(x)) => {
                        chk(i < n && right(i, &x), "one delivers the next row");
                        ended = true;
                    }
                    Ok(None) => {
                        chk(i == n, "one delivers nothing only at the end");
                        ended = true;
                    }
                    Err(_) => return chk(false, "one succeeds"),
                },
                _ => {}
            }
            match sym::param(1) {
                4 => match block(r.finish()) {
                    Ok(o) => chk(o.warnings() == warnings, "finish gives the closing packet"),
                    Err(_) => chk(false, "finish succeeds"),
                },
                5 => match block(r.finish_into_inner()) {
                    Ok((o, cs, _)) => {
                        chk(o.warnings() == warnings, "finish gives the closing packet");
                        chk(cs.len() == 1 && cs[0].name() == "a", "and the columns");
                    }
                    Err(_) => chk(false, "finish succeeds"),
                },
                _ => {
                    for k in 0..3 {
                        match block(r.next()) {
                            Ok(None) => ended = true,
                            _ => chk(false, "then the end is reported for ever"),
                        }
                        if k == 1 {
                            match block(r.collect()) {
                                Ok(v) => chk(v.is_empty(), "nothing is delivered twice"),
                                Err(_) => chk(false, "then the end is reported for ever"),
                            }
                            chk(matches!(block(r.one()), Ok(None)), "then the end is reported for ever");
                        }
                    }
                    match block(r.finish()) {
                        Ok(o) => chk(o.warnings() == warnings, "finish gives the closing packet"),
                        Err(_) => chk(false, "finish succeeds"),
                    }
                }
            }
            let _ = ended;
            let m = net();
            chk(m.pos == m.inc.len(), "the whole result set is consumed");
            cover("result set read");
        }};
    }
    if binary {
        m.send_all(1, &prepared(caps, 0, 1));
        let mut s = match block(c.prepare_statement("s")) {
            Ok(s) => s,
            Err(_) => return chk(false, "prepare succeeds"),
        };
        rewind();
        net().send_all(1, &p);
        let none: [Value; 0] = [];
        go!(block(s.query::<Value, Vec<Value>>(&none)))
    } else {
        m.send_all(1, &p);
        go!(block(c.query::<Vec<Value>>("s")))
    }
    let _ = send_result;
}

/// C22: a query that has no result set. param0: way of reading
#[no_mangle]
#[inline(never)]
pub fn h_no_result_set() {
    let mut c = connect(FULL);
    let w = sym::u16();
    let a = sym::u8();
    sym::assume(a < 251);
    let m = net();
    m.closed = false;
    m.send(1, &[&[0, a, 0, 2, 0][..], &w.to_le_bytes()].concat());
    let mut r = match block(c.query::<Vec<Value>>("s")) {
        Ok(r) => r,
        Err(_) => return chk(false, "the result is accepted"),
    };
    chk(r.columns().is_empty(), "there are no columns");
    match sym::param(0) {
        0 => {
            for _ in 0..3 {
                chk(matches!(block(r.next()), Ok(None)), "there are no rows");
            }
        }
        1 => chk(block(r.collect()).map_or(false, |v| v.is_empty()), "there are no rows"),
        2 => chk(matches!(block(r.one()), Ok(None)), "there are no rows"),
        _ => {}
    }
    match block(r.finish()) {
        Ok(o) => {
            chk(o.warnings() == w && o.affected_rows() == a as u64, "finish gives the server's packet");
            cover("no result set");
        }
        Err(_) => chk(false, "finish succeeds"),
    }
}
