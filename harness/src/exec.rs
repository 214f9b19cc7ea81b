//! Executing prepared statements: what the server reads out of the packets.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use crate::values::value;
use mysql_connector::{error::RuntimeError, types::Value, Connection, Error};

const KINDS: usize = 15;

fn eat<'a>(p: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if n > p.len() {
        return None;
    }
    let (a, b) = p.split_at(n);
    *p = b;
    Some(a)
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

/// A length-encoded string.
fn eat_lestr<'a>(p: &mut &'a [u8]) -> Option<&'a [u8]> {
    let n = match eat(p, 1)?[0] {
        0xFC => le(eat(p, 2)?) as usize,
        0xFD => le(eat(p, 3)?) as usize,
        0xFE => le(eat(p, 8)?) as usize,
        0xFB | 0xFF => return None,
        x => x as usize,
    };
    eat(p, n)
}

fn padded<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut o = [0; N];
    o[..b.len()].copy_from_slice(b);
    o
}

/// One parameter as the server reads it: whether it denotes the value.
fn denotes(v: &Value, null: bool, ty: u8, flag: u8, long: Option<&[u8]>, p: &mut &[u8]) -> bool {
    let and = sym::and;
    let int = |p: &mut &[u8], n: usize, want: u64, unsigned: bool, t: u8| -> bool {
        match eat(p, n) {
            Some(b) => and(and(ty == t, le(b) == want), (flag == 0x80) == unsigned),
            None => false,
        }
    };
    if null {
        return matches!(v, Value::Null);
    }
    match v {
        Value::Null => false,
        Value::Tiny(x) => int(p, 1, *x as u8 as u64, false, 1),
        Value::UTiny(x) => int(p, 1, *x as u64, true, 1),
        Value::Short(x) => int(p, 2, *x as u16 as u64, false, 2),
        Value::UShort(x) => int(p, 2, *x as u64, true, 2),
        Value::Int(x) => int(p, 4, *x as u32 as u64, false, 3),
        Value::UInt(x) => int(p, 4, *x as u64, true, 3),
        Value::Long(x) => int(p, 8, *x as u64, false, 8),
        Value::ULong(x) => int(p, 8, *x, true, 8),
        Value::Float(x) => and(ty == 4, eat(p, 4).map_or(false, |b| le(b) == x.to_bits() as u64)),
        Value::Double(x) => and(ty == 5, eat(p, 8).map_or(false, |b| le(b) == x.to_bits())),
        Value::Bytes(x) => {
            // any of the string types
            let t = matches!(ty, 15 | 249..=254);
            match long {
                Some(b) => t && sym::eq(b, x),
                None => t && eat_lestr(p).map_or(false, |b| sym::eq(b, x)),
            }
        }
        Value::Date(y, m, d) => {
            let n = eat(p, 1).map_or(99, |b| b[0] as usize);
            if ty != 10 || !matches!(n, 0 | 4 | 7 | 11) {
                return false;
            }
            let b: [u8; 11] = match eat(p, n) {
                Some(b) => padded(b),
                None => return false,
            };
            and(and(le(&b[..2]) == *y as u64, and(b[2] == *m, b[3] == *d)), le(&b[4..]) == 0)
        }
        Value::Datetime(y, m, d, h, i, s, u) => {
            let n = eat(p, 1).map_or(99, |b| b[0] as usize);
            if !matches!(ty, 7 | 12) || !matches!(n, 0 | 4 | 7 | 11) {
                return false;
            }
            let b: [u8; 11] = match eat(p, n) {
                Some(b) => padded(b),
                None => return false,
            };
            let date = and(le(&b[..2]) == *y as u64, and(b[2] == *m, b[3] == *d));
            and(date, and(and(b[4] == *h, b[5] == *i), and(b[6] == *s, le(&b[7..]) == *u as u64)))
        }
        Value::Time(neg, d, h, i, s, u) => {
            let n = eat(p, 1).map_or(99, |b| b[0] as usize);
            if ty != 11 || !matches!(n, 0 | 8 | 12) {
                return false;
            }
            let b: [u8; 12] = match eat(p, n) {
                Some(b) => padded(b),
                None => return false,
            };
            let zero = and(and(*d == 0, *h == 0), and(and(*i == 0, *s == 0), *u == 0));
            let sign = sym::or(zero, (b[0] == 1) == *neg);
            and(and(and(b[0] <= 1, sign), le(&b[1..5]) == *d as u64), and(and(b[5] == *h, b[6] == *i), and(b[7] == *s, le(&b[8..]) == *u as u64)))
        }
    }
}

/// Checks an execute packet against the parameters. `long`: data sent before.
fn check_execute(cmd: &[u8], id: u32, values: &[Value], long: &[Option<Vec<u8>>]) {
    let mut p = cmd;
    let n = values.len();
    let head = match eat(&mut p, 10) {
        Some(h) => h,
        None => return chk(false, "an execute packet has its header"),
    };
    chk(head[0] == 0x17, "the command is an execute");
    chk(le(&head[1..5]) == id as u64, "the statement is the one prepared");
    chk(head[5] == 0, "no cursor is asked for");
    chk(le(&head[6..10]) == 1, "one iteration");
    if n == 0 {
        chk(p.is_empty(), "nothing follows without parameters");
        return;
    }
    let (bitmap, bound, types) = match (eat(&mut p, (n + 7) / 8), eat(&mut p, 1), eat(&mut p, 2 * n)) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return chk(false, "bitmap and types are there"),
    };
    chk(bound[0] == 1, "the types are bound");
    for (i, v) in values.iter().enumerate() {
        let null = bitmap[i / 8] >> (i % 8) & 1 == 1;
        let l = long[i].as_deref();
        chk(denotes(v, null, types[2 * i], types[2 * i + 1], l, &mut p), "the parameter is recovered");
    }
    chk(p.is_empty(), "nothing follows the parameters");
}

fn prepare_packets(caps: u32, id: u32, params: u16, cols: u16) -> Vec<Vec<u8>> {
    let mut p = vec![crate::rows::prepare_ok(id, cols, params)];
    for n in [params, cols] {
        for _ in 0..n {
            p.push(col(b"p", 1, 32));
        }
        if n > 0 && caps & DEPRECATE_EOF == 0 {
            p.push(end(0, 2, 0));
        }
    }
    p
}

fn run(c: &mut Connection, caps: u32, values: &[Value], how: u64, seq: u8) -> (u32, bool) {
    rewind();
    let id = sym::u32();
    net().send_all(1, &prepare_packets(caps, id, values.len() as u16, 0));
    let mut s = match block(c.prepare_statement("s")) {
        Ok(s) => s,
        Err(_) => {
            chk(false, "the statement is prepared");
            return (id, false);
        }
    };
    chk(take_command().map_or(false, |x| x[..] == b"\x16s"[..]), "prepare is sent");
    let r = match how {
        0 => {
            net().send(seq, &ok(7, 0, 2, 0));
            block(s.execute(values)).map(|o| o.affected_rows() == 7)
        }
        1 => {
            net().send(seq, &ok(7, 0, 2, 0));
            let refs: Vec<&Value> = values.iter().collect();
            block(s.execute(&refs)).map(|o| o.affected_rows() == 7)
        }
        _ => {
            crate::rows::send_result(caps, &[col(b"a", 1, 32)], &[vec![0, 0, 5]], 2);
            block(async { s.query::<Value, Vec<Value>>(values).await?.collect().await }).map(|r| r.len() == 1 && r[0] == [Value::UTiny(5)])
        }
    };
    match r {
        Ok(b) => chk(b, "the answer is the execute's own"),
        Err(_) => chk(false, "the execute succeeds"),
    }
    (id, true)
}

/// C11: any values. param0: number of parameters, param1: kind of all of them + 1 (0: any each),
/// param2: string length, param3: 0 execute, 1 execute by references, 2 query
#[no_mangle]
#[inline(never)]
pub fn h_exec() {
    let n = sym::param(0) as usize;
    let l = sym::param(2) as usize;
    let mut c = connect(FULL);
    let values: Vec<Value> = (0..n)
        .map(|i| {
            let k = match sym::param(1) as usize {
                0 => sym::choose(KINDS),
                // few kinds: numbers, NULL, text
                100 => [5, 0, 11][sym::choose(3)],
                // NULL or not
                101 => [5, 0][sym::choose(2)],
                // one place is anything
                102 => [0, 5, 11, 4][i % 4],
                k => k - 1,
            };
            value(k, l)
        })
        .collect();
    let (id, done) = run(&mut c, FULL, &values, sym::param(3), 1);
    if !done {
        return;
    }
    match take_command() {
        Some(x) => check_execute(&x, id, &values, &vec![None; n]),
        None => chk(false, "an execute is sent"),
    }
    chk(take_command().is_none(), "and nothing else");
    cover("executed");
}

/// C11: many parameters, NULL at a chosen one or two. param0: number
#[no_mangle]
#[inline(never)]
pub fn h_exec_many() {
    let n = sym::param(0) as usize;
    let (a, b) = (sym::choose(n), sym::choose(n));
    let mut c = connect(FULL);
    let values: Vec<Value> = (0..n).map(|i| if i == a || i == b { Value::Null } else { value(1 + i % 14, 1) }).collect();
    // (dates with concrete parts: the shape of each is checked above)
    let (id, done) = run(&mut c, FULL, &values, 0, 1);
    if !done {
        return;
    }
    match take_command() {
        Some(x) => check_execute(&x, id, &values, &vec![None; n]),
        None => chk(false, "an execute is sent"),
    }
    chk(take_command().is_none(), "and nothing else");
    cover("executed");
}

/// C11: texts of the lengths at which the length's form changes. param0: length
#[no_mangle]
#[inline(never)]
pub fn h_exec_long_text() {
    let n = sym::param(0) as usize;
    let mut t = vec![b'x'; n];
    for i in [0, 1, n / 2, n - 1] {
        t[i] = sym::u8();
    }
    let mut c = connect(FULL);
    let values = [value(5, 0), Value::Bytes(t), value(8, 0)];
    let (id, done) = run(&mut c, FULL, &values, 0, 1);
    if !done {
        return;
    }
    match take_command() {
        Some(x) => check_execute(&x, id, &values, &[None, None, None]),
        None => chk(false, "an execute is sent"),
    }
    chk(take_command().is_none(), "and nothing else");
    cover("executed");
}

/// C23: wrong and right numbers of values. param0: parameters announced, param1: columns announced,
/// param2: values given first, param3: 1 without DEPRECATE_EOF
#[no_mangle]
#[inline(never)]
pub fn h_count_mismatch() {
    let (p, cols, k) = (sym::param(0) as u16, sym::param(1) as u16, sym::param(2) as usize);
    let caps = if sym::param(3) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    rewind();
    let id = sym::u32();
    net().send_all(1, &prepare_packets(caps, id, p, cols));
    let mut s = match block(c.prepare_statement("s")) {
        Ok(s) => s,
        Err(_) => return chk(false, "the statement is prepared"),
    };
    chk(take_command().is_some(), "prepare is sent");
    let wrong: Vec<Value> = (0..k).map(|_| value(5, 0)).collect();
    let before = net().out.len();
    if k != p as usize {
        // no answer is there, so a call that sends would not return
        let e = if sym::choose(2) == 0 {
            try_block(s.execute(&wrong)).map(|r| r.err())
        } else {
            try_block(s.query::<Value, Vec<Value>>(&wrong)).map(|r| r.err())
        };
        match e {
            Some(Some(Error::Runtime(RuntimeError::ParameterCountMismatch))) => cover("mismatch"),
            _ => chk(false, "a wrong number of values fails as such"),
        }
        chk(net().out.len() == before, "nothing is sent then");
    }
    let right: Vec<Value> = (0..p).map(|_| value(5, 0)).collect();
    let v = sym::u8();
    let fine = if sym::choose(2) == 0 {
        sym::assume(v < 251);
        net().send(1, &[0, v, 0, 2, 0, 0, 0]);
        block(s.execute(&right)).map_or(false, |o| o.affected_rows() == v as u64)
    } else {
        crate::rows::send_result(caps, &[col(b"a", 1, 32)], &[vec![0, 0, v]], 2);
        match block(async { s.query::<Value, Vec<Value>>(&right).await?.collect().await }) {
            Ok(r) => r.len() == 1 && r[0].len() == 1 && crate::values::same(&r[0][0], &Value::UTiny(v)),
            Err(_) => false,
        }
    };
    chk(fine, "the answer is the execute's own");
    match take_command() {
        Some(x) => check_execute(&x, id, &right, &vec![None; p as usize]),
        None => chk(false, "an execute is sent"),
    }
    chk(take_command().is_none(), "and nothing else");
    cover("executed");
}

/// C23: two statements after each other, each on its own id. param0: 1 without DEPRECATE_EOF
#[no_mangle]
#[inline(never)]
pub fn h_two_statements() {
    let caps = if sym::param(0) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    for _ in 0..2 {
        let n = sym::choose(3);
        let values: Vec<Value> = (0..n).map(|_| value(5, 0)).collect();
        let (id, done) = run(&mut c, caps, &values, sym::choose(3) as u64, 1);
        if !done {
            return;
        }
        match take_command() {
            Some(x) => check_execute(&x, id, &values, &vec![None; n]),
            None => chk(false, "an execute is sent"),
        }
        chk(take_command().is_none(), "and nothing else");
    }
    cover("executed");
}

const MAX: usize = 0xFF_FFFF;

/// C24: parameters about the size of a packet. param0: layout, param1: size of the large one: the
/// whole execute packet would have 2^24-1 + param1 - 100 bytes (or, from 1000 on, param1 / 1000 packets and the rest)
#[no_mangle]
#[inline(never)]
pub fn h_long_data() {
    let layout = sym::param(0);
    let small = |n: usize| Value::Bytes(sym::vec(n));
    let (mut values, big): (Vec<Value>, usize) = match layout {
        0 => (vec![Value::Null], 0),
        1 => (vec![value(8, 0), Value::Null, small(2), Value::Null, value(1, 0)], 3),
        2 => (vec![small(0), value(0, 0), small(3), value(5, 0)], 1),
        3 => (vec![Value::Null, small(1)], 0),
        4 => {
            // two large ones
            let mut b = vec![0x52u8; 8_000_000];
            b[0] = sym::u8();
            b[7_999_999] = sym::u8();
            (vec![Value::Bytes(b), value(2, 0), Value::Null], 2)
        }
        _ => (vec![value(6, 0), small(0), Value::Null, Value::Null, small(1), value(13, 0)], 3),
    };
    // the size the packet would have without the large parameter
    let n = values.len();
    let mut rest = 10 + (n + 7) / 8 + 1 + 2 * n;
    for (i, v) in values.iter().enumerate() {
        if i != big {
            rest += match v {
                Value::Bytes(b) => lenenc(b.len() as u64).len() + b.len(),
                Value::ULong(_) => 8,
                Value::Short(_) | Value::UShort(_) => 2,
                Value::UTiny(_) | Value::Tiny(_) => 1,
                Value::Time(..) => 13,
                _ => 0,
            };
        }
    }
    if let Some(Value::Time(_, _, _, _, _, u)) = values.last() {
        sym::assume(*u != 0);
    }
    let total = match sym::param(1) as usize {
        // several packets
        p if p >= 1000 => (p / 1000) * MAX + p % 1000,
        p => MAX + p - 100,
    };
    // length prefix of 4 or (2^24 and above) 9 bytes
    let mut l = total - rest - 4;
    if l > MAX {
        l = total - rest - 9;
    }
    let mut b = vec![0x51u8; l];
    for i in [0, 1, MAX - 14, MAX - 13, MAX - 12, MAX - 7, MAX - 6, MAX - 5, 2 * MAX - 12, l - 2, l - 1] {
        if i < l {
            b[i] = sym::u8();
        }
    }
    values[big] = Value::Bytes(b);
    let mut c = connect(FULL);
    let (id, done) = run(&mut c, FULL, &values, sym::param(2), if total == MAX { 2 } else { 1 });
    if !done {
        return;
    }
    let mut long: Vec<Option<Vec<u8>>> = vec![None; n];
    let mut last = 0;
    let exec = loop {
        match take_command() {
            Some(x) if x[0] == 0x18 => {
                chk(x.len() >= 7, "long data has its header");
                chk(le(&x[1..5]) == id as u64, "long data is for its statement");
                let i = le(&x[5..7]) as usize;
                chk(i < n && matches!(values[i], Value::Bytes(_)), "long data is for a byte string");
                chk(i >= last, "long data comes in order");
                last = i;
                long[i].get_or_insert_with(Vec::new).extend_from_slice(&x[7..]);
            }
            Some(x) => break x,
            None => return chk(false, "an execute is sent"),
        }
    };
    chk(take_command().is_none(), "and nothing else");
    check_execute(&exec, id, &values, &long);
    if total <= MAX - 1 {
        chk(long.iter().all(|x| x.is_none()), "no long data if the parameters fit");
        cover("fits");
    }
    if total > MAX {
        for (i, v) in values.iter().enumerate() {
            chk(long[i].is_some() == matches!(v, Value::Bytes(_)), "each byte string is sent as long data");
        }
        cover("long data");
    }
}
