//! Rows, columns, command results: what the server sent is what the caller gets.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use crate::values::{fill, same, string};
use mysql_connector::{types::Value, Connection};

pub const TYPES: [u8; 33] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 243, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255,
];
const UNSIGNED: u16 = 32;

fn is_string(ty: u8) -> bool {
    matches!(ty, 0 | 15 | 16 | 245..=255)
}
fn supported(ty: u8) -> bool {
    !matches!(ty, 14 | 17..=20 | 243)
}

/// One value of a type in the binary protocol: encoded bytes and the value. `len` for strings.
pub fn bin_value(ty: u8, unsigned: bool, len: usize) -> (Vec<u8>, Value) {
    match ty {
        1 => {
            let b = sym::u8();
            (vec![b], if unsigned { Value::UTiny(b) } else { Value::Tiny(b as i8) })
        }
        2 | 13 => {
            let b: [u8; 2] = sym::bytes();
            let x = u16::from_le_bytes(b);
            (b.to_vec(), if unsigned { Value::UShort(x) } else { Value::Short(x as i16) })
        }
        3 | 9 => {
            let b: [u8; 4] = sym::bytes();
            let x = u32::from_le_bytes(b);
            (b.to_vec(), if unsigned { Value::UInt(x) } else { Value::Int(x as i32) })
        }
        8 => {
            let b: [u8; 8] = sym::bytes();
            let x = u64::from_le_bytes(b);
            (b.to_vec(), if unsigned { Value::ULong(x) } else { Value::Long(x as i64) })
        }
        4 => {
            let b: [u8; 4] = sym::bytes();
            (b.to_vec(), Value::Float(f32::from_bits(u32::from_le_bytes(b))))
        }
        5 => {
            let b: [u8; 8] = sym::bytes();
            (b.to_vec(), Value::Double(f64::from_bits(u64::from_le_bytes(b))))
        }
        6 => (vec![], Value::Null),
        10 => {
            if sym::choose(2) == 0 {
                (vec![0], Value::Date(0, 0, 0))
            } else {
                let b: [u8; 4] = sym::bytes();
                ([&[4u8], &b[..]].concat(), Value::Date(u16::from_le_bytes([b[0], b[1]]), b[2], b[3]))
            }
        }
        7 | 12 => {
            let n = [0usize, 4, 7, 11][sym::choose(4)];
            let mut b = [0u8; 11];
            sym::fill(&mut b[..n]);
            (
                [&[n as u8], &b[..n]].concat(),
                Value::Datetime(u16::from_le_bytes([b[0], b[1]]), b[2], b[3], b[4], b[5], b[6], u32::from_le_bytes([b[7], b[8], b[9], b[10]])),
            )
        }
        11 => {
            let n = [0usize, 8, 12][sym::choose(3)];
            let mut b = [0u8; 12];
            sym::fill(&mut b[..n]);
            sym::assume(b[0] <= 1);
            (
                [&[n as u8], &b[..n]].concat(),
                Value::Time(b[0] == 1, u32::from_le_bytes([b[1], b[2], b[3], b[4]]), b[5], b[6], b[7], u32::from_le_bytes([b[8], b[9], b[10], b[11]])),
            )
        }
        _ => {
            let v = sym::vec(len);
            // any of the length forms
            let l = len as u8;
            let e = match sym::choose(4) {
                0 => vec![l],
                1 => vec![0xFC, l, 0],
                2 => vec![0xFD, l, 0, 0],
                _ => vec![0xFE, l, 0, 0, 0, 0, 0, 0, 0],
            };
            ([e, v.clone()].concat(), Value::Bytes(v))
        }
    }
}

/// Queue a result set: column definitions, rows, closing packet.
pub fn send_result(caps: u32, cols: &[Vec<u8>], rows: &[Vec<u8>], status: u16) {
    let mut p = vec![lenenc(cols.len() as u64)];
    p.extend_from_slice(cols);
    if caps & DEPRECATE_EOF == 0 {
        p.push(end(0, status, 0));
    }
    p.extend_from_slice(rows);
    p.push(end(caps, status, 0));
    net().send_all(1, &p);
}

pub fn prepare_ok(id: u32, cols: u16, params: u16) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend_from_slice(&id.to_le_bytes());
    p.extend_from_slice(&cols.to_le_bytes());
    p.extend_from_slice(&params.to_le_bytes());
    p.push(0);
    p.extend_from_slice(&[0, 0]);
    p
}

/// All rows of a result set whose packets are queued; binary or text protocol.
pub fn fetch(c: &mut Connection, binary: bool, cols: &[Vec<u8>], rows: &[Vec<u8>], caps: u32) -> Result<Vec<Vec<Value>>, mysql_connector::Error> {
    rewind();
    if binary {
        net().send(1, &prepare_ok(1, 0, 0));
        let mut s = block(c.prepare_statement("s"))?;
        send_result(caps, cols, rows, 2);
        let mut r = block(s.query::<Value, Vec<Value>>(&[]))?;
        block(r.collect())
    } else {
        send_result(caps, cols, rows, 2);
        let mut r = block(c.query::<Vec<Value>>("s"))?;
        block(r.collect())
    }
}

/// C12: one column of any type. param0: string length, param1: 1 without DEPRECATE_EOF
#[no_mangle]
#[inline(never)]
pub fn h_bin_one() {
    let caps = if sym::param(1) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let ty = TYPES[sym::choose(TYPES.len())];
    let flags = sym::u16();
    let unsigned = flags & UNSIGNED != 0;
    let (enc, want) = if supported(ty) { bin_value(ty, unsigned, sym::param(0) as usize) } else { (sym::vec(2), Value::Null) };
    let bits = sym::u8();
    let null = bits & 4 != 0;
    let mut row = vec![0u8, bits];
    if !null {
        row.extend_from_slice(&enc);
    }
    match fetch(&mut c, true, &[col(b"a", ty, flags)], &[row], caps) {
        Ok(r) => {
            chk(r.len() == 1 && r[0].len() == 1, "one row with one value");
            if null {
                chk(matches!(r[0][0], Value::Null), "NULL exactly if the bit is set");
                cover("binary null");
            } else {
                chk(supported(ty), "a type without a binary form is an error");
                chk(same(&r[0][0], &want), "the value is the one encoded for the type and sign");
                cover("binary value");
            }
        }
        Err(_) => {
            chk(!supported(ty), "a valid row is accepted");
            cover("binary error");
        }
    }
}

/// C12: param0 columns of a type each, all null bits symbolic. param1: 0 all TINYINT, 1 mixed
#[no_mangle]
#[inline(never)]
pub fn h_bin_many() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let mut cols = Vec::new();
    let mut types = Vec::new();
    for i in 0..n {
        let ty = if sym::param(1) == 0 { 1 } else { [1u8, 253, 10, 8, 11, 2][(i + sym::param(1) as usize) % 6] };
        types.push(ty);
        cols.push(col(&[b'a' + i as u8], ty, 0));
    }
    let mut bits = sym::vec((n + 9) / 8);
    if n > 8 {
        // only the bits next to byte boundaries vary
        for i in 0..n {
            if !matches!(i, 0 | 5 | 6 | 7 | 13 | 14 | 15 | 21 | 22) && i != n - 1 {
                let m = 1u8 << ((i + 2) % 8);
                let b = &mut bits[(i + 2) / 8];
                *b = *b & !m | if i % 3 == 0 { m } else { 0 };
            }
        }
    }
    let mut row = vec![0u8];
    row.extend_from_slice(&bits);
    let mut want = Vec::new();
    for (i, ty) in types.iter().enumerate() {
        if bits[(i + 2) / 8] >> ((i + 2) % 8) & 1 == 1 {
            want.push(Value::Null);
        } else {
            let (e, v) = bin_value(*ty, false, 1);
            row.extend(e);
            want.push(v);
        }
    }
    match fetch(&mut c, true, &cols, &[row], FULL) {
        Ok(r) => {
            chk(r.len() == 1 && r[0].len() == n, "one value per column");
            for (x, y) in r[0].iter().zip(&want) {
                chk(same(x, y), "each value is the one of its column");
            }
            cover("binary row");
        }
        Err(_) => chk(false, "a valid row is accepted"),
    }
}

/// C12: a row cut anywhere is an error. param0: number of columns (mixed types), param1: 1: types of
/// different shape only
#[no_mangle]
#[inline(never)]
pub fn h_bin_short() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let mut cols = Vec::new();
    let mut row = vec![0u8];
    row.extend(vec![0u8; (n + 9) / 8]);
    const SHAPES: [u8; 6] = [1, 8, 10, 7, 11, 253];
    for i in 0..n {
        let ty = if sym::param(1) == 1 { SHAPES[sym::choose(6)] } else { TYPES[sym::choose(TYPES.len())] };
        if !supported(ty) || ty == 6 {
            return;
        }
        let (e, _) = bin_value(ty, false, 2);
        row.extend(e);
        cols.push(col(&[b'a' + i as u8], ty, 0));
    }
    let cut = 1 + sym::choose(row.len() - 1);
    row.truncate(cut);
    chk(fetch(&mut c, true, &cols, &[row], FULL).is_err(), "a row that is too short is an error");
    cover("binary row cut");
}

// ---------------------------------------------------------------- text rows

/// Integer of at most `n` text bytes as the type's range: (valid, magnitude, negative)
fn ref_int(t: &[u8], signed: bool) -> (bool, bool, u128) {
    let mut i = 0;
    let mut neg = false;
    if signed && t.len() > 0 {
        if t[0] == b'-' {
            neg = true;
            i = 1;
        } else if t[0] == b'+' {
            i = 1;
        }
    }
    if i == t.len() {
        return (false, false, 0);
    }
    let mut ok = true;
    let mut m = 0u128;
    while i < t.len() {
        let d = t[i];
        ok = sym::and(ok, sym::and(d >= b'0', d <= b'9'));
        m = m.wrapping_mul(10).wrapping_add(d.wrapping_sub(b'0') as u128);
        i += 1;
    }
    (ok, neg, m)
}

/// C13: integer columns. param0: text length, param1: type (1, 2, 3, 8, 9, 13), param2: unsigned,
/// param3: 1: only digits and a sign are generated, 2..: digits after a fixed prefix
#[no_mangle]
#[inline(never)]
pub fn h_text_int() {
    let n = sym::param(0) as usize;
    let ty = sym::param(1) as u8;
    let unsigned = sym::param(2) == 1;
    let mut c = connect(FULL);
    let mut t = sym::vec(n);
    if sym::param(3) >= 1 {
        for (i, x) in t.iter().enumerate() {
            let d = sym::and(*x >= b'0', *x <= b'9');
            sym::assume(if i == 0 && sym::param(3) == 1 { sym::or(d, *x == b'-') } else { d });
        }
    }
    if sym::param(3) >= 2 {
        const P: [&[u8]; 8] = [b"1844674407370955", b"922337203685477", b"-922337203685477", b"4294967", b"2147483", b"-2147483", b"0000000000000000000001", b"12345678901234"];
        t = [P[sym::param(3) as usize - 2], &t].concat();
    }
    let (ok, neg, m) = ref_int(&t, !unsigned);
    let bits = match ty {
        1 => 8,
        2 | 13 => 16,
        3 | 9 => 32,
        _ => 64,
    };
    let max = if unsigned {
        (1u128 << bits) - 1
    } else if neg {
        1u128 << (bits - 1)
    } else {
        (1u128 << (bits - 1)) - 1
    };
    let valid = sym::and(ok, m <= max);
    let v = if neg { (m as u64).wrapping_neg() } else { m as u64 };
    match fetch(&mut c, false, &[col(b"a", ty, if unsigned { UNSIGNED } else { 0 })], &[lestr(&t)], FULL) {
        Ok(r) => {
            chk(valid, "text that is no integer of the column's width is an error");
            let want = match (bits, unsigned) {
                (8, false) => Value::Tiny(v as i8),
                (16, false) => Value::Short(v as i16),
                (32, false) => Value::Int(v as i32),
                (_, false) => Value::Long(v as i64),
                (8, true) => Value::UTiny(v as u8),
                (16, true) => Value::UShort(v as u16),
                (32, true) => Value::UInt(v as u32),
                (_, true) => Value::ULong(v),
            };
            chk(r.len() == 1 && r[0].len() == 1 && same(&r[0][0], &want), "the integer is the printed one");
            cover("text integer");
        }
        Err(_) => {
            chk(!valid, "every integer of the column's width is accepted");
            cover("text integer refused");
        }
    }
}

fn digits(t: &[u8]) -> (bool, u64) {
    let mut ok = true;
    let mut v = 0u64;
    for d in t {
        ok = sym::and(ok, sym::and(*d >= b'0', *d <= b'9'));
        v = v.wrapping_mul(10).wrapping_add(d.wrapping_sub(b'0') as u64);
    }
    (ok, v)
}

fn ref_date(t: &[u8]) -> (bool, u16, u8, u8) {
    if t.len() != 10 {
        return (false, 0, 0, 0);
    }
    let (a, y) = digits(&t[..4]);
    let (b, m) = digits(&t[5..7]);
    let (c, d) = digits(&t[8..]);
    let ok = sym::and(sym::and(a, b), sym::and(c, sym::and(t[4] == b'-', t[7] == b'-')));
    (ok, y as u16, m as u8, d as u8)
}

/// `h..h:mm:ss[.f{1,6}]` with `hl` hour digits: (valid, hours, minutes, seconds, micros)
fn ref_time(t: &[u8], hl: usize) -> (bool, u32, u8, u8, u32) {
    let l = t.len();
    if l < hl + 6 || l == hl + 7 || l > hl + 13 || hl == 0 {
        return (false, 0, 0, 0, 0);
    }
    let (a, h) = digits(&t[..hl]);
    let (b, m) = digits(&t[hl + 1..hl + 3]);
    let (c, s) = digits(&t[hl + 4..hl + 6]);
    let mut ok = sym::and(sym::and(a, b), sym::and(c, sym::and(t[hl] == b':', t[hl + 3] == b':')));
    let mut us = 0;
    if l > hl + 6 {
        let f = &t[hl + 7..];
        let (d, x) = digits(f);
        ok = sym::and(ok, sym::and(d, t[hl + 6] == b'.'));
        us = x * 10u64.pow(6 - f.len() as u32);
    }
    (sym::and(ok, h <= u32::MAX as u64), h as u32, m as u8, s as u8, us as u32)
}

/// C13: DATE. param0: text length
#[no_mangle]
#[inline(never)]
pub fn h_text_date() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let t = sym::vec(n);
    let (ok, y, m, d) = ref_date(&t);
    match fetch(&mut c, false, &[col(b"a", 10, 0)], &[lestr(&t)], FULL) {
        Ok(r) => {
            chk(ok, "text that is no date is an error");
            chk(r.len() == 1 && same(&r[0][0], &Value::Date(y, m, d)), "the date is the printed one");
            cover("text date");
        }
        Err(_) => {
            chk(!ok, "every printed date is accepted");
            cover("text date refused");
        }
    }
}

/// C13: TIME. param0: text length, param1: hour digits the reference expects, param2: 1 with a minus
#[no_mangle]
#[inline(never)]
pub fn h_text_time() {
    let n = sym::param(0) as usize;
    let hl = sym::param(1) as usize;
    let neg = sym::param(2) == 1;
    let mut c = connect(FULL);
    let t = sym::vec(n);
    // the first colon ends the hours (as many as the reference expects), no sign inside
    for (i, x) in t.iter().enumerate() {
        if i < hl {
            sym::assume(sym::and(*x != b':', *x != b'-'));
        }
        if i == hl {
            sym::assume(*x == b':');
        }
    }
    let (ok, h, m, s, us) = ref_time(&t, hl);
    let mut text = t.clone();
    if neg {
        text.insert(0, b'-');
    }
    let want = Value::Time(neg, h / 24, (h % 24) as u8, m, s, us);
    match fetch(&mut c, false, &[col(b"a", 11, 0)], &[lestr(&text)], FULL) {
        Ok(r) => {
            chk(ok, "text that is no time is an error");
            chk(r.len() == 1 && same(&r[0][0], &want), "the time is the printed one");
            cover("text time");
        }
        Err(_) => {
            chk(!ok, "every printed time is accepted");
            cover("text time refused");
        }
    }
}

/// C13: DATETIME / TIMESTAMP. param0: text length, param1: type 7 or 12
#[no_mangle]
#[inline(never)]
pub fn h_text_datetime() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let t = sym::vec(n);
    let (mut ok, mut y, mut mo, mut d, mut h, mut m, mut s, mut us) = (false, 0, 0, 0, 0, 0, 0, 0);
    if n >= 19 {
        let a = ref_date(&t[..10]);
        // two hour digits are what a server prints
        sym::assume(t[13] == b':');
        sym::assume(sym::and(t[11] != b':', t[12] != b':'));
        let b = ref_time(&t[11..], 2);
        ok = sym::and(sym::and(a.0, b.0), sym::and(t[10] == b' ', b.1 < 24));
        (y, mo, d, h, m, s, us) = (a.1, a.2, a.3, b.1, b.2, b.3, b.4);
    }
    let want = Value::Datetime(y, mo, d, h as u8, m, s, us);
    match fetch(&mut c, false, &[col(b"a", sym::param(1) as u8, 0)], &[lestr(&t)], FULL) {
        Ok(r) => {
            chk(ok, "text that is no datetime is an error");
            chk(r.len() == 1 && same(&r[0][0], &want), "the datetime is the printed one");
            cover("text datetime");
        }
        Err(_) => {
            chk(!ok, "every printed datetime is accepted");
            cover("text datetime refused");
        }
    }
}

/// C13: strings, blobs, NULL, in up to param0 columns of string types; param1: bytes each
#[no_mangle]
#[inline(never)]
pub fn h_text_bytes() {
    let n = sym::param(0) as usize;
    let len = sym::param(1) as usize;
    let caps = if sym::choose(2) == 0 { FULL } else { BASE };
    let mut c = connect(caps);
    let (mut cols, mut row, mut want) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..n {
        let ty = TYPES[sym::choose(TYPES.len())];
        if sym::choose(2) == 0 {
            row.push(0xFB);
            want.push(Value::Null);
        } else {
            if !is_string(ty) {
                return;
            }
            let v = sym::vec(len);
            row.extend(lestr(&v));
            want.push(Value::Bytes(v));
        }
        cols.push(col(&[b'a' + i as u8], ty, sym::u16()));
    }
    match fetch(&mut c, false, &cols, &[row], caps) {
        Ok(r) => {
            chk(r.len() == 1 && r[0].len() == n, "one value per column");
            for (x, y) in r[0].iter().zip(&want) {
                chk(same(x, y), "NULL or the exact bytes");
            }
            cover("text row");
        }
        Err(_) => chk(false, "a valid row is accepted"),
    }
}

/// C13: a row cut inside is an error; a type without a text form is an error.
#[no_mangle]
#[inline(never)]
pub fn h_text_short() {
    let mut c = connect(FULL);
    let ty = TYPES[sym::choose(TYPES.len())];
    let a = sym::vec(2);
    let mut row = lestr(&a);
    if is_string(ty) {
        row.extend(lestr(&sym::vec(3)));
        // at least one byte, so that it is still a row
        let cut = 1 + sym::choose(row.len() - 1);
        row.truncate(cut);
        // cut between the values: the second value is missing
        chk(fetch(&mut c, false, &[col(b"a", ty, 0), col(b"b", ty, 0)], &[row], FULL).is_err(), "a row that is too short is an error");
        cover("text row cut");
    } else if !supported(ty) || ty == 6 {
        chk(fetch(&mut c, false, &[col(b"a", ty, 0)], &[row], FULL).is_err(), "a type without a text form is an error");
        cover("text type refused");
    }
}

/// C13: floats as MySQL prints them (chosen from a table: floating point is not symbolic).
#[no_mangle]
#[inline(never)]
pub fn h_text_float() {
    const T: [(&str, f32, f64); 10] = [
        ("0", 0.0, 0.0),
        ("-0", -0.0, -0.0),
        ("1.5", 1.5, 1.5),
        ("-2.25", -2.25, -2.25),
        ("1e10", 1e10, 1e10),
        ("1.17549e-38", 1.17549e-38, 1.17549e-38),
        ("3.40282e38", 3.40282e38, 3.40282e38),
        ("0.1", 0.1, 0.1),
        ("123456.789", 123456.789, 123456.789),
        ("-1e-7", -1e-7, -1e-7),
    ];
    let mut c = connect(FULL);
    let (t, f, d) = T[sym::choose(T.len())];
    let r = fetch(&mut c, false, &[col(b"a", 4, 0), col(b"b", 5, 0)], &[[lestr(t.as_bytes()), lestr(t.as_bytes())].concat()], FULL);
    match r {
        Ok(r) => chk(r.len() == 1 && same(&r[0][0], &Value::Float(f)) && same(&r[0][1], &Value::Double(d)), "floats are the printed ones"),
        Err(_) => chk(false, "a printed float is accepted"),
    }
    let bad = ["", "x", "1.5x", "--1", "1e"][sym::choose(5)];
    let ty = 4 + sym::choose(2) as u8;
    chk(fetch(&mut c, false, &[col(b"a", ty, 0)], &[lestr(bad.as_bytes())], FULL).is_err(), "text that is no number is an error");
    cover("text floats");
}

// ---------------------------------------------------------------- length-encoded integers, OK packets

/// A length-encoded integer of form `f` (0: one byte, 1: 0xFC, 2: 0xFD, 3: 0xFE) with symbolic content.
fn sym_lenenc(f: usize) -> (Vec<u8>, u64) {
    match f {
        0 => {
            let b = sym::u8();
            sym::assume(b < 0xFB);
            (vec![b], b as u64)
        }
        1 => {
            let b: [u8; 2] = sym::bytes();
            (vec![0xFC, b[0], b[1]], u16::from_le_bytes(b) as u64)
        }
        2 => {
            let b: [u8; 3] = sym::bytes();
            (vec![0xFD, b[0], b[1], b[2]], u32::from_le_bytes([b[0], b[1], b[2], 0]) as u64)
        }
        _ => {
            let b: [u8; 8] = sym::bytes();
            ([&[0xFE], &b[..]].concat(), u64::from_le_bytes(b))
        }
    }
}

const STATUS_ALL: u16 = !0x0004;

/// C20, C14: the OK packet of a query, an executed query, a prepared execute. param0: command,
/// param1: message characters (0: no message field, 1: empty message, n+1: n ASCII characters, or with
/// param2 any characters), param3: ASCII characters behind them
#[no_mangle]
#[inline(never)]
pub fn h_ok() {
    let caps = if sym::choose(2) == 0 { FULL } else { BASE };
    let mut c = connect(caps);
    let (ea, a) = sym_lenenc(sym::choose(4));
    let (ei, i) = sym_lenenc(sym::choose(4));
    let (st, w) = (sym::u16(), sym::u16());
    let mut p = vec![0u8];
    p.extend(ea);
    p.extend(ei);
    p.extend_from_slice(&st.to_le_bytes());
    p.extend_from_slice(&w.to_le_bytes());
    let m = sym::param(1) as usize;
    let mut msg = Vec::new();
    if m > 0 {
        msg = (string(m - 1, 1 - sym::param(2)) + &fill(sym::param(3))).into_bytes();
        p.extend(lestr(&msg));
    }
    macro_rules! check {
        ($r:expr) => {
            match $r {
                Ok(o) => {
                    chk(o.affected_rows() == a, "affected rows are the server's");
                    chk(o.last_insert_id() == i, "insert id is the server's");
                    chk(o.status().bits() == st & STATUS_ALL, "status flags are the server's");
                    chk(o.warnings() == w, "warning count is the server's");
                    match o.message() {
                        Some(x) => chk(sym::and(msg.len() > 0, sym::eq(x.as_bytes(), &msg)), "message is the server's"),
                        None => chk(msg.is_empty(), "message is the server's"),
                    }
                    cover("ok packet");
                }
                Err(_) => chk(false, "an OK packet is a result"),
            }
        };
    }
    match sym::param(0) {
        0 => {
            net().send(1, &p);
            check!(block(c.execute_query("x")))
        }
        1 => {
            net().send(1, &p);
            match block(c.query::<Vec<Value>>("x")) {
                Ok(mut r) => {
                    chk(matches!(block(r.next()), Ok(None)), "a command without rows has no rows");
                    check!(block(r.finish()))
                }
                Err(_) => chk(false, "an OK packet is a result"),
            }
        }
        _ => {
            net().send(1, &prepare_ok(3, 0, 0));
            match block(c.prepare_statement("x")) {
                Ok(mut s) => {
                    net().send(1, &p);
                    check!(block(s.execute::<Value>(&[])))
                }
                Err(_) => chk(false, "prepare succeeds"),
            }
        }
    }
}

/// C20: the packet that closes a result set. param0: 1 without DEPRECATE_EOF, param1: message bytes + 1,
/// param2: binary protocol
#[no_mangle]
#[inline(never)]
pub fn h_end() {
    let caps = if sym::param(0) == 1 { BASE } else { FULL };
    let mut c = connect(caps);
    let (st, w) = (sym::u16(), sym::u16());
    let mut p = vec![0xFEu8];
    let mut msg = Vec::new();
    if caps == FULL {
        // affected rows and last insert id: zero, or (third parameter) of any width
        for _ in 0..2 {
            match if sym::param(3) == 1 { sym::choose(4) } else { 0 } {
                0 => p.push(0),
                1 => {
                    p.push(0xFC);
                    p.extend(sym::vec(2));
                }
                2 => {
                    p.push(0xFD);
                    p.extend(sym::vec(3));
                }
                _ => {
                    p.push(0xFE);
                    p.extend(sym::vec(8));
                }
            }
        }
        p.extend_from_slice(&st.to_le_bytes());
        p.extend_from_slice(&w.to_le_bytes());
        let m = sym::param(1) as usize;
        if m > 0 {
            msg = (string(m - 1, 1 - sym::param(4)) + &fill(sym::param(5))).into_bytes();
            p.extend(lestr(&msg));
        }
    } else {
        p.extend_from_slice(&w.to_le_bytes());
        p.extend_from_slice(&st.to_le_bytes());
    }
    let binary = sym::param(2) == 1;
    let row = if binary { vec![0, 0, 5] } else { lestr(b"5") };
    let read = sym::choose(3);
    let mut q = vec![lenenc(1), col(b"a", 1, 0)];
    if caps == BASE {
        // the EOF after the definitions has a status of its own
        q.push(end(0, sym::u16(), sym::u16()));
    }
    q.push(row.clone());
    q.push(row);
    q.push(p);
    macro_rules! run {
        ($r:expr) => {
            match $r {
                Ok(mut r) => {
                    for _ in 0..read {
                        match block(r.next()) {
                            Ok(Some(v)) => chk(same(&v[0], &Value::Tiny(5)), "the row is the server's"),
                            _ => chk(false, "the row is delivered"),
                        }
                    }
                    match block(r.finish()) {
                        Ok(o) => {
                            chk(o.status().bits() == st & STATUS_ALL, "status flags are those of the closing packet");
                            chk(o.warnings() == w, "warnings are those of the closing packet");
                            if sym::param(3) == 0 {
                                chk(o.affected_rows() == 0 && o.last_insert_id() == 0, "no rows were affected");
                            }
                            match o.message() {
                                Some(x) => chk(sym::and(msg.len() > 0, sym::eq(x.as_bytes(), &msg)), "message is the closing packet's"),
                                None => chk(msg.is_empty(), "message is the closing packet's"),
                            }
                            cover("closing packet");
                        }
                        Err(_) => chk(false, "finish gives the closing packet"),
                    }
                }
                Err(_) => chk(false, "the result set is accepted"),
            }
        };
    }
    if binary {
        net().send(1, &prepare_ok(3, 0, 0));
        match block(c.prepare_statement("x")) {
            Ok(mut s) => {
                net().send_all(1, &q);
                run!(block(s.query::<Value, Vec<Value>>(&[])))
            }
            Err(_) => chk(false, "prepare succeeds"),
        }
    } else {
        net().send_all(1, &q);
        run!(block(c.query::<Vec<Value>>("x")))
    }
}

/// C20: server errors. param0: message characters (printable ASCII, with param2 letters above it), param3:
/// characters behind them, param1: place: 0 execute_query, 1 query,
/// 2 prepare, 3 prepared execute, 4 prepared query, 5 in place of a row
#[no_mangle]
#[inline(never)]
pub fn h_err() {
    let mut c = connect(FULL);
    let code = sym::u16();
    let state: [u8; 5] = sym::bytes();
    for x in &state {
        sym::assume(sym::or(sym::and(*x >= b'0', *x <= b'9'), sym::and(*x >= b'A', *x <= b'Z')));
    }
    let mut msg = Vec::new();
    for x in sym::vec(sym::param(0) as usize) {
        if sym::param(2) == 1 {
            // À to ÿ
            sym::assume(sym::and(x >= 0x80, x < 0xC0));
            msg.push(0xC3);
        } else {
            sym::assume(sym::and(x >= b' ', sym::and(x < 0x7F, sym::and(x != b'"', x != b'\\'))));
        }
        msg.push(x);
    }
    msg.extend(fill(sym::param(3)).bytes());
    let p = err(code, &state, &msg);
    let place = sym::param(1);
    let e = match place {
        0 => {
            net().send(1, &p);
            block(c.execute_query("x")).err()
        }
        1 => {
            net().send(1, &p);
            block(c.query::<Vec<Value>>("x")).err()
        }
        2 => {
            net().send(1, &p);
            block(c.prepare_statement("x")).err()
        }
        3 | 4 => {
            net().send(1, &prepare_ok(3, 0, 0));
            match block(c.prepare_statement("x")) {
                Ok(mut s) => {
                    net().send(1, &p);
                    if place == 3 {
                        block(s.execute::<Value>(&[])).err()
                    } else {
                        block(s.query::<Value, Vec<Value>>(&[])).err()
                    }
                }
                Err(_) => {
                    chk(false, "prepare succeeds");
                    None
                }
            }
        }
        _ => {
            net().send_all(1, &[lenenc(1), col(b"a", 1, 0), lestr(b"5"), p]);
            match block(c.query::<Vec<Value>>("x")) {
                Ok(mut r) => {
                    chk(matches!(block(r.next()), Ok(Some(_))), "the row before the error is delivered");
                    let e = block(r.next()).err();
                    chk(matches!(block(r.next()), Ok(None)), "the error ends the result set");
                    e
                }
                Err(_) => {
                    chk(false, "the result set is accepted");
                    None
                }
            }
        }
    };
    match e {
        Some(e) => {
            chk(is_server_error(&e, code, Some(&state), &msg), "code, state and message are the server's");
            cover("server error");
        }
        None => chk(false, "an ERR packet is an error"),
    }
    // the connection is usable and in step
    rewind();
    net().send(1, &ok(4, 0, 2, 0));
    match block(c.execute_query("y")) {
        Ok(o) => chk(o.affected_rows() == 4, "the next command gets its own answer"),
        Err(_) => chk(false, "the connection stays usable after a server error"),
    }
}

/// C14: truncated OK packets are errors, whatever the form of their integers.
#[no_mangle]
#[inline(never)]
pub fn h_ok_cut() {
    let mut c = connect(FULL);
    let mut p = vec![0u8];
    p.extend(sym_lenenc(sym::choose(4)).0);
    p.extend(sym_lenenc(sym::choose(4)).0);
    p.extend_from_slice(&sym::bytes::<4>());
    let cut = 1 + sym::choose(p.len() - 1);
    p.truncate(cut);
    net().send(1, &p);
    // bytes of the next packet must not complete it
    net().send(1, &sym::vec(12));
    chk(block(c.execute_query("x")).is_err(), "an integer that runs past the end of its packet is an error");
    cover("ok packet cut");
}

/// C14: a string with any announced length, in a text row (param0 = 0), as message (1) or as a name in a
/// column definition (2); param1: length form, param2: bytes that are really there
#[no_mangle]
#[inline(never)]
pub fn h_lestr() {
    let mut c = connect(FULL);
    let (e, n) = sym_lenenc(sym::param(1) as usize);
    let have = sym::param(2) as usize;
    let body: Vec<u8> = (0..have).map(|i| b'a' + i as u8 % 26).collect();
    let fits = n <= have as u64;
    match sym::param(0) {
        0 => {
            // the packet after it is another row
            let row = [lestr(b"p"), e, body.clone()].concat();
            net().send_all(1, &[lenenc(2), col(b"p", 253, 0), col(b"a", 253, 0), row, [lestr(b"p"), lestr(&[b'z'; 30])].concat(), end(FULL, 2, 0)]);
            match block(c.query::<Vec<Value>>("x")) {
                Ok(mut r) => match block(r.next()) {
                    Ok(Some(v)) => {
                        chk(fits, "a string that runs past the end of its packet is an error");
                        match &v[1] {
                            Value::Bytes(b) => {
                                chk(b.len() as u64 == n, "exactly the announced number of bytes");
                                chk(b.len() <= body.len() && sym::eq(b, &body[..b.len()]), "the string is its bytes");
                                cover("string read");
                            }
                            _ => chk(false, "a string column is bytes"),
                        }
                    }
                    Ok(None) => chk(false, "a row is not the end"),
                    Err(_) => {
                        chk(!fits, "a string of the announced length is accepted");
                        cover("string refused");
                    }
                },
                Err(_) => chk(false, "the result set is accepted"),
            }
        }
        1 => {
            let p = [ok(1, 2, 2, 0), e, body.clone()].concat();
            net().send(1, &p);
            match block(c.execute_query("x")) {
                Ok(o) => match o.message() {
                    Some(m) => {
                        chk(fits, "a message that runs past the end of its packet is not delivered");
                        chk(m.len() as u64 == n && m.len() <= body.len() && sym::eq(m.as_bytes(), &body[..m.len()]), "the message is its bytes");
                        cover("string read");
                    }
                    None => {
                        chk(sym::or(!fits, n == 0), "the message is delivered");
                        cover("string refused");
                    }
                },
                Err(_) => chk(!fits, "the result is accepted"),
            }
        }
        _ => {
            // table name with the symbolic length; the fields after it follow at once
            let mut p = [lestr(b"def"), lestr(b"d")].concat();
            p.extend(e);
            p.extend_from_slice(&body);
            let tail = coldef(b"", b"", b"ot", b"nm", b"on", 3, 0);
            p.extend_from_slice(&tail[6..]);
            net().send_all(1, &[lenenc(1), p, end(FULL, 2, 0)]);
            match block(c.query::<Vec<Value>>("x")) {
                Ok(r) => {
                    let k = &r.columns()[0];
                    if k.table().len() as u64 == n {
                        cover("string read");
                    } else {
                        chk(false, "exactly the announced number of bytes");
                    }
                    if n == have as u64 {
                        chk(k.table().as_bytes() == &body[..] && k.org_table() == "ot" && k.name() == "nm" && k.org_name() == "on", "the fields after it are read from their place");
                        cover("definition read");
                    }
                }
                Err(_) => {
                    chk(n != have as u64, "a well-formed definition is accepted");
                    cover("string refused");
                }
            }
        }
    }
}

/// C14: column counts in each form.
#[no_mangle]
#[inline(never)]
pub fn h_count() {
    let mut c = connect(FULL);
    let f = sym::choose(4);
    let n = 1 + sym::choose(3) as u8;
    let cnt = match f {
        0 => vec![n],
        1 => vec![0xFC, n, 0],
        2 => vec![0xFD, n, 0, 0],
        _ => vec![0xFE, n, 0, 0, 0, 0, 0, 0, 0],
    };
    let mut p = vec![cnt];
    for i in 0..n {
        p.push(col(&[b'a' + i], 1, 0));
    }
    let exec = sym::choose(2) == 1;
    p.push((0..n).flat_map(|i| lestr(&[b'0' + i])).collect());
    p.push(end(FULL, 2, 0));
    net().send_all(1, &p);
    if exec {
        // the result set is skipped as a whole
        let _ = block(c.execute_query("x"));
        net().send(1, &ok(9, 0, 2, 0));
        match block(c.execute_query("y")) {
            Ok(o) => chk(o.affected_rows() == 9, "all of the unexpected result set is skipped"),
            Err(_) => chk(false, "the connection stays usable"),
        }
        cover("count skipped");
        return;
    }
    match block(c.query::<Vec<Value>>("x")) {
        Ok(mut r) => {
            chk(r.columns().len() == n as usize, "the column count is the announced one");
            match block(r.collect()) {
                Ok(v) => {
                    chk(v.len() == 1 && v[0].len() == n as usize, "one row");
                    for i in 0..n {
                        chk(same(&v[0][i as usize], &Value::Tiny(i as i8)), "values in order");
                    }
                }
                Err(_) => chk(false, "rows are accepted"),
            }
            cover("count read");
        }
        Err(_) => chk(false, "the result set is accepted"),
    }
}

// ---------------------------------------------------------------- columns

/// C21: param0 columns, param1: length of the symbolic names; ASCII names
#[no_mangle]
#[inline(never)]
pub fn h_columns() {
    let n = sym::param(0) as usize;
    let len = sym::param(1) as usize;
    let caps = if sym::choose(2) == 0 { FULL } else { BASE };
    let mut c = connect(caps);
    let mut name = || {
        let v = sym::vec(len);
        for x in &v {
            sym::assume(*x < 0x80);
        }
        v
    };
    let mut want = Vec::new();
    for _ in 0..n {
        want.push((name(), name(), name(), name(), TYPES[if n > 1 { 1 + sym::choose(2) } else { sym::choose(TYPES.len()) }], sym::u16()));
    }
    let cols: Vec<_> = want.iter().map(|w| coldef(b"db", &w.0, &w.1, &w.2, &w.3, w.4, w.5)).collect();
    send_result(caps, &cols, &[], 2);
    match block(c.query::<Vec<Value>>("x")) {
        Ok(r) => {
            let k = r.columns();
            chk(k.len() == n, "all columns in order");
            for (k, w) in k.iter().zip(&want) {
                chk(sym::eq(k.table().as_bytes(), &w.0), "table alias");
                chk(sym::eq(k.org_table().as_bytes(), &w.1), "table");
                chk(sym::eq(k.name().as_bytes(), &w.2), "name");
                chk(sym::eq(k.org_name().as_bytes(), &w.3), "original name");
                chk(k.r#type() as u8 == w.4, "type");
                chk(k.flags().bits() == w.5, "flags");
            }
            cover("columns");
        }
        Err(_) => chk(false, "well-formed definitions are accepted"),
    }
}

/// C21: one long name (param0 bytes, some symbolic) in each place; param1: which name
#[no_mangle]
#[inline(never)]
pub fn h_long_name() {
    let n = sym::param(0) as usize;
    let mut c = connect(FULL);
    let mut long = vec![b'n'; n];
    for i in [0, n / 2, n - 1] {
        long[i] = sym::u8();
        sym::assume(long[i] < 0x80);
    }
    let s: &[u8] = b"short";
    let w = sym::param(1) as usize;
    let f = |i: usize| if i == w { &long[..] } else { s };
    let d = coldef(f(4), f(0), f(1), f(2), f(3), 3, 0);
    send_result(FULL, &[d], &[], 2);
    match block(c.query::<Vec<Value>>("x")) {
        Ok(r) => {
            let k = &r.columns()[0];
            chk(sym::eq(k.table().as_bytes(), f(0)), "table alias");
            chk(sym::eq(k.org_table().as_bytes(), f(1)), "table");
            chk(sym::eq(k.name().as_bytes(), f(2)), "name");
            chk(sym::eq(k.org_name().as_bytes(), f(3)), "original name");
            cover("long name");
        }
        Err(_) => chk(false, "long names are accepted"),
    }
}

/// C21: malformed definitions. param0: 0 catalog, 1 fixed length, 2 type, 3 cut, 4 not UTF-8
#[no_mangle]
#[inline(never)]
pub fn h_bad_column() {
    let mut c = connect(FULL);
    let mut d = col(b"nm", 3, 0);
    let fix = d.len() - 13;
    let mut good = false;
    match sym::param(0) {
        0 => {
            let b: [u8; 3] = sym::bytes();
            d[1..4].copy_from_slice(&b);
            good = sym::and(b[0] == b'd', sym::and(b[1] == b'e', b[2] == b'f'));
        }
        1 => {
            d[fix] = sym::u8();
            good = d[fix] == 12;
        }
        2 => {
            let t = sym::u8();
            d[fix + 7] = t;
            good = TYPES.contains(&t);
        }
        3 => {
            // the trailing filler may be missing
            let cut = sym::choose(d.len() - 2);
            d.truncate(cut);
        }
        _ => {
            let i = d.windows(2).rposition(|w| w == b"nm").unwrap();
            let b: [u8; 2] = sym::bytes();
            d[i..i + 2].copy_from_slice(&b);
            good = sym::or(
                sym::and(b[0] < 0x80, b[1] < 0x80),
                sym::and(sym::and(b[0] >= 0xC2, b[0] <= 0xDF), b[1] & 0xC0 == 0x80),
            );
        }
    }
    send_result(FULL, &[d, col(b"x", 3, 0)], &[], 2);
    let bad = match block(c.query::<Vec<Value>>("x")) {
        Ok(_) => false,
        Err(_) => true,
    };
    chk(bad == !good, "a malformed description is an error, a well-formed one is not");
    if bad {
        cover("column refused");
        // and the whole result set is skipped
        net().send(1, &ok(9, 0, 2, 0));
        match block(c.execute_query("y")) {
            Ok(o) => chk(o.affected_rows() == 9, "the next command gets its own answer"),
            Err(_) => chk(false, "the connection stays usable"),
        }
    } else {
        cover("column accepted");
    }
}
