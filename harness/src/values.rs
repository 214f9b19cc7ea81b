//! Values, conversions, escapes, hex, versions.
use crate::sym;
use crate::sym::{chk, cover};
use mysql_connector::{
    types::{Hex, IdentifierEscape, StringEscape, UnquotedIdentifierEscape, Value},
    MigrationList, Version,
};
use std::str::FromStr;

/// Branch-free value of a hex digit: (is a digit, value).
fn nib(c: u8) -> (bool, u8) {
    let d = sym::and(c >= b'0', c <= b'9');
    let l = sym::and(c >= b'a', c <= b'f');
    let u = sym::and(c >= b'A', c <= b'F');
    let v = sym::ite(d, c.wrapping_sub(b'0') as u64, sym::ite(l, c.wrapping_sub(b'a' - 10) as u64, c.wrapping_sub(b'A' - 10) as u64));
    (sym::or(d, sym::or(l, u)), v as u8)
}

/// C19: bytes -> text -> bytes. param0: length, params 1 and 2: fixed bytes before and behind
#[no_mangle]
#[inline(never)]
pub fn h_hex_enc() {
    let more = |k| (0..sym::param(k)).map(|x| (x * 37) as u8).collect::<Vec<_>>();
    let b = [more(1), sym::vec(sym::param(0) as usize), more(2)].concat();
    let n = b.len();
    let s = Hex::new(b.clone()).to_string();
    chk(s.len() == 2 + 2 * n && &s.as_bytes()[..2] == b"0x", "hex text is 0x and two digits per byte");
    for i in 0..n {
        let (a, x) = nib(s.as_bytes()[2 + 2 * i]);
        let (c, y) = nib(s.as_bytes()[3 + 2 * i]);
        chk(sym::and(a, c), "hex text consists of hex digits");
        chk((x << 4 | y) == b[i], "hex digits denote the byte");
    }
    match Hex::from_str(&s) {
        Ok(h) => chk(sym::eq(&h, &b), "hex text parses back (from_str)"),
        Err(_) => chk(false, "hex text is accepted (from_str)"),
    }
    match Hex::try_from_hex(&s) {
        Ok(h) => chk(sym::eq(&h.into_bytes(), &b), "hex text parses back (try_from_hex)"),
        Err(_) => chk(false, "hex text is accepted (try_from_hex)"),
    }
    cover("hex roundtrip");
    sym::observe(s.as_bytes());
}

fn hex_ref(t: &[u8]) -> (bool, Vec<u8>) {
    let t = if t.len() >= 2 && t[0] == b'0' && (t[1] == b'x' || t[1] == b'X') { &t[2..] } else { t };
    if t.len() % 2 != 0 {
        return (false, Vec::new());
    }
    let mut ok = true;
    let mut out = Vec::new();
    for p in t.chunks(2) {
        let (a, x) = nib(p[0]);
        let (c, y) = nib(p[1]);
        ok = sym::and(ok, sym::and(a, c));
        out.push(x << 4 | y);
    }
    (ok, out)
}

/// C19: text -> bytes. param0: length, param1: 0 byte text, 1 str text (ASCII), 2 str with a
/// multi-byte character at a chosen place
#[no_mangle]
#[inline(never)]
pub fn h_hex_dec() {
    let n = sym::param(0) as usize;
    let mode = sym::param(1);
    let mut t = sym::vec(n);
    // hex digits behind the text's start
    let more = sym::param(2) as usize;
    for i in 0..more {
        t.insert(n.min(4), b"0123456789abcdefABCDEF"[i % 22]);
    }
    let n = n + more;
    if mode >= 1 {
        for x in &t {
            sym::assume(*x < 0x80);
        }
    }
    if mode == 2 {
        let at = sym::choose(n + 1);
        let mut s = t[..at].to_vec();
        s.extend_from_slice("\u{20ac}".as_bytes());
        s.extend_from_slice(&t[at..]);
        t = s;
    }
    let (ok, want) = hex_ref(&t);
    let got = if mode == 0 { Hex::try_from_hex(&t) } else { Hex::from_str(unsafe { std::str::from_utf8_unchecked(&t) }) };
    match got {
        Ok(h) => {
            chk(ok, "only hex texts are accepted");
            chk(sym::eq(&h, &want), "accepted text denotes its bytes");
            cover("hex accepted");
        }
        Err(_) => {
            chk(!ok, "every hex text is accepted");
            cover("hex rejected");
        }
    }
}

/// C19: serde form is the text form. param0: length
#[no_mangle]
#[inline(never)]
pub fn h_hex_serde() {
    use serde::de::IntoDeserializer;
    struct S<'a>(&'a Hex);
    impl std::fmt::Display for S<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            serde::Serialize::serialize(self.0, f)
        }
    }
    let n = sym::param(0) as usize;
    let b = sym::vec(n);
    let h = Hex::new(b.clone());
    let s = S(&h).to_string();
    chk(sym::eq(s.as_bytes(), h.to_string().as_bytes()), "serialized form is the hex text");
    let d: serde::de::value::BorrowedStrDeserializer<'_, serde::de::value::Error> = serde::de::value::BorrowedStrDeserializer::new(&s);
    let _ = ().into_deserializer() as serde::de::value::UnitDeserializer<serde::de::value::Error>;
    match <Hex as serde::Deserialize>::deserialize(d) {
        Ok(x) => chk(sym::eq(&x, &b), "deserializes to the same bytes"),
        Err(_) => chk(false, "serialized form deserializes"),
    }
    cover("hex serde");
}

/// One symbolic character of a chosen UTF-8 width (1..=4) appended to `s`.
fn push_char(s: &mut Vec<u8>, width: usize) {
    match width {
        1 => {
            let b = sym::u8();
            sym::assume(b < 0x80);
            s.push(b);
        }
        2 => {
            let b: [u8; 2] = sym::bytes();
            sym::assume(sym::and(b[0] >= 0xC2, b[0] <= 0xDF));
            sym::assume(b[1] & 0xC0 == 0x80);
            s.extend_from_slice(&b);
        }
        3 => {
            let b: [u8; 3] = sym::bytes();
            sym::assume(b[0] & 0xF0 == 0xE0);
            sym::assume(sym::and(b[1] & 0xC0 == 0x80, b[2] & 0xC0 == 0x80));
            let cp = (b[0] as u32 & 15) << 12 | (b[1] as u32 & 63) << 6 | b[2] as u32 & 63;
            sym::assume(sym::and(cp >= 0x800, sym::or(cp < 0xD800, cp > 0xDFFF)));
            s.extend_from_slice(&b);
        }
        _ => {
            let b: [u8; 4] = sym::bytes();
            sym::assume(b[0] & 0xF8 == 0xF0);
            sym::assume(sym::and(b[1] & 0xC0 == 0x80, sym::and(b[2] & 0xC0 == 0x80, b[3] & 0xC0 == 0x80)));
            let cp = (b[0] as u32 & 7) << 18 | (b[1] as u32 & 63) << 12 | (b[2] as u32 & 63) << 6 | b[3] as u32 & 63;
            sym::assume(sym::and(cp >= 0x10000, cp <= 0x10FFFF));
            s.extend_from_slice(&b);
        }
    }
}

/// A string of `n` characters; `widths` 1: ASCII only, otherwise any width per character.
pub fn string(n: usize, widths: u64) -> String {
    let mut s = Vec::with_capacity(32);
    for _ in 0..n {
        let w = if widths == 1 { 1 } else { 1 + sym::choose(4) };
        push_char(&mut s, w);
    }
    unsafe { String::from_utf8_unchecked(s) }
}

/// Characters behind and before others: params 2 and 3.
fn padded() -> String {
    let s = string(sym::param(0) as usize, sym::param(1));
    fill(sym::param(2)) + &s + &fill(sym::param(3))
}

pub fn fill(n: u64) -> String {
    (0..n).map(|i| (b'a' + (i % 25) as u8) as char).collect::<String>()
}

/// C16. param0: characters, param1: 1 ASCII only
#[no_mangle]
#[inline(never)]
pub fn h_string_escape() {
    let s = padded();
    let t = StringEscape(&s).to_string();
    let t = t.as_bytes();
    // MySQL's lexer for double-quoted strings (backslash escapes enabled)
    let mut out = Vec::new();
    let mut low_z = false;
    chk(t.len() >= 2 && t[0] == b'"', "literal starts with a quote");
    let mut i = 1;
    let mut closed = false;
    while i < t.len() {
        let c = t[i];
        i += 1;
        if c == b'"' {
            if i < t.len() && t[i] == b'"' {
                out.push(b'"');
                i += 1;
                continue;
            }
            closed = true;
            break;
        }
        if c == b'\\' {
            if i == t.len() {
                break;
            }
            let e = t[i];
            i += 1;
            match e {
                b'0' => out.push(0),
                b'b' => out.push(8),
                b'n' => out.push(10),
                b'r' => out.push(13),
                b't' => out.push(9),
                b'Z' => out.push(26),
                b'z' => {
                    low_z = true;
                    out.push(26)
                }
                b'%' | b'_' => {
                    out.push(b'\\');
                    out.push(e)
                }
                x => out.push(x),
            }
            continue;
        }
        out.push(c);
    }
    chk(closed, "literal is closed");
    chk(i == t.len(), "the literal ends at its last character");
    chk(sym::eq(&out, s.as_bytes()), "unescaping gives the string");
    chk(!low_z, "U+001A is escaped as MySQL reads it (backslash and capital Z)");
    cover("string escaped");
    sym::observe(t);
}

/// C17 quoted. param0: characters, param1: 1 ASCII only
#[no_mangle]
#[inline(never)]
pub fn h_ident_escape() {
    let s = padded();
    let t = IdentifierEscape(&s).to_string();
    let t = t.as_bytes();
    chk(t.len() >= 2 && t[0] == b'`' && t[t.len() - 1] == b'`', "identifier is quoted");
    let inner = &t[1..t.len() - 1];
    let mut out = Vec::new();
    let mut i = 0;
    while i < inner.len() {
        if inner[i] == b'`' {
            chk(i + 1 < inner.len() && inner[i + 1] == b'`', "backticks inside are doubled");
            i += 1;
        }
        out.push(inner[i]);
        i += 1;
    }
    let mut kept: Vec<char> = s.chars().filter(|c| *c != '\0' && (*c as u32) <= 0xFFFF).collect();
    while let Some(c) = kept.last() {
        if c.is_whitespace() {
            kept.pop();
        } else {
            break;
        }
    }
    let want: String = kept.into_iter().collect();
    chk(sym::eq(&out, want.as_bytes()), "content is the input without disallowed characters and trailing whitespace");
    cover("identifier escaped");
    sym::observe(t);
}

/// C17 unquoted. param0: characters, param1: 1 ASCII only
#[no_mangle]
#[inline(never)]
pub fn h_unquoted() {
    let s = padded();
    let t = UnquotedIdentifierEscape(&s).to_string();
    let want: String = s
        .chars()
        .filter(|c| {
            let c = *c as u32;
            (c >= 0x30 && c <= 0x39) || (c >= 0x41 && c <= 0x5A) || (c >= 0x61 && c <= 0x7A) || c == 0x24 || c == 0x5F || (c >= 0x80 && c <= 0xFFFF)
        })
        .collect();
    chk(sym::eq(t.as_bytes(), want.as_bytes()), "exactly the allowed characters are kept");
    cover("unquoted identifier");
    sym::observe(t.as_bytes());
}

/// C30. Three versions.
#[no_mangle]
#[inline(never)]
pub fn h_version() {
    use std::cmp::Ordering;
    let a = Version(sym::u16(), sym::u16(), sym::u16());
    let b = Version(sym::u16(), sym::u16(), sym::u16());
    let key = |v: &Version| (v.0 as u64) << 32 | (v.1 as u64) << 16 | v.2 as u64;
    let o = a.cmp(&b);
    let code = match o {
        Ordering::Less => 0u64,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    };
    let want = sym::ite(key(&a) < key(&b), 0, sym::ite(key(&a) == key(&b), 1, 2));
    chk(code == want, "versions compare by major, minor, patch");
    chk(a.partial_cmp(&b) == Some(o), "partial_cmp is cmp");
    chk((a == b) == (key(&a) == key(&b)), "equality is equality of all parts");
    chk((a < b) == (key(&a) < key(&b)), "less than");
    chk((a >= b) == (key(&a) >= key(&b)), "greater or equal");
    chk((a > b) == (key(&a) > key(&b)), "greater than");
    cover("versions compared");
}

/// C30. List of param0 entries.
#[no_mangle]
#[inline(never)]
pub fn h_ordered() {
    let n = sym::param(0) as usize;
    let mut l = Vec::new();
    for _ in 0..n {
        l.push(MigrationList { version: Version(sym::u16(), sym::u16(), sym::u16()), migrations: &[] });
    }
    let key = |v: &Version| (v.0 as u64) << 32 | (v.1 as u64) << 16 | v.2 as u64;
    let mut want = true;
    for i in 1..n {
        want = sym::and(want, key(&l[i - 1].version) < key(&l[i].version));
    }
    let got = MigrationList::ordered(&l);
    chk(got == want, "ordered exactly if versions strictly increase");
    if got {
        cover("ordered")
    } else {
        cover("unordered")
    }
}

/// A value of variant `k` (0..=14) with symbolic content; byte strings have `len` bytes.
pub fn value(k: usize, len: usize) -> Value {
    match k {
        0 => Value::Null,
        1 => Value::Tiny(sym::u8() as i8),
        2 => Value::Short(sym::u16() as i16),
        3 => Value::Int(sym::u32() as i32),
        4 => Value::Long(sym::u64() as i64),
        5 => Value::UTiny(sym::u8()),
        6 => Value::UShort(sym::u16()),
        7 => Value::UInt(sym::u32()),
        8 => Value::ULong(sym::u64()),
        9 => Value::Float(f32::from_bits(sym::u32())),
        10 => Value::Double(f64::from_bits(sym::u64())),
        11 => Value::Bytes(sym::vec(len)),
        12 => Value::Date(sym::u16(), sym::u8(), sym::u8()),
        13 => Value::Time(sym::bool(), sym::u32(), sym::u8(), sym::u8(), sym::u8(), sym::u32()),
        _ => Value::Datetime(sym::u16(), sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u32()),
    }
}

/// Structural equality as one term, bit patterns for floats.
pub fn same(a: &Value, b: &Value) -> bool {
    use Value::*;
    let and = sym::and;
    match (a, b) {
        (Null, Null) => true,
        (Tiny(x), Tiny(y)) => x == y,
        (Short(x), Short(y)) => x == y,
        (Int(x), Int(y)) => x == y,
        (Long(x), Long(y)) => x == y,
        (UTiny(x), UTiny(y)) => x == y,
        (UShort(x), UShort(y)) => x == y,
        (UInt(x), UInt(y)) => x == y,
        (ULong(x), ULong(y)) => x == y,
        (Float(x), Float(y)) => x.to_bits() == y.to_bits(),
        (Double(x), Double(y)) => x.to_bits() == y.to_bits(),
        (Bytes(x), Bytes(y)) => sym::eq(x, y),
        (Date(a, b, c), Date(x, y, z)) => and(a == x, and(b == y, c == z)),
        (Time(a, b, c, d, e, f), Time(u, v, w, x, y, z)) => and(a == u, and(b == v, and(c == w, and(d == x, and(e == y, f == z))))),
        (Datetime(a, b, c, d, e, f, g), Datetime(t, u, v, w, x, y, z)) => and(a == t, and(b == u, and(c == v, and(d == w, and(e == x, and(f == y, g == z)))))),
        _ => false,
    }
}
