//! The text form of values, and conversions from and to Rust types.
use crate::mock::*;
use crate::rows::fetch;
use crate::sym::{self, chk, cover};
use crate::values::{same, value};
use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use mysql_connector::types::{Hex, Value};

/// Reads decimal digits: value of the text, checks that they are digits.
fn digits(t: &[u8]) -> u64 {
    let mut n = 0u64;
    for b in t {
        chk(sym::and(*b >= b'0', *b <= b'9'), "the literal consists of digits");
        n = n.wrapping_mul(10).wrapping_add(b.wrapping_sub(b'0') as u64);
    }
    n
}

/// C15: integers. param0: kind (1..=8 of `value`), param1: 1: also as text row, param2: digits
/// (0: any)
#[no_mangle]
#[inline(never)]
pub fn h_show_int() {
    let v = value(sym::param(0) as usize, 0);
    let (mag, neg, ty, flags) = match v {
        Value::Tiny(x) => (x.unsigned_abs() as u64, x < 0, 1, 0),
        Value::Short(x) => (x.unsigned_abs() as u64, x < 0, 2, 0),
        Value::Int(x) => (x.unsigned_abs() as u64, x < 0, 3, 0),
        Value::Long(x) => (x.unsigned_abs(), x < 0, 8, 0),
        Value::UTiny(x) => (x as u64, false, 1, 32),
        Value::UShort(x) => (x as u64, false, 2, 32),
        Value::UInt(x) => (x as u64, false, 3, 32),
        Value::ULong(x) => (x, false, 8, 32),
        _ => return,
    };
    let n = sym::param(2);
    if n > 0 {
        sym::assume(sym::or(n == 1, mag >= 10u64.pow(n as u32 - 1)));
        if n < 20 {
            sym::assume(mag < 10u64.pow(n as u32));
        }
    }
    let s = v.to_string();
    let t = s.as_bytes();
    let minus = t[0] == b'-';
    chk(minus == neg, "a negative number has its sign");
    let d = if minus { &t[1..] } else { t };
    chk(!d.is_empty() && d.len() <= 20, "the literal has digits");
    chk(sym::or(d.len() == 1, d[0] != b'0'), "no leading zeros");
    chk(digits(d) == mag, "the literal denotes the number");
    cover("integer shown");
    if sym::param(1) == 1 {
        back(&s, &v, ty, flags);
    }
}

/// The text as a column of this type is the value again.
fn back(text: &str, v: &Value, ty: u8, flags: u16) {
    let mut c = connect(FULL);
    match fetch(&mut c, false, &[col(b"a", ty, flags)], &[lestr(text.as_bytes())], FULL) {
        Ok(r) => chk(r.len() == 1 && r[0].len() == 1 && same(&r[0][0], v), "the text parses back to the value"),
        Err(_) => chk(false, "the text is accepted"),
    }
    cover("parsed back");
}

/// C15: NULL and byte strings. param0: length
#[no_mangle]
#[inline(never)]
pub fn h_show_bytes() {
    let n = sym::param(0) as usize;
    chk(Value::Null.to_string() == "NULL", "NULL is NULL");
    let b = sym::vec(n);
    let s = Value::Bytes(b.clone()).to_string();
    let t = s.as_bytes();
    if n == 0 {
        // 0x alone is an identifier
        chk(["X''", "x''", "''", "\"\""].contains(&&s[..]), "no bytes are an empty literal");
    } else {
        chk(t.len() == 2 + 2 * n && &t[..2] == b"0x", "the literal is 0x and two digits per byte");
        for i in 0..n {
            let nib = |c: u8| {
                let d = sym::and(c >= b'0', c <= b'9');
                let l = sym::and(c >= b'a', c <= b'f');
                let u = sym::and(c >= b'A', c <= b'F');
                chk(sym::or(d, sym::or(l, u)), "the literal has hex digits");
                sym::ite(d, c.wrapping_sub(b'0') as u64, sym::ite(l, c.wrapping_sub(b'a' - 10) as u64, c.wrapping_sub(b'A' - 10) as u64))
            };
            chk(nib(t[2 + 2 * i]) << 4 | nib(t[3 + 2 * i]) == b[i] as u64, "the digits denote the byte");
        }
    }
    cover("bytes shown");
}

/// Reads n digits and checks them against a number of at most that many.
fn field(t: &mut &[u8], n: usize, want: u64, what: &str) {
    chk(t.len() >= n, what);
    chk(digits(&t[..n]) == want, what);
    *t = &t[n..];
}

fn lit(t: &mut &[u8], c: u8) {
    chk(!t.is_empty() && t[0] == c, "the parts are separated");
    if !t.is_empty() {
        *t = &t[1..];
    }
}

fn fraction(t: &mut &[u8], us: u32) {
    if t.first() == Some(&b'.') {
        *t = &t[1..];
        // up to six digits (the rest of a shorter one is zeros)
        let n = t.iter().position(|c| *c == b'"').unwrap_or(t.len());
        chk((1..=6).contains(&n), "a fraction has up to six digits");
        if n > 6 {
            return;
        }
        let scale = 10u64.pow(6 - n as u32);
        chk(digits(&t[..n]) * scale == us as u64, "the microseconds are those of the value");
        *t = &t[n..];
    } else {
        chk(us == 0, "no fraction without microseconds");
    }
}

/// C15: dates and times. param0: 0 date, 1 datetime, 2 time, param1: 1: also as text row
#[no_mangle]
#[inline(never)]
pub fn h_show_date() {
    let k = sym::param(0);
    let (y, mo, d, h, mi, s, us) = (sym::u16(), sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u32());
    let (neg, days) = (sym::bool(), sym::u32());
    sym::assume(y <= 9999 && mo <= 12 && d <= 31 && h <= 23 && mi <= 59 && s <= 59 && us <= 999_999);
    let (v, ty) = match k {
        0 => (Value::Date(y, mo, d), 10),
        1 => (Value::Datetime(y, mo, d, h, mi, s, us), 12),
        _ => {
            // up to 838:59:59, the range of the type
            sym::assume(days <= 34);
            (Value::Time(neg, days, h, mi, s, us), 11)
        }
    };
    let text = v.to_string();
    let mut t = text.as_bytes();
    lit(&mut t, b'"');
    if k < 2 {
        field(&mut t, 4, y as u64, "the year is that of the value");
        lit(&mut t, b'-');
        field(&mut t, 2, mo as u64, "the month is that of the value");
        lit(&mut t, b'-');
        field(&mut t, 2, d as u64, "the day is that of the value");
        if k == 1 {
            if t.first() == Some(&b'T') {
                t = &t[1..];
            } else {
                lit(&mut t, b' ');
            }
            field(&mut t, 2, h as u64, "the hour is that of the value");
        }
    } else {
        if neg {
            lit(&mut t, b'-');
        }
        let n = t.iter().position(|c| *c == b':').unwrap_or(0);
        chk((2..=3).contains(&n), "hours have two or three digits");
        if n > 3 {
            return;
        }
        field(&mut t, n, days as u64 * 24 + h as u64, "the hours are those of the value");
    }
    if k > 0 {
        lit(&mut t, b':');
        field(&mut t, 2, mi as u64, "the minutes are those of the value");
        lit(&mut t, b':');
        field(&mut t, 2, s as u64, "the seconds are those of the value");
        fraction(&mut t, us);
    }
    lit(&mut t, b'"');
    chk(t.is_empty(), "nothing follows the literal");
    cover("date shown");
    if sym::param(1) == 1 {
        back(&text[1..text.len() - 1], &v, ty, 0);
    }
}

macro_rules! int_conv {
    ($v:expr, $(($k:ident, $t:ty)),*) => {$({
        let v: Value = $v.clone();
        let own = matches!(v, Value::$k(_));
        let r: Result<$t, _> = v.clone().try_into();
        match r {
            Ok(x) => {
                let (fits, n) = number(&v);
                chk(fits && n == x as i128, "a converted number is the same number");
            }
            Err(_) => chk(!own, "a number converts to its own type"),
        }
        let r: Result<Option<$t>, _> = v.clone().try_into();
        match r {
            Ok(None) => chk(matches!(v, Value::Null), "only NULL converts to none"),
            Ok(Some(x)) => {
                let (fits, n) = number(&v);
                chk(fits && n == x as i128, "an optional number is the same number");
            }
            Err(_) => chk(!own && !matches!(v, Value::Null), "a number or NULL converts to an option of its type"),
        }
    })*};
}

fn number(v: &Value) -> (bool, i128) {
    match v {
        Value::Tiny(x) => (true, *x as i128),
        Value::Short(x) => (true, *x as i128),
        Value::Int(x) => (true, *x as i128),
        Value::Long(x) => (true, *x as i128),
        Value::UTiny(x) => (true, *x as i128),
        Value::UShort(x) => (true, *x as i128),
        Value::UInt(x) => (true, *x as i128),
        Value::ULong(x) => (true, *x as i128),
        _ => (false, 0),
    }
}

/// C18: any value to any type of number, and the others refused. param0: kind of value
#[no_mangle]
#[inline(never)]
pub fn h_conv_num() {
    let v = value(sym::param(0) as usize, 1);
    int_conv!(v, (Tiny, i8), (Short, i16), (Int, i32), (Long, i64), (UTiny, u8), (UShort, u16), (UInt, u32), (ULong, u64));
    let r: Result<f32, _> = v.clone().try_into();
    match (&v, r) {
        (Value::Float(x), Ok(y)) => chk(x.to_bits() == y.to_bits(), "a float stays as it is"),
        (Value::Float(_), Err(_)) => chk(false, "a float converts"),
        (Value::Null | Value::Bytes(_) | Value::Date(..) | Value::Time(..) | Value::Datetime(..), r) => chk(r.is_err(), "values of the wrong kind are errors"),
        _ => {}
    }
    let r: Result<f64, _> = v.clone().try_into();
    match (&v, r) {
        (Value::Double(x), Ok(y)) => chk(x.to_bits() == y.to_bits(), "a double stays as it is"),
        (Value::Double(_), Err(_)) => chk(false, "a double converts"),
        (Value::Null | Value::Bytes(_) | Value::Date(..) | Value::Time(..) | Value::Datetime(..), r) => chk(r.is_err(), "values of the wrong kind are errors"),
        _ => {}
    }
    let r: Result<Option<f64>, _> = v.clone().try_into();
    match (&v, r) {
        (Value::Double(x), Ok(Some(y))) => chk(x.to_bits() == y.to_bits(), "a double stays as it is"),
        (Value::Double(_), _) => chk(false, "a double converts"),
        (Value::Null, r) => chk(matches!(r, Ok(None)), "NULL is none"),
        _ => {}
    }
    let r: Result<Option<f32>, _> = v.clone().try_into();
    match (&v, r) {
        (Value::Float(x), Ok(Some(y))) => chk(x.to_bits() == y.to_bits(), "a float stays as it is"),
        (Value::Float(_), _) => chk(false, "a float converts"),
        (Value::Null, r) => chk(matches!(r, Ok(None)), "NULL is none"),
        _ => {}
    }
    let (is_num, n) = number(&v);
    let r: Result<bool, _> = v.clone().try_into();
    match &r {
        Ok(b) => chk(is_num && sym::or(n < 0, *b == (n != 0)), "a number is true unless it is zero"),
        Err(_) => chk(sym::and(is_num, n >= 0) == false, "zero and positive numbers convert to a boolean"),
    }
    let o: Result<Option<bool>, _> = v.clone().try_into();
    match (r, o) {
        (Ok(a), Ok(Some(b))) => chk(a == b, "an optional boolean is the boolean"),
        (Err(_), Ok(None)) => chk(matches!(v, Value::Null), "only NULL is none"),
        (Err(_), Err(_)) => chk(!matches!(v, Value::Null), "NULL is none"),
        _ => chk(false, "an optional boolean is the boolean"),
    }
    cover("numbers converted");
}

/// C18: Rust values to values and back. param0: length of texts
#[no_mangle]
#[inline(never)]
pub fn h_conv_back() {
    macro_rules! round {
        ($($t:ty = $x:expr),*) => {$({
            let x: $t = $x;
            let v: Value = x.into();
            let y: Result<$t, _> = v.clone().try_into();
            chk(y.map_or(false, |y| y == x), "a number survives");
            let v: Value = match Value::try_from(Some(x)) { Ok(v) => v, Err(_) => return chk(false, "an optional number converts") };
            let y: Result<Option<$t>, _> = v.try_into();
            chk(y.map_or(false, |y| y == Some(x)), "an optional number survives");
            let v: Value = match Value::try_from(None::<$t>) { Ok(v) => v, Err(_) => return chk(false, "none converts") };
            chk(matches!(v, Value::Null), "none is NULL");
        })*};
    }
    round!(i8 = sym::u8() as i8, i16 = sym::u16() as i16, i32 = sym::u32() as i32, i64 = sym::u64() as i64, u8 = sym::u8(), u16 = sym::u16(), u32 = sym::u32(), u64 = sym::u64(), bool = sym::bool());
    let x = f32::from_bits(sym::u32());
    let y: Result<f32, _> = Value::from(x).try_into();
    chk(y.map_or(false, |y| y.to_bits() == x.to_bits()), "a float survives");
    let x = f64::from_bits(sym::u64());
    let y: Result<f64, _> = Value::from(x).try_into();
    chk(y.map_or(false, |y| y.to_bits() == x.to_bits()), "a double survives");
    let b = sym::vec(sym::param(0) as usize);
    let y: Result<Vec<u8>, _> = Value::from(b.clone()).try_into();
    chk(y.map_or(false, |y| sym::eq(&y, &b)), "bytes survive");
    let v = Value::from(Hex::new(b.clone()));
    chk(matches!(&v, Value::Bytes(x) if sym::eq(x, &b)), "hex bytes are bytes");
    let y: Result<Hex, _> = v.clone().try_into();
    chk(y.map_or(false, |y| sym::eq(&y.0, &b)), "hex bytes survive");
    let y: Result<Option<Hex>, _> = v.try_into();
    chk(matches!(y, Ok(Some(y)) if sym::eq(&y.0, &b)), "hex bytes survive");
    let y: Vec<u8> = Hex::new(b.clone()).into();
    chk(sym::eq(&y, &b), "hex bytes survive");
    cover("survived");
}

/// C18: texts. Any bytes. param0: length
#[no_mangle]
#[inline(never)]
pub fn h_conv_text() {
    let b = sym::vec(sym::param(0) as usize);
    // by RFC 3629
    let mut i = 0;
    let mut valid = true;
    while i < b.len() {
        let x = b[i];
        let (n, lo, hi) = match x {
            0..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => {
                valid = false;
                break;
            }
        };
        if i + n >= b.len() {
            valid = false;
            break;
        }
        for j in 1..=n {
            let ok = if j == 1 { b[i + 1] >= lo && b[i + 1] <= hi } else { b[i + j] >= 0x80 && b[i + j] <= 0xBF };
            if !ok {
                valid = false;
            }
        }
        if !valid {
            break;
        }
        i += 1 + n;
    }
    let v = Value::Bytes(b.clone());
    let r: Result<String, _> = v.clone().try_into();
    match r {
        Ok(s) => {
            chk(valid && sym::eq(s.as_bytes(), &b), "a text is the bytes");
            let w: Value = s.into();
            chk(same(&w, &v), "and its value is the bytes again");
            cover("text");
        }
        Err(_) => {
            chk(!valid, "valid UTF-8 is a text");
            cover("no text");
        }
    }
    let r: Result<Option<String>, _> = v.try_into();
    match r {
        Ok(Some(s)) => chk(valid && sym::eq(s.as_bytes(), &b), "an optional text is the bytes"),
        Ok(None) => chk(false, "bytes are not none"),
        Err(_) => chk(!valid, "valid UTF-8 is an optional text"),
    }
}

fn valid_date(y: u16, m: u8, d: u8) -> bool {
    let leap = sym::and(y % 4 == 0, sym::or(y % 100 != 0, y % 400 == 0));
    let feb = sym::ite(leap, 29, 28);
    let short = sym::or(sym::or(m == 4, m == 6), sym::or(m == 9, m == 11));
    let dim = sym::ite(m == 2, feb, sym::ite(short, 30, 31));
    sym::and(sym::and(m >= 1, m <= 12), sym::and(d >= 1, d as u64 <= dim))
}

/// C18: dates. Any Date value.
#[no_mangle]
#[inline(never)]
pub fn h_conv_date() {
    let (y, m, d) = (sym::u16(), sym::u8(), sym::u8());
    let r: Result<NaiveDate, _> = Value::Date(y, m, d).try_into();
    match r {
        Ok(x) => {
            chk(valid_date(y, m, d), "only dates convert");
            chk(x.year() == y as i32 && x.month() == m as u32 && x.day() == d as u32, "the date is the same");
            match Value::try_from(x) {
                Ok(v) => chk(same(&v, &Value::Date(y, m, d)), "and back"),
                Err(_) => chk(false, "a date of the range converts back"),
            }
            cover("date");
        }
        Err(_) => {
            chk(!valid_date(y, m, d), "every date converts");
            cover("no date");
        }
    }
}

/// C18: datetimes. param0: 0 any date at noon and any time of a fixed day, 1 any hour.. of param
#[no_mangle]
#[inline(never)]
pub fn h_conv_datetime() {
    let (mut y, mut m, mut d) = (2024u16, 2u8, 29u8);
    let (mut h, mut mi, mut s, mut us) = (23u8, 59u8, 58u8, 999_999u32);
    if sym::param(0) == 0 {
        (y, m, d) = (sym::u16(), sym::u8(), sym::u8());
    } else {
        (h, mi, s, us) = (sym::u8(), sym::u8(), sym::u8(), sym::u32());
    }
    let v = Value::Datetime(y, m, d, h, mi, s, us);
    let valid = sym::and(valid_date(y, m, d), sym::and(sym::and(h < 24, mi < 60), sym::and(s < 60, us < 1_000_000)));
    // (a fraction of a second 59 beyond its end is a leap second of chrono)
    let leap = sym::and(s == 59, sym::and(us >= 1_000_000, us < 2_000_000));
    let r: Result<NaiveDateTime, _> = v.clone().try_into();
    match r {
        Ok(x) => {
            if leap {
                return;
            }
            chk(valid, "only dates with times convert");
            chk(x.year() == y as i32 && x.month() == m as u32 && x.day() == d as u32, "the date is the same");
            chk(x.hour() == h as u32 && x.minute() == mi as u32 && x.second() == s as u32 && x.nanosecond() == us.wrapping_mul(1000), "the time is the same");
            match Value::try_from(x) {
                Ok(w) => chk(same(&v, &w), "and back"),
                Err(_) => chk(false, "a datetime of the range converts back"),
            }
            cover("datetime");
        }
        Err(_) => {
            chk(!valid, "every datetime converts");
            cover("no datetime");
        }
    }
    let r: Result<NaiveDate, _> = v.clone().try_into();
    match r {
        Ok(x) => chk(valid_date(y, m, d) && x.year() == y as i32 && x.month() == m as u32 && x.day() == d as u32, "the date of a datetime is its date"),
        Err(_) => chk(!valid, "a datetime has a date"),
    }
}

/// C18: any chrono date (and time) to a value. param0: 0 date, 1 datetime
#[no_mangle]
#[inline(never)]
pub fn h_conv_from_date() {
    let (y, m, d) = (sym::u32() as i32, sym::u8() as u32, sym::u8() as u32);
    sym::assume(y > -262_000 && y < 262_000);
    let date = match NaiveDate::from_ymd_opt(y, m, d) {
        Some(x) => x,
        None => return,
    };
    let fits = sym::and(y >= 0, y <= 65535);
    if sym::param(0) == 0 {
        match Value::try_from(date) {
            Ok(Value::Date(a, b, c)) => {
                chk(fits && a as i32 == y && b as u32 == m && c as u32 == d, "the value has the date");
                cover("from date");
            }
            Ok(_) => chk(false, "a date's value is a date"),
            Err(_) => {
                chk(!fits, "every date of the range has a value");
                cover("no value");
            }
        }
        return;
    }
    let ns = sym::u32();
    let (h, mi, s) = (sym::u8() as u32, sym::u8() as u32, sym::u8() as u32);
    sym::assume(h < 24 && mi < 60 && s < 60 && ns < 1_000_000_000);
    let time = match NaiveTime::from_hms_nano_opt(h, mi, s, ns) {
        Some(x) => x,
        None => return,
    };
    match Value::try_from(NaiveDateTime::new(date, time)) {
        Ok(Value::Datetime(a, b, c, e, f, g, us)) => {
            chk(fits && a as i32 == y && b as u32 == m && c as u32 == d, "the value has the date");
            chk(e as u32 == h && f as u32 == mi && g as u32 == s, "the value has the time");
            chk(us == ns / 1000, "to the microsecond");
            cover("from date");
        }
        Ok(_) => chk(false, "a datetime's value is a datetime"),
        Err(_) => {
            chk(!fits, "every datetime of the range has a value");
            cover("no value");
        }
    }
}

/// C18: time values to spans. param0: 1: valid parts only (then also back)
#[no_mangle]
#[inline(never)]
pub fn h_conv_time() {
    let (neg, d, h, m, s, us) = (sym::bool(), sym::u32(), sym::u8(), sym::u8(), sym::u8(), sym::u32());
    let ranged = sym::and(sym::and(h < 24, m < 60), sym::and(s < 60, us < 1_000_000));
    if sym::param(0) == 1 {
        sym::assume(ranged);
    }
    let v = Value::Time(neg, d, h, m, s, us);
    let r: Result<Duration, _> = v.clone().try_into();
    match r {
        Ok(x) => {
            let secs = ((d as i64 * 24 + h as i64) * 60 + m as i64) * 60 + s as i64;
            // (microseconds beyond a second would carry)
            chk(us < 1_000_000, "a fraction of a second is below a second");
            let (ws, wn) = if neg { (-secs, -(us as i64) * 1000) } else { (secs, us as i64 * 1000) };
            chk(x.num_seconds() == ws && x.subsec_nanos() as i64 == wn, "the span is the same");
            if sym::param(0) == 1 {
                let zero = secs == 0 && us == 0;
                let w = Value::from(x);
                chk(sym::or(same(&w, &v), sym::and(zero, same(&w, &Value::Time(false, 0, 0, 0, 0, 0)))), "and back");
            }
            cover("span");
        }
        Err(_) => {
            chk(!ranged, "every time converts");
            cover("no span");
        }
    }
}

/// C18: spans to time values and back. param0: bits of the seconds
#[no_mangle]
#[inline(never)]
pub fn h_conv_span() {
    let secs = sym::u64() as i64;
    let nanos = sym::u32();
    let lim = 1i64 << sym::param(0);
    sym::assume(secs > -lim && secs < lim && nanos < 1_000_000_000);
    let x = match Duration::new(secs, nanos) {
        Some(x) => x,
        None => return,
    };
    match Value::from(x) {
        Value::Time(neg, d, h, m, s, us) => {
            chk(h < 24 && m < 60 && s < 60 && us < 1_000_000, "the parts are in their ranges");
            let total = ((d as i64 * 24 + h as i64) * 60 + m as i64) * 60 + s as i64;
            // the span in sign and magnitude
            let minus = secs < 0;
            let carry = minus && nanos > 0;
            let ws = if !minus {
                secs
            } else if carry {
                -(secs + 1)
            } else {
                -secs
            };
            let wn = if carry { 1_000_000_000 - nanos } else { nanos };
            chk(total == ws, "the seconds are those of the span");
            chk(us == wn / 1000, "to the microsecond");
            chk(sym::or(neg == minus, sym::and(total == 0, us == 0)), "the sign is the span's");
            let r: Result<Duration, _> = Value::Time(neg, d, h, m, s, us).try_into();
            match r {
                Ok(y) => {
                    chk(y.num_seconds() == x.num_seconds(), "the seconds survive");
                    chk(y.subsec_nanos() / 1000 == x.subsec_nanos() / 1000, "the microseconds survive");
                }
                Err(_) => chk(false, "a span's value converts back"),
            }
            cover("span shown");
        }
        _ => chk(false, "a span's value is a time"),
    }
}

/// C18: values of the wrong kind for texts, bytes, dates, spans; NULL for options. param0: kind
#[no_mangle]
#[inline(never)]
pub fn h_conv_wrong() {
    let k = sym::param(0) as usize;
    let v = value(k, 2);
    macro_rules! wrong {
        ($($t:ty, $fits:expr);*) => {$({
            if !$fits {
                let r: Result<$t, _> = v.clone().try_into();
                chk(r.is_err(), "values of the wrong kind are errors");
                let r: Result<Option<$t>, _> = v.clone().try_into();
                chk(if k == 0 { matches!(r, Ok(None)) } else { r.is_err() }, "NULL is none, the wrong kind an error");
            }
        })*};
    }
    wrong!(String, k == 11; Vec<u8>, k == 11; Hex, k == 11; NaiveDate, k == 12 || k == 14; NaiveDateTime, k == 14 || k == 12; Duration, k == 13);
    cover("wrong kinds");
}

/// C18: optional dates, datetimes, spans and bytes.
#[no_mangle]
#[inline(never)]
pub fn h_conv_option() {
    let b = sym::vec(2);
    let r: Result<Option<Vec<u8>>, _> = Value::Bytes(b.clone()).try_into();
    chk(matches!(r, Ok(Some(x)) if sym::eq(&x, &b)), "optional bytes are the bytes");
    let (m, d, h) = (sym::u8(), sym::u8(), sym::u8());
    let v = Value::Date(2024, m, d);
    let (a, o): (Result<NaiveDate, _>, Result<Option<NaiveDate>, _>) = (v.clone().try_into(), v.try_into());
    chk(a.ok() == o.ok().flatten(), "an optional date is the date");
    let v = Value::Datetime(2024, m, d, h, 5, 6, 7);
    let (a, o): (Result<NaiveDateTime, _>, Result<Option<NaiveDateTime>, _>) = (v.clone().try_into(), v.try_into());
    chk(a.ok() == o.ok().flatten(), "an optional datetime is the datetime");
    let v = Value::Time(sym::bool(), m as u32, h, 1, 2, sym::u16() as u32);
    let (a, o): (Result<Duration, _>, Result<Option<Duration>, _>) = (v.clone().try_into(), v.try_into());
    chk(a.ok() == o.ok().flatten(), "an optional span is the span");
    // and from options
    let x = NaiveDate::from_ymd_opt(2024, 2, 29);
    chk(Value::try_from(x).map_or(false, |v| same(&v, &Value::Date(2024, 2, 29))), "an optional date converts");
    chk(Value::try_from(None::<NaiveDate>).map_or(false, |v| matches!(v, Value::Null)), "none is NULL");
    chk(Value::try_from(None::<NaiveDateTime>).map_or(false, |v| matches!(v, Value::Null)), "none is NULL");
    chk(Value::try_from(None::<Duration>).map_or(false, |v| matches!(v, Value::Null)), "none is NULL");
    chk(Value::try_from(None::<String>).map_or(false, |v| matches!(v, Value::Null)), "none is NULL");
    chk(Value::try_from(Some(b.clone())).map_or(false, |v| same(&v, &Value::Bytes(b))), "optional bytes convert");
    cover("options");
}

/// C18: spans whose days do not fit the value's 32 bits. param0: 1: negative
#[no_mangle]
#[inline(never)]
pub fn h_conv_big_span() {
    let days = sym::u64() as i64;
    sym::assume(days > u32::MAX as i64 && days < 1 << 36);
    let x = Duration::days(if sym::param(0) == 1 { -days } else { days });
    match Value::from(x) {
        Value::Time(_, d, h, m, s, us) => {
            chk(d as i64 == days || (d == u32::MAX && h > 0 || m > 0 || s > 0 || us > 0), "a span beyond the days of a value is not changed to a short one");
            cover("big span");
        }
        _ => chk(false, "a span's value is a time"),
    }
}
