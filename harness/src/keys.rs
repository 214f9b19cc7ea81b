//! Public keys.
use crate::login::der;
use crate::sym::{self, chk, cover};
use mysql_connector::PublicKey;

pub fn b64(b: &[u8]) -> Vec<u8> {
    // by arithmetic, so that symbolic bytes stay one term
    fn ch(x: u8) -> u8 {
        let x = x as u64;
        let r = sym::ite(x == 62, b'+' as u64, b'/' as u64);
        let r = sym::ite(x < 62, x.wrapping_sub(52).wrapping_add(b'0' as u64), r);
        let r = sym::ite(x < 52, x.wrapping_sub(26).wrapping_add(b'a' as u64), r);
        sym::ite(x < 26, x + b'A' as u64, r) as u8
    }
    let mut o = vec![];
    for c in b.chunks(3) {
        let (x, y, z) = (c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0));
        let q = [x >> 2, (x & 3) << 4 | y >> 4, (y & 15) << 2 | z >> 6, z & 63];
        for (i, v) in q.iter().enumerate() {
            o.push(if i <= c.len() { ch(*v) } else { b'=' });
        }
    }
    o
}

fn text(name: &[u8], body: &[u8], line: usize, brk: &[u8]) -> Vec<u8> {
    let mut v = [b"-----BEGIN ", name, b"-----", brk].concat();
    for c in body.chunks(line.max(1)) {
        v.extend_from_slice(c);
        v.extend_from_slice(brk);
    }
    v.extend_from_slice(&[b"-----END ", name, b"-----", brk].concat());
    v
}

fn pkcs8(pkcs1: &[u8]) -> Vec<u8> {
    let alg = der(0x30, &[6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0]);
    der(0x30, &[alg, der(3, &[&[0], pkcs1].concat())].concat())
}

const NAMES: [&[u8]; 2] = [b"RSA PUBLIC KEY", b"PUBLIC KEY"];
const BREAKS: [&[u8]; 5] = [b"\n", b"\r\n", b"", b" \t\n", b"\x0c\x0b\r"];

fn same(k: &PublicKey, m: &[u8], e: &[u8]) -> bool {
    fn eq(a: &num::BigUint, b: &[u8]) -> bool {
        let mut d = a.to_bytes_le();
        let n = d.len().max(b.len());
        d.resize(n, 0);
        let mut w: Vec<u8> = b.iter().rev().copied().collect();
        w.resize(n, 0);
        sym::eq(&d, &w)
    }
    sym::and(eq(k.modulus(), m), eq(k.exponent(), e))
}

/// Well-formed keys. Parameters: octets of modulus and exponent, 0 PKCS#1 or 1 PKCS#8, line
/// length, kind of line break, 1: the middle of the modulus is fixed.
#[no_mangle]
#[inline(never)]
pub fn h_key() {
    let p8 = sym::param(2) as usize;
    let mut m = vec![0x5Au8; sym::param(0) as usize];
    for i in 0..m.len() {
        if sym::param(5) == 0 || i < 2 || i + 2 > m.len() {
            m[i] = sym::u8();
        }
    }
    let e = sym::vec(sym::param(1) as usize);
    let mut k = uint_any(&m);
    k.extend(uint_any(&e));
    let mut d = der(0x30, &k);
    if p8 == 1 {
        d = pkcs8(&d);
    }
    let t = text(NAMES[p8], &b64(&d), sym::param(3) as usize, BREAKS[sym::param(4) as usize]);
    match PublicKey::try_from_pem(&t) {
        Ok(k) => {
            chk(same(&k, &m, &e), "the key has the modulus and exponent of the text");
            cover("key");
        }
        Err(_) => chk(false, "a well-formed key is accepted"),
    }
}

/// An unsigned integer with a leading zero octet, which is always a valid encoding here.
fn uint_any(b: &[u8]) -> Vec<u8> {
    der(2, &[&[0], b].concat())
}

/// Reads DER without accepting anything odd: (modulus, exponent) if it is a key, nothing if it is
/// broken; `odd` is set if it is neither.
fn reference(d: &[u8], p8: bool, odd: &mut bool) -> Option<(Vec<u8>, Vec<u8>)> {
    fn tlv(d: &mut Vec<u8>, tag: u8, odd: &mut bool) -> Option<Vec<u8>> {
        if d.is_empty() || d[0] != tag {
            return None;
        }
        if d.len() < 2 {
            return None;
        }
        let (mut l, mut at) = (d[1] as u64, 2);
        if l >= 0x80 {
            let n = (l - 0x80) as usize;
            if n == 0 {
                return None;
            }
            if n > 8 {
                *odd = true;
                return None;
            }
            if d.len() < 2 + n {
                return None;
            }
            l = 0;
            for i in 0..n {
                l = l << 8 | d[2 + i] as u64;
            }
            at += n;
            if l < 0x80 || d[2] == 0 {
                *odd = true;
            }
        }
        let have = (d.len() - at) as u64;
        if l > have {
            return None;
        }
        let l = sym::conc(l as usize);
        let body = d[at..at + l].to_vec();
        *d = d[at + l..].to_vec();
        Some(body)
    }
    let mut d = d.to_vec();
    if p8 {
        let mut s = tlv(&mut d, 0x30, odd)?;
        *odd |= !d.is_empty();
        let a = tlv(&mut s, 0x30, odd)?;
        *odd |= a.len() != 13;
        let b = tlv(&mut s, 3, odd)?;
        *odd |= !s.is_empty();
        if *b.first()? != 0 {
            return None;
        }
        d = b[1..].to_vec();
    }
    let mut s = tlv(&mut d, 0x30, odd)?;
    *odd |= !d.is_empty();
    let m = tlv(&mut s, 2, odd)?;
    let e = tlv(&mut s, 2, odd)?;
    *odd |= !s.is_empty();
    for x in [&m, &e] {
        match x.first() {
            None => *odd = true,
            Some(b) => *odd |= *b >= 0x80,
        }
    }
    Some((m, e))
}

/// DER with one arbitrary byte or cut anywhere. Parameters: 0 PKCS#1 or 1 PKCS#8, kind: 0 cut,
/// n any n bytes one after the other, 100+n: any length in the form of n octets at one element.
#[no_mangle]
#[inline(never)]
pub fn h_key_bad() {
    let p8 = sym::param(0) as usize;
    let mut k = uint_any(b"\xC1\x22\x33\x45");
    k.extend(uint_any(b"\x03"));
    let mut d = der(0x30, &k);
    if p8 == 1 {
        d = pkcs8(&d);
    }
    match sym::param(1) {
        // any length in the long form
        n if n >= 100 => {
            let w = (n - 100) as usize;
            let long = |tag: u8, body: &[u8]| {
                let mut d = vec![tag, 0x80 | w as u8];
                d.extend(sym::vec(w));
                d.extend_from_slice(body);
                d
            };
            let (m, e) = (b"\0\xC1\x22\x33\x45", b"\0\x03");
            d = match sym::choose(3) {
                0 => der(0x30, &[long(2, m), der(2, e)].concat()),
                1 => der(0x30, &[der(2, m), long(2, e)].concat()),
                _ => long(0x30, &[der(2, m), der(2, e)].concat()),
            };
            if p8 == 1 {
                d = pkcs8(&d);
            }
        }
        0 => {
            let n = sym::choose(d.len());
            d.truncate(n);
        }
        n => {
            let i = sym::choose(d.len() + 1 - n as usize);
            for j in 0..n as usize {
                d[i + j] = sym::u8();
            }
        }
    }
    let mut odd = false;
    let want = reference(&d, p8 == 1, &mut odd);
    let t = text(NAMES[p8], &b64(&d), 64, b"\n");
    let r = PublicKey::try_from_pem(&t);
    if odd {
        return;
    }
    match (want, r) {
        (Some((m, e)), Ok(k)) => {
            chk(same(&k, &m, &e), "the key has the modulus and exponent of the text");
            cover("still a key");
        }
        (None, Err(_)) => cover("rejected"),
        (Some(_), Err(_)) => chk(false, "a well-formed key is accepted"),
        (None, Ok(_)) => chk(false, "a broken key is rejected"),
    }
}

/// Texts that are not PEM. Parameters: kind, length.
#[no_mangle]
#[inline(never)]
pub fn h_key_text() {
    let n = sym::param(1) as usize;
    let mut k = uint_any(b"\xC1\x22\x33\x45");
    k.extend(uint_any(b"\x03"));
    let d = der(0x30, &k);
    let body = b64(&d);
    let r = match sym::param(0) {
        // any bytes
        0 => PublicKey::try_from_pem(&sym::vec(n)),
        // any bytes for the body (shorter than any key)
        1 => PublicKey::try_from_pem(&text(NAMES[sym::choose(2)], &sym::vec(n), 64, b"\n")),
        // a byte that is not base64 (nor white space) at any place
        2 => {
            let mut b = body.clone();
            let i = sym::choose(b.len());
            let x = sym::u8();
            let alnum = sym::or(sym::and(x >= b'0', x <= b'9'), sym::or(sym::and(x >= b'a', x <= b'z'), sym::and(x >= b'A', x <= b'Z')));
            sym::assume(!alnum && !b"+/= \n\t\r\x0b\x0c".contains(&x));
            b[i] = x;
            PublicKey::try_from_pem(&text(NAMES[0], &b, 64, b"\n"))
        }
        // one byte of a marker changed
        3 => {
            let mut t = text(NAMES[0], &body, 64, b"\n");
            let l = t.len();
            let at = [0, 4, 5, 11, 15, 25, 29, l - 2, l - 6, l - 7, l - 20, l - 26, l - 29, l - 25][sym::choose(14)];
            let x = sym::u8();
            sym::assume(x != t[at]);
            t[at] = x;
            PublicKey::try_from_pem(&t)
        }
        // the text cut anywhere (before its last line break)
        4 => {
            let t = text(NAMES[0], &body, 64, b"\n");
            let c = sym::choose(t.len() - 1);
            PublicKey::try_from_pem(&t[..c])
        }
        // markers of different kinds, or one only
        5 => {
            let b = [&b"-----BEGIN RSA PUBLIC KEY-----"[..], b"-----BEGIN PUBLIC KEY-----", b""][sym::choose(3)];
            let e = [&b"-----END RSA PUBLIC KEY-----"[..], b"-----END PUBLIC KEY-----", b"-----", b""][sym::choose(4)];
            sym::assume(!(b.len() > 26 && e.len() > 24));
            PublicKey::try_from_pem(&[b, &body, e].concat())
        }
        // the other name's markers
        _ => {
            if sym::choose(2) == 0 {
                PublicKey::try_from_pem(&text(NAMES[1], &body, 64, b"\n"))
            } else {
                PublicKey::try_from_pem(&text(NAMES[0], &b64(&pkcs8(&d)), 64, b"\n"))
            }
        }
    };
    chk(r.is_err(), "a text that is no key is rejected");
    cover("rejected");
}
