//! The compression functions of SHA-1 and SHA-256 on concrete values. On symbolic values the
//! engine treats them as uninterpreted; these functions give models their real values.

pub fn sha1(state: &[u8], block: &[u8]) -> Vec<u8> {
    let mut h: Vec<u32> = state.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
    let mut w: Vec<u32> = block.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
    for i in 16..80 {
        w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
    }
    let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
    for (i, x) in w.iter().enumerate() {
        let (f, k) = match i / 20 {
            0 => ((b & c) | (!b & d), 0x5A827999u32),
            1 => (b ^ c ^ d, 0x6ED9EBA1),
            2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
            _ => (b ^ c ^ d, 0xCA62C1D6),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = t;
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
        *x = x.wrapping_add(y);
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// The first bits of the fractional part of the cube root of a prime.
fn frac_cbrt(p: u64) -> u32 {
    // floor(cbrt(p) * 2^32) by bisection in integers
    let t = (p as u128) << 96;
    let (mut lo, mut hi) = (0u128, 1u128 << 36);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if m * m * m <= t {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u32
}

pub fn sha256(state: &[u8], block: &[u8]) -> Vec<u8> {
    let mut h: Vec<u32> = state.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
    let mut w: Vec<u32> = block.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
    }
    let mut primes = (2u64..).filter(|n| (2..*n).all(|d| n % d != 0));
    let mut v = h.clone();
    for x in w {
        let k = frac_cbrt(primes.next().unwrap());
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k).wrapping_add(x);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v.rotate_right(1);
        v[0] = t1.wrapping_add(t2);
        v[4] = v[4].wrapping_add(t1);
    }
    for (x, y) in h.iter_mut().zip(v) {
        *x = x.wrapping_add(y);
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn selftest() -> bool {
    let mut b = [0u8; 64];
    b[..3].copy_from_slice(b"abc");
    b[3] = 0x80;
    b[63] = 24;
    let i1: Vec<u8> = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0].iter().flat_map(|x| x.to_le_bytes()).collect();
    let i2: Vec<u8> = [0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]
        .iter()
        .flat_map(|x| x.to_le_bytes())
        .collect();
    let first = |v: Vec<u8>| u32::from_le_bytes(v[..4].try_into().unwrap());
    let last = |v: Vec<u8>| u32::from_le_bytes(v[v.len() - 4..].try_into().unwrap());
    first(sha1(&i1, &b)) == 0xa9993e36
        && last(sha1(&i1, &b)) == 0x9cd0d89d
        && first(sha256(&i2, &b)) == 0xba7816bf
        && last(sha256(&i2, &b)) == 0xf20015ad
}
