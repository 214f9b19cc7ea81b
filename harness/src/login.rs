//! Logging in.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions, PublicKey};
use num::BigUint;
use sha1::{Digest, Sha1};
use sha2::Sha256;
use std::sync::Arc;

/// The plugins by number: 0 mysql_native_password, 1 caching_sha2_password, 2 mysql_clear_password.
pub const PLUGINS: [&[u8]; 3] = [NATIVE, SHA2, CLEAR];

pub fn plugin(k: usize) -> AuthPlugin {
    match k {
        0 => AuthPlugin::Native,
        1 => AuthPlugin::Sha2,
        _ => AuthPlugin::Clear,
    }
}

fn sha1(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha1::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(a, b)| a ^ b).collect()
}

/// The response the plugin defines.
pub fn response(k: usize, pw: &[u8], nonce: &[u8]) -> Vec<u8> {
    match k {
        2 => {
            let mut v = pw.to_vec();
            v.push(0);
            v
        }
        _ if pw.is_empty() => vec![],
        0 => {
            let h = sha1(&[pw]);
            xor(&h, &sha1(&[nonce, &sha1(&[&h])]))
        }
        _ => {
            let h = sha256(&[pw]);
            xor(&h, &sha256(&[&sha256(&[&h]), nonce]))
        }
    }
}

pub use crate::keys::b64;

pub fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    match body.len() {
        n if n < 128 => v.push(n as u8),
        n if n < 256 => v.extend_from_slice(&[0x81, n as u8]),
        n => v.extend_from_slice(&[0x82, (n >> 8) as u8, n as u8]),
    }
    v.extend_from_slice(body);
    v
}

pub fn uint(be: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    if be.first().map_or(true, |x| *x >= 0x80) {
        v.push(0);
    }
    v.extend_from_slice(be);
    der(2, &v)
}

pub fn pem(name: &[u8], body: &[u8], line: usize) -> Vec<u8> {
    let mut v = [b"-----BEGIN ", name, b"-----\n"].concat();
    for c in b64(body).chunks(line) {
        v.extend_from_slice(c);
        v.push(b'\n');
    }
    v.extend_from_slice(&[b"-----END ", name, b"-----\n"].concat());
    v
}

/// An even modulus and the exponent 1, so that RSA leaves blocks as they are.
pub fn modulus(octets: usize, top: u8) -> Vec<u8> {
    let mut m = vec![0xC6u8; octets];
    m[0] = top;
    m
}

pub fn key(octets: usize, top: u8) -> Arc<PublicKey> {
    Arc::new(PublicKey::new(BigUint::from_bytes_be(&modulus(octets, top)), BigUint::from(1u8)))
}

fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0u32;
    while o.len() < len {
        o.extend(sha1(&[seed, &i.to_be_bytes()]));
        i += 1;
    }
    o.truncate(len);
    o
}

/// Whether a block is an OAEP block (SHA-1, MGF1, empty label) with the given message.
pub fn carries(block: &[u8], message: &[u8]) -> bool {
    let len = message.len();
    let n = block.len();
    if n < 42 + len {
        return false;
    }
    let seed = xor(&block[1..21], &mgf1(&block[21..], 20));
    let msg = xor(&block[21..], &mgf1(&seed, n - 21));
    let (pad, data) = msg.split_at(n - 21 - len);
    let mut want = sha1(&[]);
    want.resize(pad.len() - 1, 0);
    want.push(1);
    sym::and(block[0] == 0, sym::and(sym::eq(pad, &want), sym::eq(data, message)))
}

pub fn masked(pw: &[u8], nonce: &[u8]) -> Vec<u8> {
    let mut v = pw.to_vec();
    v.push(0);
    for (i, b) in v.iter_mut().enumerate() {
        if !nonce.is_empty() {
            *b ^= nonce[i % nonce.len()];
        }
    }
    v
}

/// The client's handshake response.
pub struct Login {
    pub caps: u32,
    pub max: u32,
    pub collation: u8,
    pub filler: bool,
    pub user: Vec<u8>,
    pub auth: Vec<u8>,
    pub db: Option<Vec<u8>>,
    pub plugin: Option<Vec<u8>>,
    pub rest: usize,
}

pub fn parse_login(p: &[u8]) -> Option<Login> {
    fn cstr(p: &[u8], at: &mut usize) -> Option<Vec<u8>> {
        let s = *at;
        while *p.get(*at)? != 0 {
            *at += 1;
        }
        *at += 1;
        Some(p[s..*at - 1].to_vec())
    }
    if p.len() < 32 {
        return None;
    }
    let caps = sym::conc(u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as usize) as u32;
    let max = u32::from_le_bytes([p[4], p[5], p[6], p[7]]);
    let mut at = 32;
    let user = cstr(p, &mut at)?;
    let auth = if caps & (LENENC_AUTH | SECURE) != 0 {
        let n = sym::conc(*p.get(at)? as usize);
        if n > 250 && caps & LENENC_AUTH != 0 {
            return None;
        }
        at += 1;
        let a = p.get(at..at + n)?.to_vec();
        at += n;
        a
    } else {
        cstr(p, &mut at)?
    };
    let db = if caps & WITH_DB != 0 { Some(cstr(p, &mut at)?) } else { None };
    let plugin = if caps & PLUGIN_AUTH != 0 { Some(cstr(p, &mut at)?) } else { None };
    Some(Login { caps, max, collation: p[8], filler: p[9..32].iter().all(|x| *x == 0), user, auth, db, plugin, rest: p.len() - at })
}

/// What the server and the client said.
struct Talk {
    msgs: Vec<usize>,
    packets: Vec<(u8, Vec<u8>)>,
    seq: u8,
    /// the nonces of the switch requests
    nonce2: Vec<u8>,
    zero: bool,
}

static mut TALK: Talk = Talk { msgs: vec![], packets: vec![], seq: 0, nonce2: vec![], zero: true };

fn talk() -> &'static mut Talk {
    unsafe { &mut *std::ptr::addr_of_mut!(TALK) }
}

pub const KINDS: usize = 13;
const ERR: (u16, &[u8; 5], &[u8]) = (1045, b"28000", b"no");
const OCTETS: usize = 64;

fn gather(n: &mut Net) {
    let t = talk();
    while let Some((s, p)) = n.take() {
        chk(s == t.seq, "the login's sequence numbers continue");
        t.seq = t.seq.wrapping_add(1);
        t.packets.push((t.msgs.len() as u8, p));
    }
}

fn message(n: &mut Net) -> bool {
    gather(n);
    let t = talk();
    // (no exchange has this many messages)
    let k = if t.msgs.len() < 7 { sym::choose(KINDS) } else { 10 };
    t.msgs.push(k);
    let p = match k {
        0 => ok(0, 0, 2, 0),
        1 => err(ERR.0, ERR.1, ERR.2),
        2 | 3 | 4 => {
            let mut p = vec![0xFE];
            p.extend_from_slice(PLUGINS[k - 2]);
            p.push(0);
            p.extend_from_slice(&t.nonce2);
            if t.zero {
                p.push(0);
            }
            p
        }
        5 => vec![1, 3],
        6 => vec![1, 4],
        7 => [&[1u8][..], &pem(b"RSA PUBLIC KEY", &pkcs1(OCTETS), 64)].concat(),
        8 => vec![2, 0],
        9 => vec![],
        10 => return false,
        11 => b"\xFEauth_other\0abcdefghijklmnopqrst\0".to_vec(),
        _ => vec![0xFE],
    };
    n.send(t.seq, &p);
    t.seq = t.seq.wrapping_add(1);
    true
}

fn pkcs1(octets: usize) -> Vec<u8> {
    let mut m = uint(&modulus(octets, 0xC6));
    m.extend(uint(&[1]));
    der(0x30, &m)
}

struct Cfg {
    forced: Option<usize>,
    first: Option<usize>,
    allow: bool,
    secure: bool,
    key: bool,
    pw: Vec<u8>,
    nonce1: Vec<u8>,
}

#[derive(Clone, PartialEq, Debug)]
enum Exp {
    Response(usize, Vec<u8>),
    Raw(Vec<u8>),
    Rsa(Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Ok,
    Server,
    Fail,
}

/// What the client has to do: its packets, the outcome and how many messages it reads.
fn model(c: &Cfg, msgs: &[usize], nonce2: &[u8]) -> (Vec<Exp>, Out, usize) {
    let mut packets = vec![];
    let mut cur = c.forced.unwrap_or(c.first.unwrap_or(0));
    if cur == 2 && !c.allow {
        return (packets, Out::Fail, 0);
    }
    let mut nonce = c.nonce1.clone();
    packets.push(Exp::Response(cur, nonce.clone()));
    let mut switched = false;
    let mut at = 0;
    let last = |m: Option<&usize>| match m {
        Some(0) => Out::Ok,
        Some(1) => Out::Server,
        _ => Out::Fail,
    };
    loop {
        let m = msgs.get(at).copied().unwrap_or(10);
        at += 1;
        match m {
            0 => return (packets, Out::Ok, at),
            1 => return (packets, Out::Server, at),
            2 | 3 | 4 if !switched => {
                let to = m - 2;
                if c.forced.map_or(false, |f| f != to) || (to == 2 && !c.allow) {
                    return (packets, Out::Fail, at);
                }
                switched = true;
                cur = to;
                nonce = nonce2.to_vec();
                packets.push(Exp::Response(cur, nonce.clone()));
            }
            5 if cur == 1 => return (packets, last(msgs.get(at)), at + 1),
            6 if cur == 1 => {
                if c.secure {
                    packets.push(Exp::Raw([&c.pw[..], &[0]].concat()));
                } else {
                    if !c.key {
                        packets.push(Exp::Raw(vec![2]));
                        let m = msgs.get(at).copied().unwrap_or(10);
                        at += 1;
                        match m {
                            7 => {}
                            1 => return (packets, Out::Server, at),
                            _ => return (packets, Out::Fail, at),
                        }
                    }
                    if c.pw.len() + 1 > OCTETS - 42 {
                        return (packets, Out::Fail, at);
                    }
                    packets.push(Exp::Rsa(nonce.clone()));
                }
                return (packets, last(msgs.get(at)), at + 1);
            }
            _ => return (packets, Out::Fail, at),
        }
    }
}

fn opts<const S: bool>(c: &Cfg) -> ConnectionOptions<Mock<S>> {
    let mut o = options::<S>();
    o.password = String::from_utf8(c.pw.clone()).unwrap();
    o.auth_plugin = c.forced.map(plugin);
    o.allow_cleartext_password = c.allow;
    o.server_key = if c.key { Some(key(OCTETS, 0xC6)) } else { None };
    o
}

fn login(c: &Cfg) -> Result<Connection, mysql_connector::Error> {
    let n = net();
    let caps = if c.first.is_some() { FULL } else { FULL & !PLUGIN_AUTH };
    let mut nonce = [0u8; 20];
    nonce.copy_from_slice(&c.nonce1);
    n.send(0, &greeting(b"8.0.36", 7, caps, &nonce, PLUGINS[c.first.unwrap_or(0)]));
    n.hook = Some(Box::new(message));
    talk().seq = 1;
    let r = if c.secure {
        block(Connection::connect(Arc::new(opts::<true>(c))))
    } else {
        block(Connection::connect(Arc::new(opts::<false>(c))))
    };
    n.hook = None;
    gather(n);
    chk(n.out_pos == n.out.len(), "the client sends complete packets");
    r
}

fn reset(nonce2: Vec<u8>, zero: bool) {
    *talk() = Talk { msgs: vec![], packets: vec![], seq: 1, nonce2, zero };
}

/// The authentication data of the k-th packet.
fn data(k: usize) -> Vec<u8> {
    let p = &talk().packets[k].1;
    if k > 0 {
        return p.clone();
    }
    match parse_login(p) {
        Some(l) => l.auth,
        None => {
            chk(false, "the handshake response has the layout its capabilities announce");
            vec![]
        }
    }
}

fn password(n: usize) -> Vec<u8> {
    b"correct horse battery staple is too long for one block"[..n].to_vec()
}

/// Every exchange of up to five messages of the 13 kinds. Parameters: the property (4, 5, 8, 9),
/// the forced plugin + 1 or 0, secure stream, length of the password, 1: any password and nonces.
#[no_mangle]
#[inline(never)]
pub fn h_login() {
    let prop = sym::param(0);
    let pick = |k: usize, n: usize| if k > 0 { k - 1 } else { sym::choose(n) };
    let any = sym::param(4) == 1;
    let nonce = |x: &[u8]| {
        if !any {
            return x.to_vec();
        }
        let v = sym::vec(20);
        for b in &v {
            sym::assume(*b != 0);
        }
        v
    };
    let pw = if any {
        let v = sym::vec(sym::param(3) as usize);
        for b in &v {
            sym::assume(sym::and(*b != 0, *b < 0x80));
        }
        v
    } else {
        password(sym::param(3) as usize)
    };
    let c = Cfg {
        forced: (sym::param(1) as usize).checked_sub(1),
        secure: sym::param(2) == 1,
        pw,
        first: pick(0, 4).checked_sub(1),
        allow: pick(0, 2) == 1,
        key: pick(0, 2) == 1,
        nonce1: nonce(&NONCE),
    };
    let zero = sym::choose(2) == 1;
    reset(nonce(b"ABCDEFGHIJKLMNOPQRST"), zero);
    let r = login(&c);
    let t = talk();
    let (want, out, used) = model(&c, &t.msgs, &t.nonce2);
    match prop {
        4 => {
            // every packet carries nothing but what the properties allow
            let clear = [&c.pw[..], &[0]].concat();
            let permitted = c.secure || c.allow;
            for k in 0..t.packets.len() {
                let d = data(k);
                let nonces = [&c.nonce1[..], &t.nonce2[..]];
                let is_clear = sym::eq(&d, &clear);
                let mut fine = d.is_empty() || d == [2] || (permitted && (c.secure || c.forced.unwrap_or(2) == 2) && is_clear);
                for p in 0..2 {
                    if d.len() == [20, 32][p] && c.forced.map_or(true, |f| f == p) {
                        for n in nonces {
                            fine = sym::or(fine, sym::eq(&d, &response(p, &c.pw, n)));
                        }
                    }
                }
                if d.len() == OCTETS && k > 0 && c.forced.unwrap_or(1) == 1 {
                    for n in nonces {
                        fine = sym::or(fine, carries(&d, &masked(&c.pw, n)));
                    }
                }
                chk(fine, "only scrambles and encrypted passwords are sent");
            }
            // refused switches
            let mut sent = 0;
            for (i, m) in t.msgs.iter().enumerate() {
                if (2..5).contains(m) {
                    let to = m - 2;
                    if (to == 2 && !c.allow) || c.forced.map_or(false, |f| f != to) {
                        chk(r.is_err(), "a refused switch fails");
                        chk(t.packets.iter().all(|p| p.0 as usize <= i), "nothing is sent after a refused switch");
                        sent += 1;
                    }
                }
            }
            if sent > 0 {
                cover("switch refused");
            }
        }
        5 => {
            chk(t.msgs.len() == used, "the client reads the messages of the exchange");
            match r {
                Ok(mut x) => {
                    chk(out == Out::Ok, "connect succeeds only if the server accepted the login");
                    chk(t.msgs.last() == Some(&0), "the last message was an OK packet");
                    rewind();
                    net().hook = Some(Box::new(|n| {
                        chk(sym::eq(&n.out, b"\x02\0\0\0\x03x"), "the connection is usable");
                        n.send(1, &ok(3, 0, 2, 0));
                        true
                    }));
                    let q = block(x.execute_query("x"));
                    chk(q.map_or(false, |q| q.affected_rows() == 3), "the connection is usable");
                    cover("accepted");
                }
                Err(e) => {
                    chk(out != Out::Ok, "connect succeeds if the server accepted the login");
                    let server = is_server_error(&e, ERR.0, Some(ERR.1), ERR.2);
                    chk(server == (out == Out::Server), "the server's error is reported");
                    if server {
                        cover("refused");
                    }
                    if t.msgs.iter().filter(|m| (2..5).contains(*m)).count() > 1 {
                        cover("second switch refused");
                    }
                }
            }
        }
        8 => {
            for (k, w) in want.iter().enumerate() {
                if k >= t.packets.len() {
                    chk(false, "every challenge is answered");
                    break;
                }
                match w {
                    Exp::Response(p, n) => {
                        chk(sym::eq(&data(k), &response(*p, &c.pw, n)), "the response is the one the plugin defines");
                        if k > 0 {
                            cover("switched");
                        }
                    }
                    _ => {}
                }
            }
            chk(t.packets.len() <= want.len(), "no more than the responses");
            cover("responses");
        }
        _ => {
            // full authentication
            for k in 0..want.len().max(t.packets.len()) {
                let have = if k < t.packets.len() { Some(data(k)) } else { None };
                match want.get(k) {
                    Some(Exp::Raw(x)) if !c.secure => {
                        chk(have.map_or(false, |h| sym::eq(&h, x)), "the key is requested if the options have none");
                        cover("key requested");
                    }
                    Some(Exp::Rsa(n)) => {
                        match have {
                            Some(b) => {
                                chk(b.len() == OCTETS, "one block of the key's size");
                                chk(carries(&b, &masked(&c.pw, n)), "the block decrypts to the masked password");
                            }
                            None => chk(false, "the password is sent"),
                        }
                        cover("encrypted");
                    }
                    None => chk(false, "nothing else is sent"),
                    _ => {}
                }
            }
            if want.contains(&Exp::Raw(vec![2])) && t.msgs.contains(&7) && out == Out::Fail && used == t.msgs.len() && t.msgs[used - 1] == 7 {
                chk(r.is_err(), "a password that does not fit fails");
                cover("too long");
            }
        }
    }
}

/// The server refuses the connection instead of greeting. Parameter: 0 with state, 1 without.
#[no_mangle]
#[inline(never)]
pub fn h_refused() {
    let code = sym::u16();
    let mut p = vec![0xFF];
    p.extend_from_slice(&code.to_le_bytes());
    let m = sym::param(1) as usize;
    let msg: Vec<u8> = sym::vec(m).iter().map(|x| x & 0x3F | 0x40).collect();
    for x in &msg {
        sym::assume(*x != b'\\' && *x != 0x7F);
    }
    if sym::param(0) == 0 {
        p.extend_from_slice(b"#08004");
    }
    p.extend_from_slice(&msg);
    net().send(0, &p);
    let r = block(Connection::connect(Arc::new(options::<false>())));
    match r {
        Ok(_) => chk(false, "a refused connection fails"),
        Err(e) => {
            let st = if sym::param(0) == 0 { Some(b"08004") } else { None };
            chk(is_server_error(&e, code, st, &msg), "the server's error is reported");
            cover("refused");
        }
    }
    chk(net().out.is_empty(), "nothing is sent to a server that refused");
}

/// Full authentication with keys of different sizes. Parameters: octets of the modulus, its first
/// byte, length of the password, 0: key of the options, 1: sent by the server, 2: by the server
/// after a switch with a nonce of the length of the next parameter, 3: the same with the key of the
/// options.
#[no_mangle]
#[inline(never)]
pub fn h_full_auth() {
    let octets = sym::param(0) as usize;
    let top = sym::param(1) as u8;
    let pw = sym::vec(sym::param(2) as usize);
    for b in &pw {
        sym::assume(sym::and(*b != 0, *b < 0x80));
    }
    let how = sym::param(3);
    let mut o = options::<false>();
    o.password = unsafe { String::from_utf8_unchecked(pw.clone()) };
    o.auth_plugin = if how < 2 { Some(AuthPlugin::Sha2) } else { None };
    let own = how == 0 || how == 3;
    o.server_key = if own { Some(key(octets, top)) } else { None };
    let nonce = sym::vec(if how < 2 { 20 } else { sym::param(4) as usize });
    for b in &nonce {
        sym::assume(*b != 0);
    }
    let n = net();
    let mut seq = 2;
    let mut first = NONCE;
    if how < 2 {
        first.copy_from_slice(&nonce);
        n.send(0, &greeting(b"8.0.36", 7, FULL, &first, SHA2));
    } else {
        n.send(0, &greeting(b"8.0.36", 7, FULL, &first, NATIVE));
        n.send(2, &[b"\xFEcaching_sha2_password\0", &nonce[..], &[0]].concat());
        seq = 4;
    }
    n.send(seq, &[1, 4]);
    seq += 1;
    if !own {
        let mut m = uint(&modulus(octets, top));
        m.extend(uint(&[1]));
        n.send(seq + 1, &[&[1u8][..], &pem(b"RSA PUBLIC KEY", &der(0x30, &m), 64)].concat());
        seq += 2;
    }
    n.send(seq + 1, &ok(0, 0, 2, 0));
    let r = block(Connection::connect(Arc::new(o)));
    let mut all = vec![];
    while let Some((_, p)) = n.take() {
        all.push(p);
    }
    chk(n.out_pos == n.out.len(), "the client sends complete packets");
    let before = 1 + (how >= 2) as usize + !own as usize;
    if pw.len() + 1 + 42 > octets {
        chk(r.is_err(), "a password that does not fit fails");
        chk(all.len() == before, "nothing is sent if the password does not fit");
        cover("does not fit");
    } else {
        chk(r.is_ok(), "the login succeeds");
        chk(all.len() == before + 1, "one packet with the password");
        if all.len() == before + 1 {
            let b = &all[before];
            chk(b.len() == octets, "one block of the key's size");
            chk(carries(b, &masked(&pw, &nonce)), "the block decrypts to the masked password");
            cover("encrypted");
        }
    }
    if !own && all.len() >= before {
        chk(all[before - 1] == [2], "the key is requested if the options have none");
    }
}

fn le(x: &[u8]) -> u32 {
    u32::from_le_bytes([x[0], x[1], x[2], x[3]])
}

/// The handshake response and what the connection reports. Parameters: user length, database
/// length + 1 or 0, version form, forced plugin + 1 or 0.
#[no_mangle]
#[inline(never)]
pub fn h_response() {
    let text = |k: u64| {
        let v = sym::vec(sym::param(k) as usize);
        for b in &v {
            sym::assume(sym::and(*b != 0, *b < 0x80));
        }
        v
    };
    let user = text(0);
    let db = sym::param(1).checked_sub(1).map(|n| {
        let v = sym::vec(n as usize);
        for b in &v {
            sym::assume(sym::and(*b != 0, *b < 0x80));
        }
        v
    });
    // the flags this client knows and some it does not
    let optional = [LONG_PASSWORD, WITH_DB, 0x20, TRANSACTIONS, PS_MULTI, PLUGIN_AUTH, 0x10_0000, LENENC_AUTH, SESSION_TRACK, DEPRECATE_EOF, 0x800];
    let mut caps = PROTOCOL_41 | SECURE;
    for o in optional {
        caps |= sym::ite(sym::bool(), o as u64, 0) as u32;
    }
    let with_plugin = caps & PLUGIN_AUTH != 0;
    let max = sym::u32();
    let id = sym::bytes::<4>();
    let (version, want): (Vec<u8>, ((u16, u16, u16), bool)) = {
        let d = |k: usize| {
            let x = sym::vec(k);
            let mut n = 0u16;
            for (i, b) in x.iter().enumerate() {
                sym::assume(sym::and(*b >= b'0' + (i == 0 && k > 1) as u8, *b <= b'9'));
                n = n * 10 + (*b - b'0') as u16;
            }
            (x, n)
        };
        let (a, b, c) = match sym::param(2) {
            0 => (d(1), d(1), d(2)),
            1 => (d(2), d(2), d(1)),
            2 => (d(2), d(1), d(3)),
            4 => (d(1), d(1), d(1)),
            _ => (d(1), d(3), d(2)),
        };
        let v = [&a.0[..], b".", &b.0[..], b".", &c.0[..]].concat();
        match sym::param(2) {
            0 => (v, ((a.1, b.1, c.1), false)),
            1 => ([b"5.5.5-", &v[..], b"-MariaDB-log"].concat(), ((a.1, b.1, c.1), true)),
            2 => ([&v[..], b"-MariaDB"].concat(), ((a.1, b.1, c.1), true)),
            4 => ([b"5.5.5-", &v[..], b"-log"].concat(), ((5, 5, 5), false)),
            _ => ([&v[..], b"-log"].concat(), ((a.1, b.1, c.1), false)),
        }
    };
    let forced = (sym::param(3) as usize).checked_sub(1);
    let mut o = options::<false>();
    o.user = unsafe { String::from_utf8_unchecked(user.clone()) };
    o.db_name = db.clone().map(|d| unsafe { String::from_utf8_unchecked(d) });
    o.password = String::from("pw");
    o.auth_plugin = forced.map(plugin);
    o.allow_cleartext_password = true;
    let big = sym::bool();
    o.max_allowed_packet = Some(if big { (1 << 40) + max as usize } else { max as usize });
    let n = net();
    let mut g = greeting(&version, 0, FULL, &NONCE, SHA2);
    let at = version.len() + 2;
    g[at..at + 4].copy_from_slice(&id);
    if !with_plugin {
        g.truncate(g.len() - SHA2.len() - 1);
    }
    let c = caps.to_le_bytes();
    g[at + 13] = c[0];
    g[at + 14] = c[1];
    g[at + 18] = c[2];
    g[at + 19] = c[3];
    n.send(0, &g);
    n.send(2, &ok(0, 0, 2, 0));
    let r = block(Connection::connect(Arc::new(o)));
    let p = match n.take() {
        Some((1, p)) => p,
        _ => {
            chk(false, "the client answers the greeting");
            return;
        }
    };
    chk(n.out_pos == n.out.len(), "one packet answers the greeting");
    match parse_login(&p) {
        None => chk(false, "the response has the layout its capabilities announce"),
        Some(l) => {
            chk(l.rest == 0, "the response has the layout its capabilities announce");
            chk(sym::eq(&l.user, &user), "the user");
            chk((l.caps & WITH_DB != 0) == db.is_some(), "a database is announced exactly if it is sent");
            match (&l.db, &db) {
                (Some(a), Some(b)) => chk(sym::eq(a, b), "the database"),
                (None, None) => {}
                _ => chk(false, "the database"),
            }
            let plug = forced.unwrap_or(if with_plugin { 1 } else { 0 });
            match &l.plugin {
                Some(x) => chk(with_plugin && x == PLUGINS[plug], "the plugin's name"),
                None => chk(!with_plugin, "the plugin's name"),
            }
            chk(l.auth == response(plug, b"pw", &NONCE), "the challenge response");
            chk(l.caps & !caps & !(if db.is_some() { WITH_DB } else { 0 }) == 0, "no capability is announced that the server did not offer");
            chk(l.caps & (PROTOCOL_41 | SECURE) == PROTOCOL_41 | SECURE, "the protocol's version");
            chk(sym::ite(big, (l.max == u32::MAX) as u64, (l.max == max) as u64) == 1, "the packet limit");
            chk(l.filler, "the reserved bytes are zero");
            // (numbers of collations below 256)
            let v = want.0;
            let new = sym::or(v.0 > 5, sym::and(v.0 == 5, sym::or(v.1 > 5, sym::and(v.1 == 5, v.2 >= 3))));
            let mb4 = matches!(l.collation, 45 | 46 | 224..=247 | 255);
            let mb3 = matches!(l.collation, 33 | 76 | 83 | 192..=215 | 223);
            chk(sym::ite(new, mb4 as u64, mb3 as u64) == 1, "the character set is UTF-8, with four bytes if the server has it");
        }
    }
    match r {
        Err(_) => chk(false, "the login succeeds"),
        Ok(c) => {
            let d = c.data();
            chk(d.id() == le(&id), "the connection id");
            let v = d.version();
            chk(sym::and(v.0 == want.0 .0, sym::and(v.1 == want.0 .1, v.2 == want.0 .2)), "the version");
            chk(d.is_mariadb() == want.1, "the server family");
            let have = d.capabilities().bits();
            chk(have & !caps == 0, "only offered capabilities are reported");
            chk((have & WITH_DB != 0) == sym::and(db.is_some(), caps & WITH_DB != 0), "a database is negotiated exactly if there is one");
            for f in [PROTOCOL_41, SECURE, TRANSACTIONS, DEPRECATE_EOF, PLUGIN_AUTH] {
                chk((have & f) == (caps & f), "negotiated capabilities are reported");
            }
            chk(sym::ite(big, 1, (d.max_allowed_packet() == max as usize) as u64) == 1, "the packet limit is reported");
            cover("logged in");
        }
    }
}

/// A switch request with any nonce. Parameters: plugin, password length, nonce length, whether the
/// nonce is terminated, 1: switch to the plugin the greeting already named.
#[no_mangle]
#[inline(never)]
pub fn h_challenge() {
    let to = sym::param(0) as usize;
    let pw = sym::vec(sym::param(1) as usize);
    for b in &pw {
        sym::assume(sym::and(*b < 0x80, sym::or(*b != 0, to < 2)));
    }
    let nonce = sym::vec(sym::param(2) as usize);
    for b in &nonce {
        sym::assume(*b != 0);
    }
    let first = if sym::param(4) == 1 { to } else { (to + 1) % 2 };
    let mut o = options::<false>();
    o.password = unsafe { String::from_utf8_unchecked(pw.clone()) };
    o.auth_plugin = None;
    o.allow_cleartext_password = true;
    let n = net();
    n.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, PLUGINS[first]));
    let mut p = [&[0xFE][..], PLUGINS[to], &[0], &nonce[..]].concat();
    if sym::param(3) == 1 {
        p.push(0);
    }
    n.send(2, &p);
    n.send(4, &ok(0, 0, 2, 0));
    let r = block(Connection::connect(Arc::new(o)));
    chk(r.is_ok(), "the login succeeds");
    match (n.take(), n.take()) {
        (Some((1, a)), Some((3, b))) => {
            match parse_login(&a) {
                Some(l) => chk(sym::eq(&l.auth, &response(first, &pw, &NONCE)), "the first response is the one the plugin defines"),
                None => chk(false, "the response has the layout its capabilities announce"),
            }
            chk(sym::eq(&b, &response(to, &pw, &nonce)), "the response is the one the plugin defines");
            cover("switched");
        }
        _ => chk(false, "both challenges are answered"),
    }
}

fn any(n: usize) -> Vec<u8> {
    sym::vec(n)
}

fn finish(r: Option<Result<Connection, mysql_connector::Error>>) {
    match r {
        None => chk(false, "connect waits for something that never happens"),
        Some(Ok(_)) => cover("connected"),
        Some(Err(_)) => cover("error"),
    }
}

fn try_login(secure: bool, forced: Option<usize>, pw: usize, own: bool) {
    sym::alloc_limit(64 << 20);
    let c = Cfg { forced, first: None, allow: true, secure, key: own, pw: password(pw), nonce1: vec![] };
    let r = if secure {
        try_block(Connection::connect(Arc::new(opts::<true>(&c))))
    } else {
        try_block(Connection::connect(Arc::new(opts::<false>(&c))))
    };
    finish(r);
}

/// Any packet as greeting. Parameters: the shape and its length.
/// 0: any bytes; 1: a version of any bytes (to the end of the string or without one) in an
/// otherwise usual greeting; 2: usual up to any bytes for flags and the rest; 3: a usual greeting
/// cut to any length; 4: any length and sequence number in the header; 5: any plugin name; 6: any version of digits and
/// dots.
#[no_mangle]
#[inline(never)]
pub fn h_wild_greeting() {
    let k = sym::param(1) as usize;
    let n = net();
    match sym::param(0) {
        0 => n.send(0, &any(k)),
        1 => {
            let v = any(k);
            for b in &v {
                sym::assume(sym::or(sym::param(2) == 0, *b < 0x80));
            }
            n.send(0, &greeting(&v, 7, FULL, &NONCE, SHA2));
        }
        2 => {
            let g = greeting(b"8.0.36", 7, FULL, &NONCE, SHA2);
            let mut p = g[..8].to_vec();
            let at = 8;
            let f = any(31);
            p.extend_from_slice(&f);
            if k >= 13 {
                sym::assume(p[at + 14] & 0x80 != 0);
            }
            // the length of the nonce is a case split
            p[at + 20] = if k >= 13 { [0u8, 1, 8, 20, 21, 22, 30, 43, 60, 255][sym::choose(10)] } else { sym::conc(p[at + 20] as usize) as u8 };
            p.extend(any(k.min(13)));
            p.extend_from_slice(&SHA2[..k.saturating_sub(13).min(SHA2.len())]);
            n.send(0, &p);
        }
        5 => {
            let p = any(k);
            n.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, &p));
        }
        7 => {
            // characters of several bytes
            let c = ["\u{e9}", "\u{df}", "\u{20ac}", "\u{1d4b3}", "\u{301}", "\u{2028}", "\u{660}", "\u{10ffff}"][sym::choose(8)];
            let d = sym::u8();
            sym::assume(d != 0 && d < 0x80);
            let v = match sym::choose(4) {
                0 => [c.as_bytes(), &[d]].concat(),
                1 => [&[d], c.as_bytes()].concat(),
                2 => [b"8.0", c.as_bytes(), &[d], b".1"].concat(),
                _ => [b"8.0.1", c.as_bytes(), &[d]].concat(),
            };
            n.send(0, &greeting(&v, 7, FULL, &NONCE, SHA2));
        }
        6 => {
            // longer versions with a symbolic beginning of numbers and dots
            let v = any(k);
            for b in &v {
                sym::assume(sym::or(*b == b'.', sym::and(*b >= b'0', *b <= b'9')));
            }
            n.send(0, &greeting(&v, 7, FULL, &NONCE, SHA2));
        }
        3 => {
            let g = greeting(b"8.0.36-MariaDB", 7, sym::ite(sym::bool(), FULL as u64, (FULL & !SECURE) as u64) as u32, &NONCE, SHA2);
            let cut = sym::choose(g.len() + 1);
            n.send(0, &g[..cut]);
        }
        _ => {
            let l = [0usize, 1, 5, 73, 74, 0xFF_FFFE, 0xFF_FFFF][sym::choose(7)];
            let g = greeting(b"8.0.36", 7, FULL, &NONCE, SHA2);
            n.inc.extend_from_slice(&[l as u8, (l >> 8) as u8, (l >> 16) as u8, sym::u8()]);
            n.inc.extend_from_slice(&g);
        }
    }
    n.send(2, &ok(0, 0, 2, 0));
    try_login(false, None, 2, false);
}

/// Any packets during authentication. Parameters: forced plugin + 1, where (number of usual
/// messages before: 0 none, 1 a switch, 2 fast authentication, 3 full authentication, 4 the key,
/// 5 full authentication on a secure stream), shape, length.
#[no_mangle]
#[inline(never)]
pub fn h_wild_auth() {
    let k = sym::param(3) as usize;
    let forced = (sym::param(0) as usize).checked_sub(1);
    let place = sym::param(1);
    let n = net();
    n.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, SHA2));
    let mut seq = 2;
    let sha = |to: usize| [&[0xFE][..], PLUGINS[to], &[0], &NONCE[..], &[0]].concat();
    match place {
        1 => {
            n.send(seq, &sha(forced.unwrap_or(0)));
            seq += 2;
        }
        2 => {
            n.send(seq, &[1, 3]);
            seq += 1;
        }
        3 | 5 => {
            n.send(seq, &[1, 4]);
            seq += 2;
        }
        4 => {
            n.send(seq, &[1, 4]);
            seq += 2;
            n.send(seq, &[&[1u8][..], &pem(b"PUBLIC KEY", &der(0x30, &[der(0x30, &[5, 0]), der(3, &[&[0], &pkcs1(OCTETS)[..]].concat())].concat()), 64)].concat());
            seq += 2;
        }
        _ => {}
    }
    match sym::param(2) {
        0 => n.send(seq, &any(k)),
        1 => n.send(seq, &[&[0xFE][..], PLUGINS[sym::choose(3)], &[0], &any(k)].concat()),
        2 => n.send(seq, &[&[0xFE][..], &any(k)].concat()),
        3 => n.send(seq, &[&[0xFF][..], &any(k)].concat()),
        4 => n.send(seq, &[&[1][..], &any(k)].concat()),
        5 => n.send(seq, &[&[0][..], &any(k)].concat()),
        6 => {
            // a switch, then anything
            n.send(seq, &sha(sym::choose(3)));
            n.send(seq + 2, &any(k));
        }
        7 => n.send(seq, &[&[1u8][..], b"-----BEGIN PUBLIC KEY-----", &any(k), b"-----END PUBLIC KEY-----"].concat()),
        8 => {
            let l = [0usize, 1, 7, 300, 0xFF_FFFE, 0xFF_FFFF][sym::choose(6)];
            n.inc.extend_from_slice(&[l as u8, (l >> 8) as u8, (l >> 16) as u8, sym::u8()]);
            n.inc.extend(any(k));
        }
        _ => {
            // a public key with any header bytes and numbers
            let mut d = der(0x30, &[&[2, k as u8][..], &any(k), &[2, 1, sym::u8()]].concat());
            let i = sym::choose(4);
            if i > 0 {
                d[i] = sym::u8();
            }
            n.send(seq, &[&[1u8][..], &pem(b"RSA PUBLIC KEY", &d, 64)].concat());
        }
    }
    n.send(seq + 1, &ok(0, 0, 2, 0));
    n.send(seq + 3, &ok(0, 0, 2, 0));
    try_login(place == 5, forced, 2, false);
}

/// The packet limit is asked for at login if the options have none. Parameters: shape, length.
/// 0: any text of that length; 1: digits; 2: the column has another name; 3: no row; 4: NULL;
/// 5: an error; 6: any packet of that length instead.
#[no_mangle]
#[inline(never)]
pub fn h_settings() {
    let k = sym::param(1) as usize;
    sym::alloc_limit(64 << 20);
    let mut o = options::<false>();
    o.max_allowed_packet = None;
    let n = net();
    n.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, NATIVE));
    n.send(2, &ok(0, 0, 2, 0));
    let shape = sym::param(0);
    // (any column's text has to suit its type)
    let v = if shape == 2 { b"17".to_vec() } else { sym::vec(k) };
    let mut want = 0u64;
    if shape == 1 {
        for b in &v {
            sym::assume(sym::and(*b >= b'0', *b <= b'9'));
            want = want.wrapping_mul(10).wrapping_add((*b - b'0') as u64);
        }
    }
    let name: &[u8] = if shape == 2 { b"max" } else { b"@@max_allowed_packet" };
    let c = coldef(b"", b"", b"", name, b"", 8, 0x20);
    match shape {
        3 => n.send_all(1, &[vec![1], c, end(FULL, 2, 0)]),
        4 => n.send_all(1, &[vec![1], c, vec![0xFB], end(FULL, 2, 0)]),
        5 => n.send(1, &err(1045, b"28000", b"no")),
        6 => n.send(1, &v),
        _ => n.send_all(1, &[vec![1], c, lestr(&v), end(FULL, 2, 0)]),
    }
    let r = try_block(Connection::connect(Arc::new(o)));
    match (shape, r) {
        (_, None) => chk(false, "connect waits for something that never happens"),
        (1, Some(Ok(c))) => {
            chk(c.data().max_allowed_packet() as u64 == want, "the packet limit is the server's");
            cover("limit read");
        }
        (1, Some(Err(_))) => chk(k == 0 || k > 19, "the packet limit is read"),
        (2 | 3, Some(r)) => chk(r.is_ok(), "the login succeeds without the server's packet limit"),
        (5, Some(Err(e))) => chk(is_server_error(&e, 1045, Some(b"28000"), b"no"), "the server's error is reported"),
        (5, _) => chk(false, "the server's error is reported"),
        _ => {}
    }
    cover("settings");
}
