//! An in-memory stream whose other side is a scripted server.
#![allow(dead_code)]
use mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions, Stream};
use std::{
    collections::VecDeque,
    future::Future,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub type Server = Box<dyn FnMut(u8, &[u8]) -> Vec<Vec<u8>> + Send>;

pub struct Net {
    pub inc: VecDeque<u8>,
    /// everything the client sent
    pub out: Vec<u8>,
    pub out_pos: usize,
    /// gets the sequence number of the last packet and the payload; its packets are the answer
    pub server: Option<Server>,
    /// the most bytes a read or write handles
    pub max_read: usize,
    pub max_write: usize,
}

static NET: Mutex<Net> = Mutex::new(Net {
    inc: VecDeque::new(),
    out: Vec::new(),
    out_pos: 0,
    server: None,
    max_read: usize::MAX,
    max_write: usize::MAX,
});

/// Packets with their own sequence numbers, sent after what the server returns
pub static RAW: Mutex<Vec<(u8, Vec<u8>)>> = Mutex::new(Vec::new());

/// If set, reads return at most this many bytes and have to wait then
pub static STALL: Mutex<Option<usize>> = Mutex::new(None);

pub fn net() -> std::sync::MutexGuard<'static, Net> {
    NET.lock().unwrap_or_else(|x| x.into_inner())
}

impl Net {
    pub fn send(&mut self, mut seq: u8, payload: &[u8]) -> u8 {
        let mut rest = payload;
        loop {
            let n = rest.len().min(0xFF_FFFF);
            self.inc.extend([n as u8, (n >> 8) as u8, (n >> 16) as u8, seq]);
            self.inc.extend(rest[..n].iter());
            rest = &rest[n..];
            seq = seq.wrapping_add(1);
            if n < 0xFF_FFFF {
                return seq;
            }
        }
    }
    /// The next complete payload: (its first and last sequence number, the payload)
    pub fn take(&mut self) -> Option<(u8, u8, Vec<u8>)> {
        let mut pos = self.out_pos;
        let mut payload = Vec::new();
        let mut first = None;
        loop {
            let o = &self.out[pos..];
            if o.len() < 4 {
                return None;
            }
            let n = o[0] as usize | (o[1] as usize) << 8 | (o[2] as usize) << 16;
            if o.len() < 4 + n {
                return None;
            }
            payload.extend_from_slice(&o[4..4 + n]);
            pos += 4 + n;
            let first = *first.get_or_insert(o[3]);
            if n < 0xFF_FFFF {
                self.out_pos = pos;
                return Some((first, o[3], payload));
            }
        }
    }
    fn serve(&mut self) {
        let Some(mut server) = self.server.take() else { return };
        while let Some((_, seq, payload)) = self.take() {
            let mut seq = seq.wrapping_add(1);
            for packet in server(seq.wrapping_sub(1), &payload) {
                seq = self.send(seq, &packet);
            }
            for (seq, p) in RAW.lock().unwrap().drain(..) {
                let n = p.len();
                self.inc.extend([n as u8, (n >> 8) as u8, (n >> 16) as u8, seq]);
                self.inc.extend(p);
            }
        }
        self.server = Some(server);
    }
}

#[derive(Debug)]
pub struct Mock<const SECURE: bool>;

#[derive(Debug, Default)]
pub struct Opts {
    pub greeting: Vec<u8>,
}

impl<const S: bool> Stream for Mock<S> {
    const SECURE: bool = S;
    type Options = Opts;
    async fn connect(data: &Opts) -> Result<Self, io::Error> {
        net().send(0, &data.greeting);
        Ok(Mock)
    }
}

impl<const S: bool> AsyncRead for Mock<S> {
    fn poll_read(
        self: Pin<&mut Self>,
        _: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let mut n = net();
        if n.inc.is_empty() {
            n.serve();
        }
        let mut len = buf.remaining().min(n.max_read).min(n.inc.len());
        if let Some(stall) = STALL.lock().unwrap().as_mut() {
            if *stall == 0 {
                return Poll::Pending;
            }
            len = len.min(*stall);
            *stall -= len;
        }
        for _ in 0..len {
            let x = n.inc.pop_front().unwrap();
            buf.put_slice(&[x]);
        }
        Poll::Ready(Ok(()))
    }
}

impl<const S: bool> AsyncWrite for Mock<S> {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut n = net();
        let len = b.len().min(n.max_write);
        n.out.extend_from_slice(&b[..len]);
        Poll::Ready(Ok(len))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

pub fn waker() -> Waker {
    const VTABLE: RawWakerVTable = RawWakerVTable::new(|_| RAW, |_| (), |_| (), |_| ());
    const RAW: RawWaker = RawWaker::new(std::ptr::null(), &VTABLE);
    unsafe { Waker::from_raw(RAW) }
}

pub fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    f.as_mut().poll(&mut Context::from_waker(&waker()))
}

pub fn block<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..10_000_000 {
        if let Poll::Ready(x) = poll_once(&mut f) {
            return x;
        }
    }
    panic!("hangs");
}

pub const CAPS: u32 = 0x8000 | 0x200 | 0x2000 | 0x4_0000 | 0x8_0000;
pub const DEPRECATE_EOF: u32 = 0x100_0000;
pub const CONNECT_WITH_DB: u32 = 8;
pub const NONCE: &[u8; 20] = b"abcdefgh12345678ABCD";

pub fn greeting(caps: u32, plugin: &str) -> Vec<u8> {
    let mut g = vec![10];
    g.extend(b"8.0.36\0");
    g.extend(7u32.to_le_bytes());
    g.extend(&NONCE[..8]);
    g.push(0);
    g.extend((caps as u16).to_le_bytes());
    g.push(45);
    g.extend(2u16.to_le_bytes());
    g.extend(((caps >> 16) as u16).to_le_bytes());
    g.push(21);
    g.extend([0; 10]);
    g.extend(&NONCE[8..]);
    g.push(0);
    g.extend(plugin.as_bytes());
    g.push(0);
    g
}

static SLEEP: fn(Duration) -> mysql_connector::TimeoutFuture = |_| Box::pin(std::future::pending());

pub fn options<const S: bool>(caps: u32, plugin: &str) -> ConnectionOptions<Mock<S>> {
    ConnectionOptions {
        user: "user".into(),
        password: "secret".into(),
        connection: Opts { greeting: greeting(caps, plugin) },
        max_allowed_packet: Some(1 << 24),
        auth_plugin: None,
        sleep: Some(&SLEEP),
        ..Default::default()
    }
}

pub fn serve(server: impl FnMut(u8, &[u8]) -> Vec<Vec<u8>> + Send + 'static) {
    net().server = Some(Box::new(server));
}

/// A connection whose login is accepted at once.
pub fn login(caps: u32) -> Connection {
    serve(|_, _| vec![ok(0, 0)]);
    let conn = block(Connection::connect(Arc::new(ConnectionOptions {
        auth_plugin: Some(AuthPlugin::Native),
        ..options::<false>(caps, "mysql_native_password")
    })))
    .expect("login");
    let mut n = net();
    n.out.clear();
    n.out_pos = 0;
    drop(n);
    conn
}

pub fn lenenc(n: u64) -> Vec<u8> {
    match n {
        0..=250 => vec![n as u8],
        251..=0xFFFF => [&[0xFC][..], &n.to_le_bytes()[..2]].concat(),
        0x1_0000..=0xFF_FFFF => [&[0xFD][..], &n.to_le_bytes()[..3]].concat(),
        _ => [&[0xFE][..], &n.to_le_bytes()[..]].concat(),
    }
}

pub fn lestr(s: &[u8]) -> Vec<u8> {
    [&lenenc(s.len() as u64)[..], s].concat()
}

pub fn ok(rows: u64, id: u64) -> Vec<u8> {
    [&[0][..], &lenenc(rows), &lenenc(id), &[2, 0, 0, 0]].concat()
}

/// The packet that closes a result set
pub fn end(caps: u32) -> Vec<u8> {
    if caps & DEPRECATE_EOF != 0 {
        vec![0xFE, 0, 0, 2, 0, 0, 0]
    } else {
        vec![0xFE, 0, 0, 2, 0]
    }
}

pub fn err(code: u16, message: &str) -> Vec<u8> {
    [&[0xFF][..], &code.to_le_bytes(), b"#HY000", message.as_bytes()].concat()
}

pub fn coldef(table: &str, name: &str, org_name: &str, ty: u8, flags: u16) -> Vec<u8> {
    let mut p = lestr(b"def");
    for s in ["db", table, table, name, org_name] {
        p.extend(lestr(s.as_bytes()));
    }
    p.push(12);
    p.extend([33, 0, 0, 1, 0, 0, ty]);
    p.extend(flags.to_le_bytes());
    p.extend([0, 0, 0]);
    p
}

/// The packets of a result set
pub fn result(caps: u32, columns: &[Vec<u8>], rows: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut p = vec![lenenc(columns.len() as u64)];
    p.extend(columns.iter().cloned());
    if caps & DEPRECATE_EOF == 0 {
        p.push(end(caps));
    }
    p.extend(rows.iter().cloned());
    p.push(end(caps));
    p
}

/// What the server answers to a prepare
pub fn prepared(caps: u32, id: u32, params: u16, columns: u16) -> Vec<Vec<u8>> {
    let mut head = vec![0];
    head.extend(id.to_le_bytes());
    head.extend(columns.to_le_bytes());
    head.extend(params.to_le_bytes());
    head.extend([0, 0, 0]);
    let mut p = vec![head];
    for n in [params, columns] {
        for _ in 0..n {
            p.push(coldef("", "?", "", 253, 0));
        }
        if n != 0 && caps & DEPRECATE_EOF == 0 {
            p.push(end(caps));
        }
    }
    p
}
