//! A stream whose other side is a scripted server, an executor without threads, and the server's
//! side of the protocol (greeting, packets).
use crate::sym;
use crate::sym::chk;
use mysql_connector::{
    types::AuthPlugin, Connection, ConnectionOptions, Stream, TimeoutFuture,
};
use std::{
    future::Future,
    io,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub type Hook = Box<dyn FnMut(&mut Net) -> bool>;

pub struct Net {
    /// bytes the server sent
    pub inc: Vec<u8>,
    pub pos: usize,
    /// bytes the client sent
    pub out: Vec<u8>,
    /// what the server already looked at
    pub out_pos: usize,
    /// called when the client reads and nothing is there; true if it sent something
    pub hook: Option<Hook>,
    /// 0: reads and writes complete at once, 1: every split and pendings are chosen,
    /// 2: one byte at a time, 3: chosen between everything and one byte, no pendings
    pub rmode: u8,
    pub wmode: u8,
    /// how many times a read or write may still be pending
    pub pend: u32,
    /// split positions are chosen only for transfers up to this size
    pub split_max: usize,
    /// number of splits that are left
    pub splits: u32,
    /// server side closed: reads at the end return 0 bytes (otherwise they are pending for ever)
    pub closed: bool,
    /// the last poll was pending although the stream will continue
    pub progress: bool,
    pub reads: u32,
    pub writes: u32,
    pub sleeps: u32,
    pub sleep_dur: Option<Duration>,
    pub sleep_bad: bool,
    /// timers: 0 never fire, 1: chosen at every poll
    pub timers: u8,
    pub fired: u32,
    /// with `timers` 1: how many times they may be polled until they fire
    pub timer_polls: u32,
    /// the stream made the client wait in this poll
    pub stalled: bool,
    /// a timer was asked before the stream and fired
    pub fired_early: bool,
    pub polled_unguarded: bool,
    pub live_timers: u32,
    pub connects: u32,
    /// streams that were dropped
    pub drops: u32,
    /// a server with these capabilities answers every new stream's login
    pub greet: Option<u32>,
    /// at most this many bytes of the client's output are kept (0: all)
    pub out_len: usize,
    /// written bytes reach the server only when the stream is flushed
    pub buffering: bool,
    pub held: Vec<u8>,
    /// how many reads, writes or flushes may fail
    pub fails: u32,
    /// drop output (only count it)
    pub discard: bool,
}

impl Net {
    const fn new() -> Self {
        Net {
            inc: Vec::new(),
            pos: 0,
            out: Vec::new(),
            out_pos: 0,
            hook: None,
            rmode: 0,
            wmode: 0,
            pend: 0,
            split_max: 64,
            splits: 0,
            closed: true,
            progress: false,
            reads: 0,
            writes: 0,
            sleeps: 0,
            sleep_dur: None,
            sleep_bad: false,
            timers: 0,
            fired: 0,
            timer_polls: 0,
            stalled: false,
            fired_early: false,
            polled_unguarded: false,
            live_timers: 0,
            connects: 0,
            drops: 0,
            greet: None,
            out_len: 0,
            buffering: false,
            held: Vec::new(),
            fails: 0,
            discard: false,
        }
    }
    /// Send one packet.
    pub fn send(&mut self, seq: u8, payload: &[u8]) {
        let n = payload.len();
        self.inc.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, seq]);
        self.inc.extend_from_slice(payload);
    }
    pub fn send_all(&mut self, first_seq: u8, payloads: &[Vec<u8>]) {
        let mut seq = first_seq;
        for p in payloads {
            self.send(seq, p);
            seq = seq.wrapping_add(1);
        }
    }
    /// The next complete packet of the client: (sequence number, payload).
    pub fn take(&mut self) -> Option<(u8, Vec<u8>)> {
        let o = &self.out[self.out_pos..];
        if o.len() < 4 {
            return None;
        }
        let n = sym::conc(o[0] as usize | (o[1] as usize) << 8 | (o[2] as usize) << 16);
        if o.len() < 4 + n {
            return None;
        }
        let r = (o[3], o[4..4 + n].to_vec());
        self.out_pos += 4 + n;
        Some(r)
    }
}

static mut NET: Net = Net::new();

pub fn net() -> &'static mut Net {
    unsafe { &mut *std::ptr::addr_of_mut!(NET) }
}

#[allow(dead_code)]
pub fn reset() {
    let n = net();
    *n = Net::new();
}

/// Everything the server has still to say is there and nothing was sent to it.
pub fn rewind() {
    let n = net();
    n.inc.clear();
    n.pos = 0;
    n.out.clear();
    n.held.clear();
    n.out_pos = 0;
}

#[derive(Debug)]
pub struct Mock<const S: bool>;

#[derive(Debug, Default)]
pub struct MockOptions;

impl<const S: bool> Stream for Mock<S> {
    const SECURE: bool = S;
    type Options = MockOptions;
    async fn connect(_: &MockOptions) -> Result<Self, io::Error> {
        let n = net();
        n.connects += 1;
        if let Some(caps) = n.greet {
            rewind();
            n.send(0, &greeting(b"8.0.36", 7, caps, &NONCE, NATIVE));
            n.send(2, &ok(0, 0, 2, 0));
        }
        Ok(Mock)
    }
}

impl<const S: bool> Drop for Mock<S> {
    fn drop(&mut self) {
        net().drops += 1;
    }
}

fn pending(n: &mut Net) -> bool {
    if n.pend > 0 && sym::choose(2) == 1 {
        n.pend -= 1;
        n.progress = true;
        n.stalled = true;
        return true;
    }
    n.stalled = false;
    false
}

fn broken(n: &mut Net) -> bool {
    if n.fails > 0 && sym::choose(2) == 1 {
        n.fails -= 1;
        return true;
    }
    false
}

fn split(n: &mut Net, mode: u8, avail: usize) -> usize {
    if avail <= 1 {
        return avail;
    }
    match mode {
        1 if n.splits > 0 && avail <= n.split_max => {
            let k = 1 + sym::choose(avail);
            if k < avail {
                n.splits -= 1;
            }
            k
        }
        2 => 1,
        3 if n.splits > 0 => {
            if sym::choose(2) == 0 {
                avail
            } else {
                n.splits -= 1;
                1
            }
        }
        _ => avail,
    }
}

impl<const S: bool> AsyncRead for Mock<S> {
    fn poll_read(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = net();
        n.reads += 1;
        if n.live_timers == 0 {
            n.polled_unguarded = true;
        }
        chk(n.held.is_empty(), "what was written is flushed before an answer is awaited");
        if broken(n) {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if pending(n) {
            return Poll::Pending;
        }
        if n.pos == n.inc.len() {
            if let Some(mut h) = n.hook.take() {
                let _ = h(n);
                if n.hook.is_none() {
                    n.hook = Some(h);
                }
            }
        }
        let avail = (n.inc.len() - n.pos).min(buf.remaining());
        if avail == 0 {
            if n.closed || buf.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            n.stalled = true;
            return Poll::Pending;
        }
        let k = split(n, n.rmode, avail);
        buf.put_slice(&n.inc[n.pos..n.pos + k]);
        n.pos += k;
        Poll::Ready(Ok(()))
    }
}

impl<const S: bool> AsyncWrite for Mock<S> {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let n = net();
        n.writes += 1;
        if n.live_timers == 0 {
            n.polled_unguarded = true;
        }
        if broken(n) {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if pending(n) {
            return Poll::Pending;
        }
        let k = split(n, n.wmode, buf.len());
        n.out_len += k;
        if n.buffering {
            n.held.extend_from_slice(&buf[..k]);
        } else if !n.discard {
            n.out.extend_from_slice(&buf[..k]);
        }
        Poll::Ready(Ok(k))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let n = net();
        if !n.held.is_empty() {
            if n.live_timers == 0 {
                n.polled_unguarded = true;
            }
            if broken(n) {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if pending(n) {
                return Poll::Pending;
            }
            let h = std::mem::take(&mut n.held);
            n.out.extend_from_slice(&h);
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

pub const TIMEOUT: Duration = Duration::from_millis(4321);

struct Timer(bool);

impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        let n = net();
        if n.timers == 1 && !self.0 {
            if n.timer_polls == 0 || sym::choose(2) == 1 {
                self.0 = true;
                n.fired += 1;
                if !n.stalled {
                    n.fired_early = true;
                }
            } else {
                n.timer_polls -= 1;
                n.progress = true;
            }
        }
        if self.0 {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        net().live_timers -= 1;
    }
}

fn sleep(d: Duration) -> TimeoutFuture {
    let n = net();
    n.sleeps += 1;
    n.live_timers += 1;
    match n.sleep_dur {
        None => n.sleep_dur = Some(d),
        Some(x) => {
            if x != d {
                n.sleep_bad = true;
            }
        }
    }
    Box::pin(Timer(false))
}

static SLEEP: &(dyn Fn(Duration) -> TimeoutFuture + Send + Sync) = &sleep;

fn waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Runs a future; `None` if it waits although nothing will ever happen.
pub fn try_block<F: Future>(f: F) -> Option<F::Output> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        net().progress = false;
        net().stalled = false;
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending => {
                if !net().progress {
                    return None;
                }
            }
        }
    }
}

pub fn block<F: Future>(f: F) -> F::Output {
    match try_block(f) {
        Some(x) => x,
        None => {
            chk(false, "the call waits for something that never happens");
            loop {}
        }
    }
}

// capabilities
pub const LONG_PASSWORD: u32 = 0x1;
pub const WITH_DB: u32 = 0x8;
pub const PROTOCOL_41: u32 = 0x200;
pub const TRANSACTIONS: u32 = 0x2000;
pub const SECURE: u32 = 0x8000;
pub const PS_MULTI: u32 = 0x4_0000;
pub const PLUGIN_AUTH: u32 = 0x8_0000;
pub const LENENC_AUTH: u32 = 0x20_0000;
pub const SESSION_TRACK: u32 = 0x80_0000;
pub const DEPRECATE_EOF: u32 = 0x100_0000;
pub const BASE: u32 = LONG_PASSWORD | WITH_DB | PROTOCOL_41 | TRANSACTIONS | SECURE | PS_MULTI | PLUGIN_AUTH | LENENC_AUTH;
pub const FULL: u32 = BASE | DEPRECATE_EOF | SESSION_TRACK;

pub const NATIVE: &[u8] = b"mysql_native_password";
pub const SHA2: &[u8] = b"caching_sha2_password";
pub const CLEAR: &[u8] = b"mysql_clear_password";

pub const NONCE: [u8; 20] = *b"abcdefghijklmnopqrst";

pub fn greeting(version: &[u8], id: u32, caps: u32, nonce: &[u8; 20], plugin: &[u8]) -> Vec<u8> {
    let mut g = vec![10u8];
    g.extend_from_slice(version);
    g.push(0);
    g.extend_from_slice(&id.to_le_bytes());
    g.extend_from_slice(&nonce[..8]);
    g.push(0);
    g.extend_from_slice(&(caps as u16).to_le_bytes());
    g.push(45);
    g.extend_from_slice(&2u16.to_le_bytes());
    g.extend_from_slice(&((caps >> 16) as u16).to_le_bytes());
    g.push(21);
    g.extend_from_slice(&[0; 10]);
    if caps & SECURE != 0 {
        g.extend_from_slice(&nonce[8..]);
        g.push(0);
    }
    if caps & PLUGIN_AUTH != 0 {
        g.extend_from_slice(plugin);
        g.push(0);
    }
    g
}

/// An OK packet with the given fields.
pub fn ok(affected: u64, id: u64, status: u16, warnings: u16) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend(lenenc(affected));
    p.extend(lenenc(id));
    p.extend_from_slice(&status.to_le_bytes());
    p.extend_from_slice(&warnings.to_le_bytes());
    p
}

/// The packet that closes a result set.
pub fn end(caps: u32, status: u16, warnings: u16) -> Vec<u8> {
    let mut p = vec![0xFEu8];
    if caps & DEPRECATE_EOF != 0 {
        p.extend_from_slice(&[0, 0]);
        p.extend_from_slice(&status.to_le_bytes());
        p.extend_from_slice(&warnings.to_le_bytes());
    } else {
        p.extend_from_slice(&warnings.to_le_bytes());
        p.extend_from_slice(&status.to_le_bytes());
    }
    p
}

pub fn err(code: u16, state: &[u8; 5], msg: &[u8]) -> Vec<u8> {
    let mut p = vec![0xFFu8];
    p.extend_from_slice(&code.to_le_bytes());
    p.push(b'#');
    p.extend_from_slice(state);
    p.extend_from_slice(msg);
    p
}

/// Length-encoded integer (concrete values only).
pub fn lenenc(n: u64) -> Vec<u8> {
    if n < 251 {
        vec![n as u8]
    } else if n < 1 << 16 {
        vec![0xFC, n as u8, (n >> 8) as u8]
    } else if n < 1 << 24 {
        vec![0xFD, n as u8, (n >> 8) as u8, (n >> 16) as u8]
    } else {
        let mut v = vec![0xFE];
        v.extend_from_slice(&n.to_le_bytes());
        v
    }
}

pub fn lestr(s: &[u8]) -> Vec<u8> {
    let mut v = lenenc(s.len() as u64);
    v.extend_from_slice(s);
    v
}

/// A column definition.
pub fn coldef(db: &[u8], table: &[u8], org_table: &[u8], name: &[u8], org_name: &[u8], ty: u8, flags: u16) -> Vec<u8> {
    let mut p = lestr(b"def");
    for s in [db, table, org_table, name, org_name] {
        p.extend(lestr(s));
    }
    p.push(12);
    p.extend_from_slice(&[45, 0]);
    p.extend_from_slice(&[0, 1, 0, 0]);
    p.push(ty);
    p.extend_from_slice(&flags.to_le_bytes());
    p.push(0);
    p.extend_from_slice(&[0, 0]);
    p
}

pub fn col(name: &[u8], ty: u8, flags: u16) -> Vec<u8> {
    coldef(b"d", b"t", b"t", name, name, ty, flags)
}

pub fn options<const S: bool>() -> ConnectionOptions<Mock<S>> {
    ConnectionOptions {
        user: String::from("u"),
        password: String::new(),
        db_name: None,
        connection: MockOptions,
        max_allowed_packet: Some(1 << 22),
        timeout: TIMEOUT,
        allow_cleartext_password: false,
        auth_plugin: Some(AuthPlugin::Native),
        server_key: None,
        sleep: Some(SLEEP),
    }
}

/// A connection to a server with the given capabilities, logged in without a password. Only
/// concrete data is involved; afterwards nothing is queued in either direction.
pub fn connect(caps: u32) -> Connection {
    let n = net();
    n.send(0, &greeting(b"8.0.36", 7, caps, &NONCE, NATIVE));
    n.send(2, &ok(0, 0, 2, 0));
    let c = block(Connection::connect(Arc::new(options::<false>())));
    rewind();
    match c {
        Ok(c) => c,
        Err(_) => {
            chk(false, "a plain login to a well-behaved server succeeds");
            loop {}
        }
    }
}

/// Reassembles the packets of one command from the client's output starting at `out_pos`:
/// checks the framing and returns the payload. Concrete lengths expected.
pub fn take_command() -> Option<Vec<u8>> {
    let n = net();
    if n.out_pos == n.out.len() {
        return None;
    }
    let mut all = Vec::new();
    let mut seq = 0u8;
    loop {
        match n.take() {
            None => {
                chk(false, "the client sends complete packets");
                return None;
            }
            Some((s, p)) => {
                chk(s == seq, "sequence numbers of a command count from 0");
                seq = seq.wrapping_add(1);
                all.extend_from_slice(&p);
                if p.len() < 0xFF_FFFF {
                    return Some(all);
                }
            }
        }
    }
}

/// Whether the error is the server's error with exactly this content. The packet type cannot be
/// named from outside of the crate, so its debug form is compared.
pub fn is_server_error(e: &mysql_connector::Error, code: u16, state: Option<&[u8; 5]>, msg: &[u8]) -> bool {
    match e {
        mysql_connector::Error::Server(e) => {
            let msg = unsafe { std::str::from_utf8_unchecked(msg) };
            let want = match state {
                Some(s) => format!("Error(ErrorPacket {{ code: {:?}, state: {:?}, message: {:?} }})", code, unsafe { std::str::from_utf8_unchecked(s) }, msg),
                None => format!("Error(ErrorPacket {{ code: {:?}, message: {:?} }})", code, msg),
            };
            sym::eq(format!("{:?}", e).as_bytes(), want.as_bytes())
        }
        _ => false,
    }
}

pub fn is_out_of_sync(e: &mysql_connector::Error) -> bool {
    matches!(e, mysql_connector::Error::Protocol(mysql_connector::error::ProtocolError::OutOfSync))
}

pub fn io_kind(e: &mysql_connector::Error) -> Option<io::ErrorKind> {
    match e {
        mysql_connector::Error::Protocol(mysql_connector::error::ProtocolError::Io(e)) => Some(e.kind()),
        _ => None,
    }
}
