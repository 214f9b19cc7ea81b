//! Waiting: timers.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use mysql_connector::{types::Value, Connection, Error, Timeout, TimeoutFuture};
use std::{
    future::Future,
    io,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
    time::Duration,
};

struct After(u32);
impl Future for After {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
        if self.0 == 0 {
            Poll::Ready(77)
        } else {
            self.0 -= 1;
            Poll::Pending
        }
    }
}
struct Alarm(u32);
impl Future for Alarm {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            Poll::Pending
        }
    }
}

/// C25: a future against a timer. param0: polls
#[no_mangle]
#[inline(never)]
pub fn h_timeout_race() {
    static mut ASKED: Option<Duration> = None;
    static mut AT: u32 = 0;
    fn sleep(d: Duration) -> TimeoutFuture {
        unsafe {
            ASKED = Some(d);
            Box::pin(Alarm(AT))
        }
    }
    let n = sym::param(0) as u32;
    let (a, b) = (sym::u32(), sym::u32());
    sym::assume(a <= n && b <= n);
    let (secs, nanos) = (sym::u64(), sym::u32());
    sym::assume(nanos < 1_000_000_000);
    let d = Duration::new(secs, nanos);
    unsafe {
        ASKED = None;
        AT = b;
    }
    let mut t = Timeout::new(After(a), &sleep, d);
    chk(unsafe { ASKED } == Some(d), "the timer has the duration given");
    let mut cx = Context::from_waker(std::task::Waker::noop());
    for i in 0..=n {
        match Pin::new(&mut t).poll(&mut cx) {
            Poll::Ready(Ok(x)) => {
                chk(x == 77 && a == i && a <= b, "a result that is there before the timer fires, or with it, is returned");
                cover("in time");
                return;
            }
            Poll::Ready(Err(e)) => {
                chk(e.kind() == io::ErrorKind::TimedOut && b == i && b < a, "no result when the timer fires is a time-out");
                cover("timed out");
                return;
            }
            Poll::Pending => chk(a > i && b > i, "waits for the result or the timer only"),
        }
    }
    chk(false, "ends with the result or the timer");
}

fn check(r: Result<(), Error>, cut: bool) {
    let m = net();
    chk(!m.fired_early, "the stream is asked before the timer ends the wait");
    match r {
        Ok(()) => {
            chk(m.fired == 0, "a fired timer ends the call");
            chk(!cut, "a missing answer is not made up");
            cover("answered");
        }
        Err(e) => {
            chk(m.fired > 0, "only a fired timer ends a call to a slow server");
            chk(io_kind(&e) == Some(io::ErrorKind::TimedOut), "the error is a time-out");
            cover("timed out");
        }
    }
}

/// C25: calls to a slow server. param0: call, param1: pendings, param2: polls of timers until they
/// fire, param3: 1: the answer may end anywhere, param4: short reads and writes
#[no_mangle]
#[inline(never)]
pub fn h_slow() {
    let call = sym::param(0);
    let (secs, nanos) = (sym::u64(), sym::u32());
    sym::assume(nanos < 1_000_000_000);
    let limit = Duration::new(secs, nanos);
    let m = net();
    m.closed = false;
    let slow = || {
        let m = net();
        m.buffering = true;
        m.pend = sym::param(1) as u32;
        m.timers = 1;
        m.rmode = 1;
        m.wmode = 1;
        m.split_max = 8;
        m.splits = sym::param(4) as u32;
        m.timer_polls = sym::param(2) as u32;
        if sym::param(3) == 1 {
            let n = sym::choose(m.inc.len() + 1);
            m.inc.truncate(n);
            return n;
        }
        m.inc.len()
    };
    let mut o = options::<false>();
    o.timeout = limit;
    if call == 1 {
        o.max_allowed_packet = None;
    }
    m.send(0, &greeting(b"8.0.36", 7, FULL, &NONCE, NATIVE));
    m.send(2, &ok(0, 0, 2, 0));
    let mut cut = false;
    if call == 0 || call == 1 {
        if call == 1 {
            // (the answer to the packet limit)
            let c = coldef(b"", b"", b"", b"@@max_allowed_packet", b"", 8, 0x20);
            m.send_all(1, &[vec![1], c, lestr(b"1000000"), end(FULL, 2, 0)]);
        }
        // (the end of the answer may be left for the next call)
        let want = m.inc.len() - if call == 1 { 11 } else { 0 };
        cut = slow() < want;
        let r = block(Connection::connect(Arc::new(o)));
        check(r.map(|_| ()), cut);
    } else {
        let mut c = match block(Connection::connect(Arc::new(o))) {
            Ok(c) => c,
            Err(_) => return chk(false, "login succeeds"),
        };
        rewind();
        match call {
            2 => {
                m.send(1, &ok(1, 0, 2, 0));
                let want = m.inc.len();
                cut = slow() < want;
                let r = block(c.execute_query("x"));
                check(r.map(|_| ()), cut);
            }
            3 => {
                crate::rows::send_result(FULL, &[col(b"a", 253, 0)], &[lestr(b"v"), lestr(b"w")], 2);
                let want = m.inc.len();
                cut = slow() < want;
                let r = block(async {
                    let mut q = c.query::<Vec<Value>>("x").await?;
                    q.collect().await
                });
                check(r.map(|v| chk(v.len() == 2, "all rows are there")), cut);
            }
            4 | 5 => {
                m.send(1, &crate::rows::prepare_ok(9, 0, 2));
                m.send(2, &col(b"?", 253, 0));
                m.send(3, &col(b"?", 253, 0));
                let mut s = match block(c.prepare_statement("x")) {
                    Ok(s) => s,
                    Err(_) => return chk(false, "prepare succeeds"),
                };
                rewind();
                m.send(1, &ok(1, 0, 2, 0));
                let want = m.inc.len();
                cut = slow() < want;
                let long = Value::Bytes(if call == 5 { vec![b'x'; 3] } else { vec![] });
                let r = block(s.execute(&[Value::Tiny(1), long]));
                check(r.map(|_| ()), cut);
            }
            6 => {
                m.send(1, &crate::rows::prepare_ok(9, 1, 1));
                m.send(2, &col(b"?", 253, 0));
                m.send(3, &col(b"a", 253, 0));
                let want = m.inc.len();
                cut = slow() < want;
                let r = block(c.prepare_statement("x")).map(|_| ());
                check(r, cut);
            }
            7 => {
                m.discard = true;
                m.send(2, &ok(1, 0, 2, 0));
                let want = m.inc.len();
                cut = slow() < want;
                let text = "x".repeat((1 << 24) - 2);
                let r = block(c.execute_query(&text));
                check(r.map(|_| ()), cut);
            }
            9..=12 => {
                crate::rows::send_result(FULL, &[col(b"a", 253, 0)], &[lestr(b"v"), lestr(b"w")], 2);
                if call == 12 {
                    m.send(1, &ok(1, 0, 2, 0));
                }
                let want = m.inc.len();
                cut = slow() < want;
                let r = block(async {
                    let mut q = c.query::<Vec<Value>>("x").await?;
                    match call {
                        9 => q.one().await.map(|r| chk(r.is_some_and(|r| r.len() == 1), "the row is there")),
                        10 => q.finish().await.map(|_| ()),
                        11 => q.finish_into_inner().await.map(|r| chk(r.1.len() == 1, "the column is there")),
                        _ => {
                            drop(q);
                            c.execute_query("y").await.map(|o| chk(o.affected_rows() == 1, "the answer is the call's"))
                        }
                    }
                });
                check(r, cut);
            }
            _ => {
                slow();
                let r = block(c.disconnect());
                check(r.map_err(|e| e.into()).map(|_| ()), false);
            }
        }
    }
    let _ = cut;
    let m = net();
    chk(!m.polled_unguarded, "every read and write is guarded by a timer");
    chk(!m.sleep_bad && m.sleep_dur == Some(limit), "timers have the configured duration");
}
