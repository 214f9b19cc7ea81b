//! Calls that are interrupted: dropped futures, time-outs, errors of the stream.
use crate::mock::*;
use crate::sym::{self, chk, cover};
use mysql_connector::{pool::{AsyncPool, AsyncPoolTrait}, types::Value, Connection, Error};
use std::{
    future::Future,
    pin::pin,
    sync::atomic::{AtomicU32, Ordering},
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
};

/// The commands the client may send, and the answers.
struct Known {
    command: Vec<u8>,
    answer: Vec<Vec<u8>>,
    seen: u32,
}
static mut KNOWN: Vec<Known> = Vec::new();

fn known() -> &'static mut Vec<Known> {
    unsafe { &mut *std::ptr::addr_of_mut!(KNOWN) }
}

fn knows(command: &[u8], answer: Vec<Vec<u8>>) {
    known().push(Known { command: command.to_vec(), answer, seen: 0 });
}

/// Answers every whole command.
fn serve(n: &mut Net) -> bool {
    let mut any = false;
    while let Some((seq, p)) = n.take() {
        if seq == 1 && n.greet.is_some() {
            // a login, which was answered before
            continue;
        }
        chk(seq == 0, "the server gets whole commands only");
        match known().iter_mut().find(|k| k.command == p) {
            Some(k) => {
                k.seen += 1;
                let a = k.answer.clone();
                n.send_all(1, &a);
                any = true;
            }
            None => chk(false, "the server gets whole commands only"),
        }
    }
    any
}

enum End<T> {
    Ready(T),
    Dropped,
}

/// Polls a call until it ends or the stream makes it wait for the first time.
fn first_wait<F: Future>(f: F) -> End<F::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(x) => End::Ready(x),
        Poll::Pending => End::Dropped,
    }
}

fn result(caps: u32, rows: &[u8], binary: bool) -> Vec<Vec<u8>> {
    let mut p = vec![vec![1], col(b"a", 1, 32)];
    if caps & DEPRECATE_EOF == 0 {
        p.push(end(caps, 2, 0));
    }
    for r in rows {
        p.push(if binary { vec![0, 0, *r] } else { lestr(&[b'0' + *r]) });
    }
    p.push(end(caps, 2, 0));
    p
}

/// A result set whose second row holds bytes that look like the end of the result set, or like a row,
/// and the answer to another command.
fn nasty(caps: u32, x: u8) -> Vec<Vec<u8>> {
    let mut p = result(caps, &[x, x], false);
    let i = p.len() - 2;
    let mut row = b"r".to_vec();
    let end = end(caps, 2, 0);
    row.extend([end.len() as u8, 0, 0, sym::u8(), sym::u8()]);
    row.extend(&end[1..]);
    let answer = ok(9, 0, 2, 0);
    row.extend([answer.len() as u8, 0, 0, sym::u8(), sym::u8()]);
    row.extend(&answer[1..]);
    p[i] = lestr(&row);
    // (as a number it would be refused)
    p[1] = col(b"a", 253, 0);
    p
}

/// One call. What it returns: rows affected, or the numbers in the rows.
async fn call(c: &mut Connection, kind: u64, text: &str) -> Result<Vec<u64>, Error> {
    let nums = |v: Vec<Vec<Value>>| {
        v.into_iter()
            .map(|r| {
                chk(r.len() == 1, "rows have the columns of the call's own answer");
                match r[0] {
                    Value::UTiny(x) => x as u64,
                    Value::Bytes(_) => 1000,
                    _ => 1001,
                }
            })
            .collect::<Vec<u64>>()
    };
    match kind {
        0 => Ok(vec![c.execute_query(text).await?.affected_rows()]),
        1 | 6 => Ok(nums(c.query::<Vec<Value>>(text).await?.collect().await?)),
        2 | 7 => {
            // (its second row is not read)
            let mut r = c.query::<Vec<Value>>(text).await?;
            Ok(nums(r.next().await?.into_iter().collect()))
        }
        3 => {
            c.prepare_statement(text).await?;
            Ok(vec![])
        }
        4 => Ok(vec![c.prepare_statement(text).await?.execute::<Value>(&[]).await?.affected_rows()]),
        _ => Ok(nums(c.prepare_statement(text).await?.query::<Value, Vec<Value>>(&[]).await?.collect().await?)),
    }
}

/// Makes the server know the call, whose answer holds any number. What the call has to return.
fn teach(caps: u32, kind: u64, text: &str, id: u8) -> Vec<u64> {
    let x = sym::u8();
    sym::assume(x < 9);
    let query = [&[3u8], text.as_bytes()].concat();
    let prep = [&[0x16u8], text.as_bytes()].concat();
    let run = [&[0x17u8][..], &[id, 0, 0, 0, 0, 1, 0, 0, 0]].concat();
    let mut prepared = vec![vec![0, id, 0, 0, 0, (kind == 5) as u8, 0, 0, 0, 0, 0, 0]];
    if kind == 5 {
        prepared.push(col(b"a", 1, 32));
        if caps & DEPRECATE_EOF == 0 {
            prepared.push(end(caps, 2, 0));
        }
    }
    match kind {
        0 => {
            knows(&query, vec![ok(x as u64, 0, 2, 0)]);
            vec![x as u64]
        }
        1 => {
            knows(&query, result(caps, &[x, x + 1], false));
            vec![x as u64, x as u64 + 1]
        }
        2 => {
            knows(&query, result(caps, &[x, x + 1], false));
            vec![x as u64]
        }
        6 | 7 => {
            knows(&query, nasty(caps, x));
            if kind == 6 { vec![1000, 1000] } else { vec![1000] }
        }
        3 => {
            knows(&prep, prepared);
            vec![]
        }
        4 => {
            knows(&prep, prepared);
            knows(&run, vec![ok(x as u64, 0, 2, 0)]);
            vec![x as u64]
        }
        _ => {
            knows(&prep, prepared);
            knows(&run, result(caps, &[x, x + 1], true));
            vec![x as u64, x as u64 + 1]
        }
    }
}

fn calm() {
    let n = net();
    n.pend = 0;
    n.timers = 0;
    n.splits = 0;
    n.fails = 0;
}

/// C34. Parameters: the interrupted call (+10: behind a result set
/// that was not read to its end, +20: whose next row looks like packets), how (0: dropped, 1: a timer fires, 2: the stream fails), short
/// reads and writes, 1: no DEPRECATE_EOF, the calls behind it.
#[no_mangle]
#[inline(never)]
pub fn h_interrupt() {
    let caps = if sym::param(3) == 1 { BASE } else { FULL };
    known().clear();
    let mut c = connect(caps);
    rewind();
    let how = sym::param(1);
    let n = net();
    n.closed = false;
    n.hook = Some(Box::new(serve));
    if sym::param(0) >= 10 {
        let kind = if sym::param(0) >= 20 { 7 } else { 2 };
        let want = teach(caps, kind, "zeroth", 7);
        match block(call(&mut c, kind, "zeroth")) {
            Ok(v) => chk(v == want, "a call returns its own answer"),
            Err(_) => chk(false, "a call that nothing interrupts succeeds"),
        }
    }
    let kind = sym::param(0) % 10;
    let want = teach(caps, kind, "first", 1);
    let own = |r: Result<Vec<u64>, Error>, want: &[u64], must: bool| match r {
        Ok(v) => {
            chk(v == want, "a call returns its own answer");
            true
        }
        Err(_) => {
            chk(!must, "a call that nothing interrupts succeeds");
            false
        }
    };
    n.rmode = 1;
    n.wmode = 1;
    n.split_max = 300;
    n.splits = sym::param(2) as u32;
    let fine;
    match how {
        0 => {
            n.pend = 1;
            fine = match first_wait(call(&mut c, kind, "first")) {
                End::Ready(r) => own(r, &want, true),
                End::Dropped => false,
            };
        }
        1 => {
            n.pend = 1;
            n.timers = 1;
            n.timer_polls = 0;
            fine = own(block(call(&mut c, kind, "first")), &want, net().pend == 1);
        }
        _ => {
            n.fails = 1;
            let r = block(call(&mut c, kind, "first"));
            fine = own(r, &want, net().fails == 1);
        }
    }
    cover(if fine { "not interrupted" } else { "interrupted" });
    calm();
    // whatever the server still has to say arrives
    let mut n = net();
    if sym::choose(2) == 1 {
        serve(&mut n);
    }
    for (i, text) in ["second", "third"].into_iter().enumerate() {
        let kind = [sym::param(4) % 10, sym::param(4) / 10][i];
        let want = teach(caps, kind, text, 3 + 2 * i as u8);
        let r = try_block(call(&mut c, kind, text));
        match r {
            Some(r) => {
                if own(r, &want, fine) {
                    cover("next call answered");
                } else {
                    cover("next call refused");
                }
            }
            None => chk(!fine, "a call that nothing interrupts ends"),
        }
    }
    let n = net();
    serve(n);
    chk(n.out_pos == n.out.len() || !fine, "nothing but whole commands is sent");
}

/// C34: a row's future is dropped (or fails) and the result set is used on. Parameters as above, without
/// the first; last: 1: a row that looks like packets.
#[no_mangle]
#[inline(never)]
pub fn h_interrupt_row() {
    let caps = if sym::param(2) == 1 { BASE } else { FULL };
    known().clear();
    let mut c = connect(caps);
    rewind();
    let n = net();
    n.closed = false;
    n.hook = Some(Box::new(serve));
    let how = sym::param(0);
    let mut rows: Vec<Vec<u8>> = [b"1", b"2", b"3"].iter().map(|x| x.to_vec()).collect();
    let mut p = result(caps, &[1, 2, 3], false);
    p[1] = col(b"a", 253, 0);
    if sym::param(3) == 1 {
        // bytes that look like another row and the end of the result set
        let end = end(caps, 2, 0);
        let row = &mut rows[1];
        row.extend([2, 0, 0, sym::u8(), 1, sym::u8()]);
        row.extend([end.len() as u8, 0, 0, sym::u8(), sym::u8()]);
        row.extend(&end[1..]);
        let i = p.len() - 3;
        p[i] = lestr(row);
    }
    knows(b"\x03first", p);
    {
        let mut r = match block(c.query::<Vec<Value>>("first")) {
            Ok(r) => r,
            Err(_) => return chk(false, "the query succeeds"),
        };
        n.rmode = 1;
        n.split_max = 300;
        n.splits = sym::param(1) as u32;
        if how == 2 {
            n.fails = 1;
        } else {
            n.pend = 1;
        }
        n.timers = (how == 1) as u8;
        n.timer_polls = 0;
        let mut last = 0;
        for _ in 0..5 {
            let x = match first_wait(r.next()) {
                End::Ready(x) => x,
                End::Dropped => {
                    cover("interrupted");
                    continue;
                }
            };
            match x {
                Ok(Some(v)) => {
                    let good = match &v[..] {
                        [Value::Bytes(x)] => last < 3 && sym::eq(x, &rows[last]),
                        _ => false,
                    };
                    chk(good, "rows are the server's, in order");
                    last += 1;
                }
                Ok(None) => {
                    cover("end");
                    chk(last == 3, "the end comes behind the last row");
                }
                Err(_) => cover("interrupted"),
            }
        }
    }
    calm();
    let want = teach(caps, 0, "second", 9);
    if let Some(Ok(v)) = try_block(call(&mut c, 0, "second")) {
        chk(v == want, "a call returns its own answer");
        cover("next call answered");
    }
}

/// 1: the server closed the stream
static CUT: AtomicU32 = AtomicU32::new(0);

struct Count(AtomicU32);

impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

/// C35. Parameters: the interrupted call (+10: behind a result set that was not read to its end), how
/// (0: dropped, 1: a timer fires, 2: the stream fails, 3: the server
/// closes it), short reads and writes, 1: no DEPRECATE_EOF, 1: someone waits for the connection, 2: and gives up, 3: and two wait, the calls behind it, the
/// interruptions.
#[no_mangle]
#[inline(never)]
pub fn h_pool_replaces() {
    let caps = if sym::param(3) == 1 { BASE } else { FULL };
    known().clear();
    let n = net();
    n.greet = Some(caps);
    n.closed = false;
    n.hook = Some(Box::new(serve));
    let (connects, drops) = (n.connects, n.drops);
    let count = || (net().connects - connects, net().drops - drops);
    let pool: &'static AsyncPool<Connection, Mock<false>, 1> = Box::leak(Box::new(AsyncPool::new(Arc::new(options::<false>()))));
    let how = sym::param(1);
    let names = ["first", "second"];
    let mut replaced = 0;
    let mut item = match block(pool.get()) {
        Ok(c) => c,
        Err(_) => return chk(false, "a pool whose connections were all given back gives one"),
    };
    for round in 0..sym::param(6) as usize {
        if sym::param(0) >= 10 {
            let want = teach(caps, 2, "zeroth", 7);
            match block(call(&mut item, 2, "zeroth")) {
                Ok(v) => chk(v == want, "a call returns its own answer"),
                Err(_) => chk(false, "a call that nothing interrupts succeeds"),
            }
        }
        let kind = sym::param(0) % 10;
        let want = teach(caps, kind, names[round], 1 + round as u8);
        let own = |r: Result<Vec<u64>, Error>, must: bool| match r {
            Ok(v) => {
                chk(v == want, "a call returns its own answer");
                true
            }
            Err(_) => {
                chk(!must, "a call that nothing interrupts succeeds");
                false
            }
        };
        n.rmode = 1;
        n.wmode = 1;
        n.split_max = 300;
        n.splits = sym::param(2) as u32;
        let fine;
        match how {
            0 => {
                n.pend = 1;
                fine = match first_wait(call(&mut item, kind, names[round])) {
                    End::Ready(r) => own(r, true),
                    End::Dropped => false,
                };
            }
            1 => {
                n.pend = 1;
                n.timers = 1;
                n.timer_polls = 0;
                fine = own(block(call(&mut item, kind, names[round])), net().pend == 1);
            }
            2 => {
                n.fails = 1;
                let r = block(call(&mut item, kind, names[round]));
                fine = own(r, net().fails == 1);
            }
            _ => {
                n.closed = true;
                CUT.store(0, Ordering::Relaxed);
                n.hook = Some(Box::new(|n| {
                    if CUT.load(Ordering::Relaxed) == 0 && serve(n) {
                        let all = n.inc.len() - n.pos;
                        let k = sym::choose(all + 1);
                        if k < all {
                            CUT.store(1, Ordering::Relaxed);
                            n.inc.truncate(n.pos + k);
                        }
                    }
                    true
                }));
                let r = block(call(&mut item, kind, names[round]));
                fine = own(r, CUT.load(Ordering::Relaxed) == 0);
                n.closed = false;
                n.hook = Some(Box::new(serve));
            }
        }
        cover(if fine { "not interrupted" } else { "interrupted" });
        replaced += !fine as u32;
        calm();
        // who waits for it
        let woken = [Arc::new(Count(AtomicU32::new(0))), Arc::new(Count(AtomicU32::new(0)))];
        let mut waiting = vec![];
        let wait = sym::param(4);
        for w in woken.iter().take([0, 1, 1, 2][wait as usize]) {
            let mut f = pool.get();
            let w = Waker::from(Arc::clone(w));
            chk(f.as_mut().poll(&mut Context::from_waker(&w)).is_pending(), "no more connections exist than the pool may hold");
            waiting.push(f);
        }
        if wait == 2 {
            waiting.clear();
        }
        drop(item);
        if wait == 1 || wait == 3 {
            chk(woken[0].0.load(Ordering::Relaxed) > 0, "who waits for a connection is woken");
        }
        let mut second = None;
        let next = if waiting.is_empty() {
            block(pool.get())
        } else {
            if waiting.len() == 2 {
                second = waiting.pop();
            }
            block(waiting.remove(0))
        };
        item = match next {
            Ok(c) => c,
            Err(_) => return chk(false, "a pool whose connections were all given back gives one"),
        };
        let (connects, drops) = count();
        chk(connects - drops == 1, "no more connections exist than the pool may hold");
        chk(connects <= 1 + replaced, "what nothing interrupted is used again, what was interrupted is replaced");
        if let Some(f) = second {
            // the first one does not need it after all
            let before = woken[1].0.load(Ordering::Relaxed);
            let mut f = f;
            let w = Waker::from(Arc::clone(&woken[1]));
            chk(f.as_mut().poll(&mut Context::from_waker(&w)).is_pending(), "no more connections exist than the pool may hold");
            drop(item);
            chk(woken[1].0.load(Ordering::Relaxed) > before, "who waits for a connection is woken");
            item = match block(f) {
                Ok(c) => c,
                Err(_) => return chk(false, "a pool whose connections were all given back gives one"),
            };
            chk(count() == (connects, drops), "what nothing interrupted is used again, what was interrupted is replaced");
        }
        let kind = sym::param(5);
        let text = ["third", "fourth"][round];
        let want = teach(caps, kind, text, 3 + 2 * round as u8);
        match try_block(call(&mut item, kind, text)) {
            Some(Ok(v)) => {
                chk(v == want, "a call returns its own answer");
                cover("next call answered");
            }
            _ => chk(false, "the connections of a pool can be used"),
        }
    }
    let n = net();
    serve(n);
    chk(n.out_pos == n.out.len(), "nothing but whole commands is sent");
}
