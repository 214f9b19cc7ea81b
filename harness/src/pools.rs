//! Pools: histories of users, cancellations and failures; interleavings of threads.
use crate::sym::{self, chk, cover};
use mysql_connector::pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem, SyncPool, SyncPoolContent, VecPoolCtx};
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

/// C26: buffers. param0: steps, param1: users
#[no_mangle]
#[inline(never)]
pub fn h_buffers() {
    const CAP: usize = 16;
    const INIT: usize = 4;
    let users = sym::param(1) as usize;
    let pool = Box::leak(Box::new(SyncPool::<Vec<u8>, 2>::new(VecPoolCtx { size_cap: CAP, init_size: INIT })));
    let mut held: Vec<Option<PoolItem<'static, Vec<u8>>>> = (0..users).map(|_| None).collect();
    for _ in 0..sym::param(0) {
        let u = sym::choose(users);
        match &mut held[u] {
            None => {
                let b = pool.get();
                chk(b.is_empty(), "a buffer is empty");
                chk(b.capacity() <= CAP, "a buffer keeps no more than the cap");
                for o in held.iter().flatten() {
                    chk(b.as_ptr() != o.as_ptr(), "a buffer has one user");
                }
                held[u] = Some(b);
            }
            Some(b) => match sym::choose(5) {
                0 => held[u] = None,
                1 => b.extend_from_slice(&[u as u8 + 1, sym::u8()]),
                2 => b.resize(100, 9),
                3 => b.clear(),
                _ => b.resize(17, 9),
            },
        }
    }
    cover("buffers used");
}

static mut LIVE: i64 = 0;
static mut MOST: i64 = 0;

struct Thing {
    clean: bool,
    users: u32,
}
impl SyncPoolContent for Thing {
    type Ctx = u32;
    fn new(ctx: &u32) -> Self {
        chk(*ctx == 7, "the pool's settings are used");
        unsafe {
            LIVE += 1;
            MOST = MOST.max(LIVE);
        }
        Thing { clean: true, users: 0 }
    }
    fn reset(&mut self, ctx: &u32) {
        chk(*ctx == 7, "the pool's settings are used");
        chk(self.users == 0, "only returned items are reset");
        self.clean = true;
    }
}
impl Drop for Thing {
    fn drop(&mut self) {
        unsafe { LIVE -= 1 }
    }
}

/// C26: other contents: reset before they are handed out again, no more kept than the pool's size.
/// param0: steps, param1: users
#[no_mangle]
#[inline(never)]
pub fn h_things() {
    unsafe {
        LIVE = 0;
    }
    let users = sym::param(1) as usize;
    let pool = Box::leak(Box::new(SyncPool::<Thing, 2>::new(7)));
    let mut held: Vec<Option<PoolItem<'static, Thing>>> = (0..users).map(|_| None).collect();
    let mut out = 0;
    for _ in 0..sym::param(0) {
        let u = sym::choose(users);
        match held[u].take() {
            None => {
                let idle = unsafe { LIVE } - out;
                let mut t = pool.get();
                chk(t.clean && t.users == 0, "an item is reset and has one user");
                t.clean = false;
                t.users += 1;
                out += 1;
                chk(unsafe { LIVE } - out <= 2, "the pool keeps no more than its size");
                chk(idle == 0 || unsafe { LIVE } - out == idle - 1, "kept items are used");
                held[u] = Some(t);
            }
            Some(mut t) => {
                chk(t.users == 1, "an item has one user");
                t.users -= 1;
                out -= 1;
                drop(t);
                chk(unsafe { LIVE } - out <= 2, "the pool keeps no more than its size");
            }
        }
    }
    for mut t in held.into_iter().flatten() {
        t.users -= 1;
    }
    chk(unsafe { LIVE } <= 2, "the pool keeps no more than its size");
    cover("things used");
}

/// C26: threads that take and return items. param0: threads, param1: rounds each
#[no_mangle]
#[inline(never)]
pub fn h_things_threads() {
    static mut POOL: Option<&'static SyncPool<Thing, 2>> = None;
    extern "C" fn user(rounds: u64) {
        for _ in 0..rounds {
            let mut t = unsafe { POOL }.unwrap().get();
            chk(t.clean && t.users == 0, "an item is reset and has one user");
            t.clean = false;
            t.users += 1;
            sym::pause();
            chk(t.users == 1 && !t.clean, "an item has one user");
            t.users -= 1;
        }
    }
    unsafe {
        LIVE = 0;
        POOL = Some(Box::leak(Box::new(SyncPool::new(7))));
    }
    let ts: Vec<u64> = (0..sym::param(0)).map(|_| sym::spawn(user, sym::param(1))).collect();
    for t in ts {
        sym::join(t);
    }
    chk(unsafe { LIVE } <= 2 && unsafe { LIVE } >= 1, "the pool keeps no more than its size");
    cover("threads used things");
}

// --- the async pool

const MAX: usize = 4;
struct World {
    size: i64,
    /// items that exist, that are with users, whose creation is under way
    live: i64,
    held: i64,
    making: i64,
    /// the task being polled
    task: usize,
    /// tasks whose get is creating an item
    maker: [bool; MAX],
    woken: [bool; MAX],
    failed: [bool; MAX],
    /// creations may still be pending, may still fail
    pend: u32,
    fail: u32,
    reuse: bool,
    next: u32,
}
static mut WORLD: World = World { size: 0, live: 0, held: 0, making: 0, task: 0, maker: [false; MAX], woken: [false; MAX], failed: [false; MAX], pend: 0, fail: 0, reuse: true, next: 0 };

fn world() -> &'static mut World {
    unsafe { &mut *std::ptr::addr_of_mut!(WORLD) }
}

struct Conn {
    used: bool,
    id: u32,
}
#[derive(Debug)]
struct Refused(usize);

impl AsyncPoolContentError for Conn {
    type Error = Refused;
}
struct Making {
    task: usize,
    done: bool,
}
impl Future for Making {
    type Output = Result<Conn, Refused>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let w = world();
        chk(!self.done, "a creation is not polled after its end");
        if w.pend > 0 && sym::choose(2) == 1 {
            w.pend -= 1;
            // (whoever created it is polled again at some time)
            w.woken[self.task] = true;
            return Poll::Pending;
        }
        self.done = true;
        w.making -= 1;
        w.maker[self.task] = false;
        if w.fail > 0 && sym::choose(2) == 1 {
            w.fail -= 1;
            w.failed[self.task] = true;
            return Poll::Ready(Err(Refused(self.task)));
        }
        w.live += 1;
        w.next += 1;
        chk(w.live <= w.size, "there are no more items than the pool's size");
        Poll::Ready(Ok(Conn { used: false, id: w.next }))
    }
}
impl Drop for Making {
    fn drop(&mut self) {
        if !self.done {
            let w = world();
            w.making -= 1;
            w.maker[self.task] = false;
        }
    }
}
impl Drop for Conn {
    fn drop(&mut self) {
        world().live -= 1;
    }
}
impl AsyncPoolContent<()> for Conn {
    type Ctx = u32;
    fn new<'a>(ctx: &'a u32) -> Pin<Box<dyn Future<Output = Result<Self, Refused>> + 'a>> {
        let w = world();
        chk(*ctx == 7, "the pool's settings are used");
        if w.reuse {
            chk(w.live == w.held, "items that were returned are used before new ones are made");
        }
        w.making += 1;
        w.maker[w.task] = true;
        Box::pin(Making { task: w.task, done: false })
    }
}

fn waker(task: usize) -> Waker {
    unsafe fn clone(p: *const ()) -> RawWaker {
        RawWaker::new(p, &VT)
    }
    unsafe fn wake(p: *const ()) {
        world().woken[p as usize - 1] = true;
    }
    const VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, |_| {});
    // (not a null pointer: wakers are told apart by it)
    unsafe { Waker::from_raw(RawWaker::new((task + 1) as *const (), &VT)) }
}

type Get = Pin<Box<dyn Future<Output = Result<PoolItem<'static, Conn>, Refused>>>>;
enum Slot {
    Idle,
    Waits(Get),
    Has(PoolItem<'static, Conn>),
}

/// Polls a task's get once.
fn poll_once(slot: &mut Slot, t: usize) {
    let w = world();
    w.task = t;
    w.woken[t] = false;
    w.failed[t] = false;
    let wk = waker(t);
    let mut cx = Context::from_waker(&wk);
    if let Slot::Waits(f) = slot {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(Ok(mut i)) => {
                chk(!i.used, "an item has one user");
                chk(!w.failed[t], "a failed creation is reported to the get that started it");
                i.used = true;
                w.held += 1;
                *slot = Slot::Has(i);
                cover("served");
            }
            Poll::Ready(Err(Refused(x))) => {
                chk(x == t && w.failed[t], "an error is the error of the get's own creation");
                w.failed[t] = false;
                *slot = Slot::Idle;
                cover("refused");
            }
            Poll::Pending => chk(!w.failed[t], "a failed creation is reported to the get that started it"),
        }
    }
}

fn give_back(slot: &mut Slot) {
    if let Slot::Has(mut i) = std::mem::replace(slot, Slot::Idle) {
        chk(i.used, "an item has one user");
        let _ = i.id;
        i.used = false;
        world().held -= 1;
        drop(i);
    }
}

/// Tasks that were woken are polled until none is left; then nobody may wait for something that is there.
fn settle(slots: &mut [Slot]) {
    let w = world();
    w.pend = 0;
    w.fail = 0;
    for _ in 0..3 * slots.len() {
        for t in 0..slots.len() {
            if matches!(slots[t], Slot::Waits(_)) && w.woken[t] {
                poll_once(&mut slots[t], t);
            }
        }
    }
    let waiting = slots.iter().filter(|s| matches!(s, Slot::Waits(_))).count();
    if waiting > 0 {
        cover("still waiting");
        chk(w.held + w.making >= w.size, "nobody waits while an item or a slot is there");
    }
}

fn begin(size: u64) -> Pool {
    let w = world();
    *w = World { size: size as i64, live: 0, held: 0, making: 0, task: 0, maker: [false; MAX], woken: [false; MAX], failed: [false; MAX], pend: 0, fail: 0, reuse: true, next: 0 };
    match size {
        1 => Box::leak(Box::new(AsyncPool::<Conn, (), 1>::new(7))),
        2 => Box::leak(Box::new(AsyncPool::<Conn, (), 2>::new(7))),
        _ => Box::leak(Box::new(AsyncPool::<Conn, (), 3>::new(7))),
    }
}
type Pool = &'static dyn AsyncPoolTrait<Conn>;

/// C27, C28: histories of tasks. param0: steps, param1: tasks, param2: size, param3: pendings,
/// param4: failures of creations, param5: 1: wakes of the last waiting are followed up after every step
#[no_mangle]
#[inline(never)]
pub fn h_pool() {
    let pool = begin(sym::param(2));
    let w = world();
    w.pend = sym::param(3) as u32;
    w.fail = sym::param(4) as u32;
    let n = sym::param(1) as usize;
    let mut slots: Vec<Slot> = (0..n).map(|_| Slot::Idle).collect();
    for _ in 0..sym::param(0) {
        let t = sym::choose(n);
        match &mut slots[t] {
            Slot::Idle => {
                slots[t] = Slot::Waits(pool.get());
                poll_once(&mut slots[t], t);
            }
            Slot::Waits(_) => {
                if sym::choose(2) == 0 {
                    poll_once(&mut slots[t], t);
                } else {
                    slots[t] = Slot::Idle;
                    world().woken[t] = false;
                    cover("cancelled");
                }
            }
            Slot::Has(_) => give_back(&mut slots[t]),
        }
        chk(w.live <= w.size, "there are no more items than the pool's size");
        chk(w.live >= w.held, "items are not lost");
    }
    settle(&mut slots);
    // whoever waits gets the items that are returned
    for t in 0..n {
        give_back(&mut slots[t]);
        settle(&mut slots);
    }
    for t in 0..n {
        give_back(&mut slots[t]);
        settle(&mut slots);
    }
    for s in &slots {
        chk(!matches!(s, Slot::Waits(_)), "everyone is served at last");
    }
    cover("history");
}

static mut SLOTS: [Slot; MAX] = [Slot::Idle, Slot::Idle, Slot::Idle, Slot::Idle];
static mut POOL: Option<Pool> = None;
fn slot(t: usize) -> &'static mut Slot {
    unsafe { &mut *std::ptr::addr_of_mut!(SLOTS[t]) }
}

/// asks for an item
extern "C" fn asks(t: u64) {
    let t = t as usize;
    *slot(t) = Slot::Waits(unsafe { POOL }.unwrap().get());
    poll_here(t);
}
/// Like `poll_once`, for threads: the polled task is not global.
fn poll_here(t: usize) {
    let w = world();
    w.woken[t] = false;
    let wk = waker(t);
    let mut cx = Context::from_waker(&wk);
    let s = slot(t);
    if let Slot::Waits(f) = s {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(Ok(mut i)) => {
                chk(!i.used, "an item has one user");
                i.used = true;
                w.held += 1;
                *s = Slot::Has(i);
            }
            Poll::Ready(Err(_)) => *s = Slot::Idle,
            Poll::Pending => {}
        }
    }
}
/// gives its item back or cancels its get
extern "C" fn leaves(t: u64) {
    let t = t as usize;
    give_back(slot(t));
    *slot(t) = Slot::Idle;
}
extern "C" fn asks_and_leaves(t: u64) {
    asks(t);
    if matches!(slot(t as usize), Slot::Has(_)) {
        leaves(t);
    }
}
extern "C" fn polls(t: u64) {
    poll_here(t as usize);
}

/// C27, C28: threads. param0: what they do, param1: size
#[no_mangle]
#[inline(never)]
pub fn h_pool_threads() {
    for t in 0..MAX {
        *slot(t) = Slot::Idle;
    }
    let size = sym::param(1);
    let pool = begin(size);
    let w = world();
    w.reuse = false;
    unsafe { POOL = Some(pool) };
    let what = sym::param(0);
    // (creations of tasks other than 0 complete at once)
    let mut ts = vec![];
    match what {
        // an item is returned while others ask
        0 | 1 => {
            asks(0);
            for t in 1..size {
                asks(3);
                let _ = t;
            }
            ts.push(sym::spawn(asks, 1));
            if what == 1 {
                ts.push(sym::spawn(asks, 2));
            }
            ts.push(sym::spawn(leaves, 0));
        }
        // a creation is cancelled while another asks
        2 => {
            w.pend = 1;
            asks(0);
            w.pend = 0;
            if matches!(slot(0), Slot::Waits(_)) {
                cover("creating");
            }
            ts.push(sym::spawn(asks, 1));
            ts.push(sym::spawn(leaves, 0));
        }
        // a creation fails while another asks
        3 => {
            w.pend = 1;
            asks(0);
            w.pend = 0;
            w.fail = 1;
            ts.push(sym::spawn(polls, 0));
            ts.push(sym::spawn(asks, 1));
        }
        // an empty pool is asked by several
        4 => {
            for t in 0..3 {
                ts.push(sym::spawn(asks, t));
            }
        }
        // items come and go
        _ => {
            ts.push(sym::spawn(asks_and_leaves, 0));
            ts.push(sym::spawn(asks_and_leaves, 1));
            ts.push(sym::spawn(asks, 2));
        }
    }
    for t in ts {
        sym::join(t);
    }
    chk(w.live <= w.size, "there are no more items than the pool's size");
    let slots = unsafe { &mut *std::ptr::addr_of_mut!(SLOTS) };
    settle(slots);
    for t in 0..MAX {
        give_back(&mut slots[t]);
        settle(slots);
    }
    for t in 0..MAX {
        give_back(&mut slots[t]);
        settle(slots);
    }
    for s in slots.iter() {
        chk(!matches!(s, Slot::Waits(_)), "everyone is served at last");
    }
    cover("threads done");
}
