//! Symbolic primitives. In the symbolic build these are externs the engine interprets; with the
//! feature `replay` they are native functions that read a recorded input.

#[cfg(not(feature = "replay"))]
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: u64);
        pub fn sym_param(k: u64) -> u64;
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: u64);
        pub fn sym_fail(p: *const u8, n: u64);
        pub fn sym_cover(p: *const u8, n: u64);
        pub fn sym_observe(p: *const u8, n: u64);
        pub fn sym_conc(x: u64) -> u64;
        pub fn sym_expect_panic(c: bool);
        pub fn sym_live() -> u64;
        pub fn sym_alloc_limit(n: u64);
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_spawn(f: extern "C" fn(u64), arg: u64) -> u64;
        pub fn sym_join(t: u64);
        pub fn sym_yield();
    }
}

#[cfg(feature = "replay")]
pub mod raw {
    use std::cell::RefCell;
    pub struct St {
        pub input: Vec<u8>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub observed: Vec<u8>,
        pub covers: Vec<String>,
        pub fails: Vec<String>,
        pub infeasible: bool,
    }
    thread_local! { pub static ST: RefCell<St> = const { RefCell::new(St { input: Vec::new(), pos: 0, params: Vec::new(), observed: Vec::new(), covers: Vec::new(), fails: Vec::new(), infeasible: false }) } }
    pub struct Stop;
    fn txt(p: *const u8, n: u64) -> String {
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n as usize) }).into_owned()
    }
    fn byte() -> u8 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let b = s.input.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            b
        })
    }
    pub unsafe fn sym_bytes(p: *mut u8, n: u64) {
        for i in 0..n as usize {
            *p.add(i) = byte();
        }
    }
    pub unsafe fn sym_param(k: u64) -> u64 {
        ST.with(|s| s.borrow().params.get(k as usize).copied().unwrap_or(0))
    }
    pub unsafe fn sym_choose(n: u64) -> u64 {
        let b = byte() as u64;
        if b < n {
            b
        } else {
            0
        }
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            ST.with(|s| s.borrow_mut().infeasible = true);
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    pub unsafe fn sym_assert(c: bool, p: *const u8, n: u64) {
        if !c {
            let t = txt(p, n);
            ST.with(|s| s.borrow_mut().fails.push(t));
        }
    }
    pub unsafe fn sym_fail(p: *const u8, n: u64) {
        let t = txt(p, n);
        ST.with(|s| s.borrow_mut().covers.push(format!("inconclusive:{t}")));
        std::panic::resume_unwind(Box::new(Stop));
    }
    pub unsafe fn sym_cover(p: *const u8, n: u64) {
        let t = txt(p, n);
        ST.with(|s| {
            let mut s = s.borrow_mut();
            if !s.covers.contains(&t) {
                s.covers.push(t)
            }
        });
    }
    pub unsafe fn sym_observe(p: *const u8, n: u64) {
        let v = std::slice::from_raw_parts(p, n as usize).to_vec();
        ST.with(|s| s.borrow_mut().observed.extend_from_slice(&v));
    }
    pub unsafe fn sym_conc(x: u64) -> u64 {
        x
    }
    pub static EXPECT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub unsafe fn sym_expect_panic(c: bool) {
        EXPECT.store(c, Relaxed);
    }
    pub unsafe fn sym_live() -> u64 {
        LIVE.load(Relaxed) as u64
    }
    pub unsafe fn sym_alloc_limit(n: u64) {
        LIMIT.store(n as usize, Relaxed);
    }

    // allocations are counted, so that memory out of proportion is seen natively too
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static LIMIT: AtomicUsize = AtomicUsize::new(0);
    pub static OVER: AtomicUsize = AtomicUsize::new(0);
    pub struct Counting;
    fn note(n: usize) {
        let l = LIMIT.load(Relaxed);
        if l > 0 && n > l {
            OVER.store(n, Relaxed);
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note(l.size());
            LIVE.fetch_add(1, Relaxed);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note(l.size());
            LIVE.fetch_add(1, Relaxed);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            note(n);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub unsafe fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub unsafe fn sym_and(a: bool, b: bool) -> bool {
        a & b
    }
    /// Natively a spawned thread runs at once; schedules are replayed by the engine.
    pub unsafe fn sym_spawn(f: extern "C" fn(u64), arg: u64) -> u64 {
        f(arg);
        0
    }
    pub unsafe fn sym_join(_t: u64) {}
    pub unsafe fn sym_yield() {}
}

pub fn fill(b: &mut [u8]) {
    unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len() as u64) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn bool() -> bool {
    u8() & 1 == 1
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn param(k: u64) -> u64 {
    unsafe { raw::sym_param(k) }
}
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { raw::sym_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
#[inline(never)]
pub fn chk(c: bool, what: &str) {
    unsafe { raw::sym_assert(c, what.as_ptr(), what.len() as u64) }
}
#[inline(never)]
pub fn cover(what: &str) {
    unsafe { raw::sym_cover(what.as_ptr(), what.len() as u64) }
}
#[inline(never)]
pub fn inconclusive(what: &str) -> ! {
    unsafe { raw::sym_fail(what.as_ptr(), what.len() as u64) };
    std::process::abort()
}
/// A single allocation larger than this violates the property (0: no limit).
pub fn alloc_limit(n: u64) {
    unsafe { raw::sym_alloc_limit(n) }
}
pub fn observe(b: &[u8]) {
    unsafe { raw::sym_observe(b.as_ptr(), b.len() as u64) }
}
pub fn conc(x: usize) -> usize {
    unsafe { raw::sym_conc(x as u64) as usize }
}
/// No forks on `c`.
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { raw::sym_ite(c, a, b) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { raw::sym_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    !and(!a, !b)
}
pub fn implies(a: bool, b: bool) -> bool {
    or(!a, b)
}
#[allow(dead_code)]
pub fn spawn(f: extern "C" fn(u64), arg: u64) -> u64 {
    unsafe { raw::sym_spawn(f, arg) }
}
#[allow(dead_code)]
pub fn join(t: u64) {
    unsafe { raw::sym_join(t) }
}
/// Equality of contents as one term (no early exit).
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() > 1 << 20 {
        // (byte for byte takes too many steps)
        return a == b;
    }
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// Threads: another thread may go on here.
pub fn pause() {
    unsafe { raw::sym_yield() }
}

/// From here on a panic is an orderly end.
pub fn expect_panic() {
    unsafe { raw::sym_expect_panic(true) }
}
