//! Symbolic executor: explores every path of a harness over the compiled IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub dst: u32, // destination register in the caller
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TStat {
    Run,
    Futex(u64),
    Yield,
    Join(u32),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stat: TStat,
}

#[derive(Clone, Copy, Debug)]
pub enum Inp {
    Var(u32),
    Const(u8),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub others: Vec<Thread>, // slot cur holds a hollow entry
    pub cur: usize,
    pub preempts: u32,
    pub sched: Vec<u8>,
    pub no_sched_once: bool,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free_ids: Vec<u32>,
    pub globs: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub fixed: FxMap<E, u128>,
    pub dom: FxMap<u32, [u64; 4]>,
    pub fixed_set: Vec<u64>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub inputs: Vec<Inp>,
    pub covers: Vec<u32>,
    pub observed: Vec<(u8, E)>,
    pub steps: u64,
    pub depth: u32,
    pub live_heap: u64,
    pub expect_panic: bool,
    pub rand_ctr: u64,
    pub alloc_bytes: u64,
    pub alloc_limit: u64,
    pub atomics: u64,
    /// hash computations on symbolic values: function, inputs, first variable of the output
    pub hashes: Vec<(bool, Rc<Vec<E>>, u32)>,
    /// inputs of hash computations on concrete values
    pub hashed: Vec<(bool, Rc<Vec<u8>>)>,
}

pub enum Stop {
    PathEnd,
    Infeasible,
    Violation(String, String),
    Truncated(String),
    Inconclusive(String),
}
type R<T> = Result<T, Stop>;

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub time_s: f64,
    pub max_mb: u64,
    pub max_violations: usize,
    pub samples: usize,
    pub max_preempts: u32,
    pub verbose: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ext {
    None,
    Intr(I),
    Panic,
    SymBytes,
    SymParam,
    SymChoose,
    SymAssume,
    SymAssert,
    SymCover,
    SymObserve,
    SymConc,
    SymExpectPanic,
    SymNVars,
    SymLive,
    SymAllocLimit,
    SymIte,
    SymSpawn,
    SymJoin,
    SymYield,
    SymAnd,
    SymFail,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Write,
    Getenv,
    Syscall,
    Getrandom,
    Errno,
    Abort,
    ClockGettime,
    Zero,
    SchedYield,
    Hash(bool),
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum I {
    Memcpy,
    Memset,
    Nop,
    Pause,
    Assume,
    Expect,
    Umin,
    Umax,
    Smin,
    Smax,
    UsubSat,
    UaddSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Fshl,
    Fshr,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Abs,
    Fabs,
    Ucmp,
    Scmp,
    Tls,
    IsConst,
    LoadRel,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    FpToUiSat,
    FpToSiSat,
    PtrMask,
    Unknown,
}

#[derive(Clone, Copy, Debug)]
enum Oref {
    Heap(u32),
    Glob(u32),
}

pub struct Viol {
    pub kind: String,
    pub label: String,
    pub trace: Vec<String>,
    pub input: Vec<u8>,
    pub sched: Vec<u8>,
    pub count: u64,
    pub covers: Vec<String>,
}
pub struct Sample {
    pub input: Vec<u8>,
    pub observed: Vec<u8>,
    pub covers: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub truncated: BTreeMap<String, u64>,
    pub inconclusive: BTreeMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_folded: u64,
    pub asserts_smt: u64,
    pub assert_unknown: u64,
    pub branch_smt: u64,
    pub branch_dom: u64,
    pub branch_cache: u64,
    pub conc: u64,
    pub max_pc: usize,
    pub max_vars: u32,
    pub max_steps_path: u64,
    pub max_depth: u32,
    pub complete: bool,
    pub sched_points: u64,
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub smt: Smt,
    pub cfg: Cfg,
    funcs: Vec<Option<&'static Func>>,
    ext: Vec<Ext>,
    gl_base: Vec<Option<Rc<Obj>>>,
    work: Vec<State>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    violmap: HashMap<String, usize>,
    pub samples: Vec<Sample>,
    pub covers: Vec<String>,
    covermap: HashMap<String, u32>,
    pub cover_count: Vec<u64>,
    qcache: HashMap<Box<[E]>, Option<Rc<Vec<(u32, u8)>>>>,
    domcache: FxMap<E, [u64; 4]>,
    eval_model: Option<Rc<Vec<u8>>>,
    recent: Vec<Rc<Vec<u8>>>,
    pub used: Vec<bool>,
    start: Instant,
    rng: u64,
    errno_addr: u64,
}

const ALLOC_FAIL: u64 = 1 << 40;
const ALLOC_TRUNC: u64 = 1 << 28;

fn intrinsic(n: &str) -> I {
    let pre = |s: &str| n.starts_with(s);
    if pre("llvm.memcpy") || pre("llvm.memmove") {
        I::Memcpy
    } else if pre("llvm.memset") {
        I::Memset
    } else if pre("llvm.lifetime")
        || pre("llvm.experimental.noalias")
        || pre("llvm.dbg")
        || pre("llvm.prefetch")
    {
        I::Nop
    } else if pre("llvm.x86.sse2.pause") || pre("llvm.aarch64.isb") {
        I::Pause
    } else if pre("llvm.assume") {
        I::Assume
    } else if pre("llvm.expect") {
        I::Expect
    } else if pre("llvm.umin") {
        I::Umin
    } else if pre("llvm.umax") {
        I::Umax
    } else if pre("llvm.smin") {
        I::Smin
    } else if pre("llvm.smax") {
        I::Smax
    } else if pre("llvm.usub.sat") {
        I::UsubSat
    } else if pre("llvm.uadd.sat") {
        I::UaddSat
    } else if pre("llvm.sadd.sat") {
        I::SaddSat
    } else if pre("llvm.ssub.sat") {
        I::SsubSat
    } else if pre("llvm.uadd.with.overflow") {
        I::UaddO
    } else if pre("llvm.usub.with.overflow") {
        I::UsubO
    } else if pre("llvm.umul.with.overflow") {
        I::UmulO
    } else if pre("llvm.sadd.with.overflow") {
        I::SaddO
    } else if pre("llvm.ssub.with.overflow") {
        I::SsubO
    } else if pre("llvm.smul.with.overflow") {
        I::SmulO
    } else if pre("llvm.fshl") {
        I::Fshl
    } else if pre("llvm.fshr") {
        I::Fshr
    } else if pre("llvm.ctpop") {
        I::Ctpop
    } else if pre("llvm.ctlz") {
        I::Ctlz
    } else if pre("llvm.cttz") {
        I::Cttz
    } else if pre("llvm.bswap") {
        I::Bswap
    } else if pre("llvm.bitreverse") {
        I::Bitrev
    } else if pre("llvm.abs") {
        I::Abs
    } else if pre("llvm.fabs") {
        I::Fabs
    } else if pre("llvm.ucmp") {
        I::Ucmp
    } else if pre("llvm.scmp") {
        I::Scmp
    } else if pre("llvm.threadlocal.address") {
        I::Tls
    } else if pre("llvm.is.constant") {
        I::IsConst
    } else if pre("llvm.load.relative") {
        I::LoadRel
    } else if pre("llvm.trap") || pre("llvm.ubsantrap") {
        I::Trap
    } else if pre("llvm.vector.reduce.or") {
        I::ReduceOr
    } else if pre("llvm.vector.reduce.and") {
        I::ReduceAnd
    } else if pre("llvm.vector.reduce.add") {
        I::ReduceAdd
    } else if pre("llvm.fptoui.sat") {
        I::FpToUiSat
    } else if pre("llvm.fptosi.sat") {
        I::FpToSiSat
    } else if pre("llvm.ptrmask") {
        I::PtrMask
    } else {
        I::Unknown
    }
}

fn classify(n: &str, has_body: bool) -> Ext {
    if n.contains("4core9panicking") {
        return Ext::Panic;
    }
    if n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("panic_with_hook")) {
        return Ext::Panic;
    }
    match n {
        "sym_bytes" => return Ext::SymBytes,
        "sym_param" => return Ext::SymParam,
        "sym_choose" => return Ext::SymChoose,
        "sym_assume" => return Ext::SymAssume,
        "sym_assert" => return Ext::SymAssert,
        "sym_cover" => return Ext::SymCover,
        "sym_observe" => return Ext::SymObserve,
        "sym_conc" => return Ext::SymConc,
        "sym_expect_panic" => return Ext::SymExpectPanic,
        "sym_nvars" => return Ext::SymNVars,
        "sym_live" => return Ext::SymLive,
        "sym_alloc_limit" => return Ext::SymAllocLimit,
        "sym_ite" => return Ext::SymIte,
        "sym_and" => return Ext::SymAnd,
        "sym_spawn" => return Ext::SymSpawn,
        "sym_join" => return Ext::SymJoin,
        "sym_yield" => return Ext::SymYield,
        "sym_fail" => return Ext::SymFail,
        _ => {}
    }
    if n.starts_with("llvm.") {
        return Ext::Intr(intrinsic(n));
    }
    if has_body && n.contains("4sha18compress8compress") && n.starts_with("_RNvNtC") {
        return Ext::Hash(false);
    }
    if has_body && n.contains("4sha26sha25611compress256") && n.starts_with("_RNvNtC") {
        return Ext::Hash(true);
    }
    if has_body && n != "memcpy" && n != "memmove" && n != "memset" && n != "bcmp" && n != "memcmp" {
        return Ext::None;
    }
    match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::Memalign,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "write" => Ext::Write,
        "getenv" => Ext::Getenv,
        "syscall" => Ext::Syscall,
        "getrandom" => Ext::Getrandom,
        "__errno_location" => Ext::Errno,
        "abort" => Ext::Abort,
        "clock_gettime" => Ext::ClockGettime,
        "__cxa_thread_atexit_impl" => Ext::Zero,
        "sched_yield" => Ext::SchedYield,
        _ => Ext::Unknown,
    }
}

fn bit(d: &[u64; 4], v: u8) -> bool {
    d[v as usize / 64] >> (v % 64) & 1 == 1
}

impl Engine {
    pub fn new(text: String, cfg: Cfg, smt: Smt) -> Engine {
        let m = Module::load(text);
        let nf = m.fns.len();
        let ext = m.fns.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        let ng = m.globals.len();
        Engine {
            m,
            p: Pool::new(),
            smt,
            cfg,
            funcs: vec![None; nf],
            ext,
            gl_base: vec![None; ng],
            work: vec![],
            stats: Stats::default(),
            viols: vec![],
            violmap: HashMap::new(),
            samples: vec![],
            covers: vec![],
            covermap: HashMap::new(),
            cover_count: vec![],
            qcache: HashMap::new(),
            domcache: Default::default(),
            eval_model: None,
            recent: vec![],
            used: vec![false; nf],
            start: Instant::now(),
            rng: 0x9E3779B97F4A7C15,
            errno_addr: 0,
        }
    }

    /// The blocks that were entered: one line per function.
    pub fn coverage(&self) -> String {
        let mut o = String::new();
        for f in self.funcs.iter().flatten() {
            o.push_str(&f.name);
            for (i, h) in f.hits.iter().enumerate() {
                if h.load(std::sync::atomic::Ordering::Relaxed) {
                    o.push_str(&format!(" {i}"));
                }
            }
            o.push('\n');
        }
        o
    }

    fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f = self.m.parse_fn(&mut self.p, id);
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize] = Some(f);
        self.used[id as usize] = true;
        f
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let id = *self.m.fnmap.get(entry).ok_or_else(|| format!("no function {entry}"))?;
        let f = self.func(id);
        let st = State {
            frames: vec![Frame { func: f, blk: 0, ip: 0, dst: NODST, regs: vec![Val::C(0); f.nregs as usize], allocas: vec![] }],
            others: vec![Thread { frames: vec![], stat: TStat::Run }],
            cur: 0,
            preempts: 0,
            sched: vec![],
            no_sched_once: false,
            objs: vec![None, None],
            free_ids: vec![],
            globs: Default::default(),
            pc: vec![],
            fixed: Default::default(),
            dom: Default::default(),
            fixed_set: vec![],
            model: Rc::new(vec![]),
            nvars: 0,
            inputs: vec![],
            covers: vec![],
            observed: vec![],
            steps: 0,
            depth: 0,
            live_heap: 0,
            expect_panic: false,
            rand_ctr: 0,
            alloc_bytes: 0,
            alloc_limit: 0,
            atomics: 0,
            hashes: vec![],
            hashed: vec![],
        };
        self.work.push(st);
        self.stats.complete = true;
        let mut turns = 0u32;
        while let Some(mut st) = self.work.pop() {
            turns += 1;
            if turns % 64 == 0 && resident_mb() > self.cfg.max_mb {
                self.stats.complete = false;
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.time_s {
                self.stats.complete = false;
                break;
            }
            if self.viols.len() >= self.cfg.max_violations {
                self.stats.complete = false;
                break;
            }
            let r = self.exec(&mut st);
            self.stats.steps += st.steps;
            self.stats.max_pc = self.stats.max_pc.max(st.pc.len());
            self.stats.max_vars = self.stats.max_vars.max(st.nvars);
            self.stats.max_steps_path = self.stats.max_steps_path.max(st.steps);
            self.stats.max_depth = self.stats.max_depth.max(st.depth);
            match r {
                Stop::PathEnd => {
                    self.stats.paths += 1;
                    for c in &st.covers {
                        self.cover_count[*c as usize] += 1;
                    }
                    if self.repair(&mut st, None) {
                        self.sample(&st);
                    }
                }
                Stop::Infeasible => self.stats.infeasible += 1,
                Stop::Truncated(s) => {
                    *self.stats.truncated.entry(s).or_default() += 1;
                }
                Stop::Inconclusive(s) => {
                    *self.stats.inconclusive.entry(s).or_default() += 1;
                }
                Stop::Violation(k, l) => {
                    self.stats.paths += 1;
                    for c in &st.covers {
                        self.cover_count[*c as usize] += 1;
                    }
                    self.repair(&mut st, None);
                    self.violation(&st, k, l);
                }
            }
        }
        Ok(())
    }

    fn witness(&self, st: &State) -> Vec<u8> {
        st.inputs
            .iter()
            .map(|i| match i {
                Inp::Var(v) => st.model.get(*v as usize).copied().unwrap_or(0),
                Inp::Const(c) => *c,
            })
            .collect()
    }

    fn sample(&mut self, st: &State) {
        // reservoir sampling of completed paths
        let n = self.stats.paths;
        let k = self.cfg.samples;
        if k == 0 {
            return;
        }
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if (self.samples.len()) < k {
            self.samples.push(Sample { input: vec![], observed: vec![], covers: vec![] });
            self.samples.len() - 1
        } else {
            let j = self.rng % n.max(1);
            if j as usize >= k {
                return;
            }
            j as usize
        };
        let model = st.model.clone();
        self.use_model(&model);
        let observed = st
            .observed
            .iter()
            .map(|(b, e)| if *e == 0 { *b } else { self.p.eval(*e, &model) as u8 })
            .collect();
        let covers = st.covers.iter().map(|c| self.covers[*c as usize].clone()).collect();
        self.samples[slot] = Sample { input: self.witness(st), observed, covers };
    }

    fn violation(&mut self, st: &State, kind: String, label: String) {
        let key = format!("{kind}|{label}");
        if let Some(&i) = self.violmap.get(&key) {
            self.viols[i].count += 1;
            return;
        }
        let trace = st.frames.iter().rev().map(|f| f.func.name.clone()).take(40).collect();
        self.violmap.insert(key, self.viols.len());
        let v = Viol {
            kind,
            label,
            trace,
            input: self.witness(st),
            sched: st.sched.clone(),
            count: 1,
            covers: st.covers.iter().map(|c| self.covers[*c as usize].clone()).collect(),
        };
        if self.cfg.verbose {
            eprintln!("VIOLATION {} {} input={:02x?}", v.kind, v.label, v.input);
        }
        self.viols.push(v);
    }

    // ---------------------------------------------------------------- values
    fn use_model(&mut self, m: &Rc<Vec<u8>>) {
        if let Some(x) = &self.eval_model {
            if Rc::ptr_eq(x, m) {
                return;
            }
        }
        self.eval_model = Some(m.clone());
        self.p.eval_begin();
    }
    fn ev(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.use_model(&m);
        self.p.eval(e, &m)
    }
    #[inline]
    fn toe(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.p.konst(w, *x as u128),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    #[inline]
    fn val(&self, e: E) -> Val {
        match self.p.cv(e) {
            Some(k) if self.p.w(e) <= 64 => Val::C(k as u64),
            _ => Val::S(e),
        }
    }
    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    // ------------------------------------------------------------ path condition
    fn is_fixed(st: &State, v: u32) -> bool {
        st.fixed_set.get(v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1)
    }
    fn unfixed(&self, st: &State, e: E, limit: usize) -> Vec<u32> {
        let set = &self.p.sets[self.p.vars[e as usize] as usize];
        let mut out = vec![];
        for (i, w) in set.iter().enumerate() {
            let mut w = *w & !st.fixed_set.get(i).copied().unwrap_or(0);
            while w != 0 {
                out.push(i as u32 * 64 + w.trailing_zeros());
                if out.len() >= limit {
                    return out;
                }
                w &= w - 1;
            }
        }
        out
    }
    /// truth set of e as a function of v, all other variables taken from the model
    fn truth(&mut self, st: &State, e: E, v: u32) -> [u64; 4] {
        let single = self.p.sets[self.p.vars[e as usize] as usize].iter().map(|w| w.count_ones()).sum::<u32>() == 1;
        if single {
            if let Some(d) = self.domcache.get(&e) {
                return *d;
            }
        }
        let mut m = (*st.model).clone();
        let mut d = [0u64; 4];
        for x in 0..256usize {
            m[v as usize] = x as u8;
            self.p.eval_begin();
            if self.p.eval(e, &m) == 1 {
                d[x / 64] |= 1 << (x % 64);
            }
        }
        self.eval_model = None;
        self.p.eval_begin();
        if single {
            self.domcache.insert(e, d);
        }
        d
    }

    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.p.cv(c) == Some(1) {
            return;
        }
        let n = *self.p.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if st.pc.contains(&c) {
            return;
        }
        st.pc.push(c);
        if n.op == Op::Eq {
            if let Some(k) = self.p.cv(n.b) {
                st.fixed.insert(n.a, k);
            } else if let Some(k) = self.p.cv(n.a) {
                st.fixed.insert(n.b, k);
            }
        }
        let u = self.unfixed(st, c, 2);
        if u.len() == 1 {
            self.restrict(st, c, u[0]);
        }
    }
    fn restrict(&mut self, st: &mut State, c: E, v: u32) {
        let t = self.truth(st, c, v);
        let d = st.dom.entry(v).or_insert([!0; 4]);
        for i in 0..4 {
            d[i] &= t[i];
        }
        let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
        if cnt == 1 {
            let i = v as usize / 64;
            while st.fixed_set.len() <= i {
                st.fixed_set.push(0);
            }
            st.fixed_set[i] |= 1 << (v % 64);
            // propagate to constraints that now have a single unfixed variable
            let pc = st.pc.clone();
            for e in pc {
                let n = self.p.sets[self.p.vars[e as usize] as usize].clone();
                if n.get(i).map_or(false, |w| w >> (v % 64) & 1 == 1) {
                    let u = self.unfixed(st, e, 2);
                    if u.len() == 1 {
                        self.restrict(st, e, u[0]);
                    }
                }
            }
        }
    }

    fn slice(&mut self, st: &State, c: E) -> (Vec<E>, u32) {
        let mut set = self.p.vars[c as usize];
        let mut out = vec![];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate() {
                if !used[i] && self.p.set_intersects(set, self.p.vars[*e as usize]) {
                    used[i] = true;
                    out.push(*e);
                    set = self.p.set_union(set, self.p.vars[*e as usize]);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (out, set)
    }

    /// Signed range of an expression from the byte domains of its variables (an over-approximation).
    fn srange(&self, st: &State, e: E, memo: &mut FxMap<E, (i128, i128)>, fuel: &mut u32) -> (i128, i128) {
        let n = self.p.nodes[e as usize];
        if n.w >= 127 {
            return (i128::MIN, i128::MAX);
        }
        let s = 1i128 << (n.w - 1);
        let full = (-s, s - 1);
        if n.op == Op::Const {
            let v = sext128(n.k, n.w as u32);
            return (v, v);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if *fuel == 0 {
            return full;
        }
        *fuel -= 1;
        let fit = |l: i128, h: i128| if l >= full.0 && h <= full.1 { (l, h) } else { full };
        let r = match n.op {
            Op::SExt => self.srange(st, n.a, memo, fuel),
            Op::Add => {
                let (al, ah) = self.srange(st, n.a, memo, fuel);
                let (bl, bh) = self.srange(st, n.b, memo, fuel);
                fit(al + bl, ah + bh)
            }
            Op::Mul => {
                let (al, ah) = self.srange(st, n.a, memo, fuel);
                let (bl, bh) = self.srange(st, n.b, memo, fuel);
                match (al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)) {
                    (Some(a), Some(b), Some(c), Some(d)) => fit(a.min(b).min(c).min(d), a.max(b).max(c).max(d)),
                    _ => full,
                }
            }
            Op::Ite => {
                let (al, ah) = self.srange(st, n.b, memo, fuel);
                let (bl, bh) = self.srange(st, n.c, memo, fuel);
                (al.min(bl), ah.max(bh))
            }
            Op::Extract if n.k == 0 => {
                let (l, h) = self.srange(st, n.a, memo, fuel);
                fit(l, h)
            }
            _ => full,
        };
        let r = if r == full {
            let (l, h) = self.range(st, e, &mut FxMap::default(), fuel);
            if h < s as u128 {
                (l as i128, h as i128)
            } else if l >= s as u128 {
                (sext128(l, n.w as u32), sext128(h, n.w as u32))
            } else {
                full
            }
        } else {
            r
        };
        memo.insert(e, r);
        r
    }

    /// Unsigned range of an expression from the byte domains of its variables (an over-approximation).
    fn range(&self, st: &State, e: E, memo: &mut FxMap<E, (u128, u128)>, fuel: &mut u32) -> (u128, u128) {
        let n = self.p.nodes[e as usize];
        let full = (0, if n.w >= 128 { u128::MAX } else { (1u128 << n.w) - 1 });
        if n.op == Op::Const {
            return (n.k, n.k);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if *fuel == 0 {
            return full;
        }
        *fuel -= 1;
        let max = full.1;
        let r = match n.op {
            Op::Var => match st.dom.get(&(n.k as u32)) {
                Some(d) => {
                    let lo = (0..=255u8).find(|b| bit(d, *b));
                    let hi = (0..=255u8).rev().find(|b| bit(d, *b));
                    match (lo, hi) {
                        (Some(l), Some(h)) if n.w == 8 => (l as u128, h as u128),
                        _ => full,
                    }
                }
                None => full,
            },
            Op::Uf => full,
            Op::ZExt => self.range(st, n.a, memo, fuel),
            Op::SExt => {
                let (l, h) = self.range(st, n.a, memo, fuel);
                let wa = self.p.nodes[n.a as usize].w;
                let sign = 1u128 << (wa - 1);
                if h < sign {
                    (l, h)
                } else if l >= sign {
                    let ext = max & !(sign | (sign - 1));
                    (l | ext, h | ext)
                } else {
                    full
                }
            }
            Op::Extract => {
                let (l, h) = self.range(st, n.a, memo, fuel);
                let k = n.k as u32;
                if h >> k <= max {
                    (l >> k, h >> k)
                } else {
                    full
                }
            }
            Op::Concat => {
                let (al, ah) = self.range(st, n.a, memo, fuel);
                let (bl, bh) = self.range(st, n.b, memo, fuel);
                let wb = self.p.nodes[n.b as usize].w;
                (al << wb | bl, ah << wb | bh)
            }
            Op::Ite => {
                let c = self.range(st, n.a, memo, fuel);
                if c == (1, 1) {
                    self.range(st, n.b, memo, fuel)
                } else if c == (0, 0) {
                    self.range(st, n.c, memo, fuel)
                } else {
                    let (al, ah) = self.range(st, n.b, memo, fuel);
                    let (bl, bh) = self.range(st, n.c, memo, fuel);
                    (al.min(bl), ah.max(bh))
                }
            }
            _ => {
                let (al, ah) = self.range(st, n.a, memo, fuel);
                let (bl, bh) = self.range(st, n.b, memo, fuel);
                match n.op {
                    Op::Add => match ah.checked_add(bh) {
                        Some(h) if h <= max => (al + bl, h),
                        Some(h) if max < u128::MAX && al + bl > max => (al + bl - max - 1, h - max - 1),
                        _ => full,
                    },
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= max => (al * bl, h),
                        _ => full,
                    },
                    Op::UDiv if bl > 0 => (al / bh, ah / bl),
                    Op::URem if bl > 0 => {
                        if ah < bl {
                            (al, ah)
                        } else {
                            (0, ah.min(bh - 1))
                        }
                    }
                    Op::And => {
                        if n.w == 1 && al == 1 && bl == 1 {
                            (1, 1)
                        } else {
                            (0, ah.min(bh))
                        }
                    }
                    Op::Or | Op::Xor => {
                        let m = ah | bh;
                        let m = if m == 0 { 0 } else { u128::MAX >> m.leading_zeros() };
                        (if n.op == Op::Or { al.max(bl) } else if al == ah && bl == bh { al ^ bl } else { 0 }, if al == ah && bl == bh && n.op == Op::Xor { al ^ bl } else { m })
                    }
                    Op::Shl if bl == bh && bl < 128 && (bl as u32) < n.w as u32 && ah <= max >> bl => (al << bl, ah << bl),
                    Op::LShr if bl == bh && bl < 128 => (al >> bl, ah >> bl),
                    Op::Eq => {
                        if ah < bl || bh < al {
                            (0, 0)
                        } else if al == ah && bl == bh {
                            (1, 1)
                        } else {
                            (0, 1)
                        }
                    }
                    Op::Ult => {
                        if ah < bl {
                            (1, 1)
                        } else if al >= bh {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    Op::Slt => {
                        let mut m = FxMap::default();
                        let (al, ah) = self.srange(st, n.a, &mut m, fuel);
                        let (bl, bh) = self.srange(st, n.b, &mut m, fuel);
                        if ah < bl {
                            (1, 1)
                        } else if al >= bh {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    _ => full,
                }
            }
        };
        memo.insert(e, r);
        r
    }

    /// Is c satisfiable together with the path condition? Returns a model if so.
    fn feasible(&mut self, st: &State, c: E, for_assert: bool) -> R<Option<Rc<Vec<u8>>>> {
        match self.p.cv(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        if !for_assert {
            let u = self.unfixed(st, c, 2);
            if u.is_empty() {
                self.stats.branch_dom += 1;
                return Ok(if self.ev(st, c) == 1 { Some(st.model.clone()) } else { None });
            }
            if u.len() == 1 {
                let v = u[0];
                let t = self.truth(st, c, v);
                let d = st.dom.get(&v).copied().unwrap_or([!0; 4]);
                let x = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
                if x == [0; 4] {
                    self.stats.branch_dom += 1;
                    return Ok(None);
                }
                // multi-variable constraints that mention v
                let ent: Vec<E> = st
                    .pc
                    .iter()
                    .copied()
                    .filter(|e| {
                        let s = &self.p.sets[self.p.vars[*e as usize] as usize];
                        s.get(v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1)
                            && self.unfixed(st, *e, 2).len() > 1
                    })
                    .collect();
                let mut m = (*st.model).clone();
                let mut tries = 0;
                for b in 0..=255u8 {
                    if bit(&x, b) {
                        m[v as usize] = b;
                        let ok = if ent.is_empty() {
                            true
                        } else {
                            self.p.eval_begin();
                            self.eval_model = None;
                            ent.iter().all(|e| self.p.eval(*e, &m) == 1)
                        };
                        if ok {
                            self.stats.branch_dom += 1;
                            return Ok(Some(Rc::new(m)));
                        }
                        tries += 1;
                        if tries > 6 {
                            break;
                        }
                    }
                }
            }
        }
        if !for_assert {
            let r = self.range(st, c, &mut FxMap::default(), &mut 1500);
            if r.0 == r.1 {
                // the current model satisfies the path condition, so it must agree
                if self.ev(st, c) != r.0 {
                    return Err(Stop::Inconclusive("range analysis contradicts the model".into()));
                }
                self.stats.branch_dom += 1;
                return Ok(if r.0 == 1 { Some(st.model.clone()) } else { None });
            }
        }
        let (mut sl, set) = self.slice(st, c);
        // try recent models
        if !for_assert {
            let rec: Vec<Rc<Vec<u8>>> = self.recent.iter().rev().take(8).cloned().collect();
            for m in rec {
                if m.len() < st.model.len() {
                    continue;
                }
                self.use_model(&m);
                if self.p.eval(c, &m) == 1 && sl.iter().all(|e| self.p.eval(*e, &m) == 1) {
                    self.stats.branch_cache += 1;
                    let mut nm = (*st.model).clone();
                    for v in self.p.set_vars(set) {
                        nm[v as usize] = m[v as usize];
                    }
                    return Ok(Some(Rc::new(nm)));
                }
            }
        }
        sl.push(c);
        sl.sort_unstable();
        let key: Box<[E]> = sl.into_boxed_slice();
        if let Some(r) = self.qcache.get(&key) {
            self.stats.branch_cache += 1;
            return Ok(r.clone().map(|asg| {
                let mut nm = (*st.model).clone();
                for (v, x) in asg.iter() {
                    nm[*v as usize] = *x;
                }
                Rc::new(nm)
            }));
        }
        let want = self.p.set_vars(set);
        if for_assert {
            self.stats.asserts_smt += 1;
        } else {
            self.stats.branch_smt += 1;
        }
        match self.smt.check(&self.p, &key, &want, &st.dom) {
            Res::Unsat => {
                self.qcache.insert(key, None);
                Ok(None)
            }
            Res::Sat(asg) => {
                let mut nm = (*st.model).clone();
                for (v, x) in asg.iter() {
                    if (*v as usize) < nm.len() {
                        nm[*v as usize] = *x;
                    }
                }
                let nm = Rc::new(nm);
                // validate (also guards against spurious models for opaque functions)
                self.use_model(&nm);
                for e in key.iter() {
                    if self.p.eval(*e, &nm) != 1 {
                        return Err(Stop::Inconclusive("solver model does not satisfy the exact semantics (opaque function)".into()));
                    }
                }
                self.qcache.insert(key, Some(Rc::new(asg)));
                self.recent.push(nm.clone());
                if self.recent.len() > 64 {
                    self.recent.drain(0..32);
                }
                Ok(Some(nm))
            }
            Res::Unknown => {
                if for_assert {
                    self.stats.assert_unknown += 1;
                }
                if std::env::var_os("SYMEX_UNKNOWN").is_some() {
                    eprintln!("unknown: {} range {:?}", self.p.show(c, 14), self.range(st, c, &mut FxMap::default(), &mut 400));
                }
                Err(Stop::Inconclusive("solver returned unknown".into()))
            }
        }
    }

    /// Decide a condition on the current path, forking when both sides are feasible.
    /// The sibling restarts at the current instruction.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.p.cv(c) {
            return Ok(k == 1);
        }
        let cur = self.ev(st, c) == 1;
        let nc = self.p.not1(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other, false)? {
            let mut sib = st.clone();
            sib.model = m;
            self.add_pc(&mut sib, other);
            sib.depth += 1;
            self.stats.forks += 1;
            self.work.push(sib);
            self.add_pc(st, mine);
            st.depth += 1;
        }
        Ok(cur)
    }

    /// Make a value concrete; siblings retry the current instruction with other values.
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            _ => panic!("conc agg"),
        };
        self.conc_e(st, e)
    }
    /// One of the values the expression can have. The others are not looked at, which is recorded.
    fn one_value(&mut self, st: &mut State, v: &Val, why: &str) -> R<u64> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            _ => panic!("one_value agg"),
        };
        if let Some(k) = self.p.cv(e) {
            return Ok(k as u64);
        }
        if let Some(k) = st.fixed.get(&e) {
            return Ok(*k as u64);
        }
        let v = self.ev(st, e);
        let w = self.p.w(e);
        let k = self.p.konst(w, v);
        let c = self.p.eq(e, k);
        let nc = self.p.not1(c);
        if self.feasible(st, nc, false)?.is_some() {
            *self.stats.inconclusive.entry(format!("{why} (one value looked at)")).or_default() += 1;
            self.add_pc(st, c);
        }
        st.fixed.insert(e, v);
        Ok(v as u64)
    }
    fn conc_e(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(k) = self.p.cv(e) {
            return Ok(k as u64);
        }
        if let Some(k) = st.fixed.get(&e) {
            return Ok(*k as u64);
        }
        self.stats.conc += 1;
        let v = self.ev(st, e);
        let w = self.p.w(e);
        let k = self.p.konst(w, v);
        let c = self.p.eq(e, k);
        let nc = self.p.not1(c);
        if let Some(m) = self.feasible(st, nc, false)? {
            let mut sib = st.clone();
            sib.model = m;
            self.add_pc(&mut sib, nc);
            sib.depth += 1;
            self.stats.forks += 1;
            self.work.push(sib);
            self.add_pc(st, c);
            st.depth += 1;
        }
        st.fixed.insert(e, v);
        Ok(v as u64)
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, size: u64, fill: u8, stack: bool) -> u64 {
        let o = Rc::new(Obj::new(size, fill, stack));
        if let Some(id) = st.free_ids.pop() {
            st.objs[id as usize] = Some(o);
            return (id as u64) << 32;
        }
        st.objs.push(Some(o));
        ((st.objs.len() - 1) as u64) << 32
    }
    fn glob_idx(&self, addr: u64) -> Option<u32> {
        let g = &self.m.globals;
        let i = g.partition_point(|x| x.addr <= addr);
        if i == 0 {
            return None;
        }
        Some((i - 1) as u32)
    }
    fn glob(&mut self, st: &State, i: u32) -> Rc<Obj> {
        if let Some(o) = st.globs.get(&i) {
            return o.clone();
        }
        if let Some(o) = &self.gl_base[i as usize] {
            return o.clone();
        }
        let b = self.m.global_init(&mut self.p, i);
        let mut o = Obj::from_bytes(b, self.m.globals[i as usize].constant);
        o.size = self.m.globals[i as usize].size;
        let o = Rc::new(o);
        self.gl_base[i as usize] = Some(o.clone());
        o
    }
    fn resolve(&mut self, st: &State, addr: u64, n: u64, write: bool) -> R<(Oref, usize)> {
        let hi = addr >> 32;
        if hi >= 2 {
            if let Some(Some(o)) = st.objs.get(hi as usize) {
                let off = addr & 0xffff_ffff;
                if off + n <= o.size {
                    return Ok((Oref::Heap(hi as u32), off as usize));
                }
                return Err(self.memviol(st, addr, n, write, "out of bounds"));
            }
            return Err(self.memviol(st, addr, n, write, "use after free or wild pointer"));
        }
        if hi == 1 {
            if let Some(g) = self.glob_idx(addr) {
                let gg = &self.m.globals[g as usize];
                let off = addr - gg.addr;
                if off + n <= gg.size {
                    if write && gg.constant {
                        return Err(self.memviol(st, addr, n, write, "write to constant"));
                    }
                    return Ok((Oref::Glob(g), off as usize));
                }
            }
        }
        Err(self.memviol(st, addr, n, write, "invalid pointer"))
    }
    fn memviol(&self, st: &State, addr: u64, n: u64, write: bool, what: &str) -> Stop {
        let f = st.frames.last().map(|f| short(&f.func.name)).unwrap_or_default();
        let _ = addr;
        Stop::Violation("memory".into(), format!("{what}: {} of {n} bytes in {f}", if write { "write" } else { "read" }))
    }
    fn obj(&mut self, st: &State, r: Oref) -> Rc<Obj> {
        match r {
            Oref::Heap(i) => st.objs[i as usize].clone().unwrap(),
            Oref::Glob(i) => self.glob(st, i),
        }
    }
    fn obj_mut<'s>(&mut self, st: &'s mut State, r: Oref) -> &'s mut Obj {
        match r {
            Oref::Heap(i) => Rc::make_mut(st.objs[i as usize].as_mut().unwrap()),
            Oref::Glob(i) => {
                if !st.globs.contains_key(&i) {
                    let o = self.glob(st, i);
                    st.globs.insert(i, o);
                }
                Rc::make_mut(st.globs.get_mut(&i).unwrap())
            }
        }
    }

    fn byte_e(&mut self, o: &Obj, off: usize) -> E {
        let (b, s) = o.byte(off);
        if s != 0 {
            s
        } else {
            self.p.konst(8, b as u128)
        }
    }
    /// little-endian read of n bytes as an expression of n*8 bits
    fn read_obj(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if n <= 8 {
            if let Some(v) = o.read_c(off, n) {
                return Val::C(v);
            }
        }
        let mut e = self.byte_e(o, off);
        for i in 1..n {
            let b = self.byte_e(o, off + i);
            e = self.p.concat(b, e);
        }
        self.val(e)
    }
    fn write_obj(&mut self, st: &mut State, r: Oref, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(x) if n <= 8 => {
                let o = self.obj_mut(st, r);
                o.write_c(off, n, *x);
            }
            v => {
                let w = n as u32 * 8;
                let mut e = self.toe(v, w);
                if self.p.w(e) < w {
                    e = self.p.zext(e, w);
                }
                for i in 0..n {
                    let b = self.p.extract(e, i as u32 * 8, 8);
                    let c = self.p.cv(b);
                    let o = self.obj_mut(st, r);
                    match c {
                        Some(k) => o.set(off + i, k as u8, 0),
                        None => o.set(off + i, 0, b),
                    }
                }
            }
        }
    }

    fn load_bytes(&mut self, st: &mut State, addr: &Val, n: usize) -> R<Val> {
        match addr {
            Val::C(a) => {
                let (r, off) = self.resolve(st, *a, n as u64, false)?;
                if n <= 8 {
                    // fast path without cloning the Rc
                    let x = match r {
                        Oref::Heap(i) => st.objs[i as usize].as_ref().unwrap().read_c(off, n),
                        Oref::Glob(_) => None,
                    };
                    if let Some(x) = x {
                        return Ok(Val::C(x));
                    }
                }
                let o = self.obj(st, r);
                Ok(self.read_obj(&o, off, n))
            }
            Val::S(e) => self.load_sym(st, *e, n),
            _ => panic!("agg address"),
        }
    }

    fn load_sym(&mut self, st: &mut State, e: E, n: usize) -> R<Val> {
        if let Some(k) = st.fixed.get(&e) {
            let k = *k as u64;
            return self.load_bytes(st, &Val::C(k), n);
        }
        // tree of constants
        let mut leaves = BTreeSet::new();
        if self.ite_leaves(e, &mut leaves, 24) {
            let mut all_ok = true;
            for &l in &leaves {
                if self.resolve(st, l, n as u64, false).is_err() {
                    all_ok = false;
                }
            }
            if all_ok {
                let mut memo: FxMap<E, E> = Default::default();
                let r = self.load_tree(st, e, n, &mut memo)?;
                return Ok(self.val(r));
            }
            let k = self.conc_e(st, e)?;
            return self.load_bytes(st, &Val::C(k), n);
        }
        // base object from the model
        let a = self.ev(st, e) as u64;
        let (r, _) = self.resolve(st, a, n as u64, false)?;
        let (base, size) = match r {
            Oref::Heap(i) => ((i as u64) << 32, st.objs[i as usize].as_ref().unwrap().size),
            Oref::Glob(i) => (self.m.globals[i as usize].addr, self.m.globals[i as usize].size),
        };
        if size > 2048 {
            let k = self.conc_e(st, e)?;
            return self.load_bytes(st, &Val::C(k), n);
        }
        let w = 64;
        let be = self.p.konst(w, base as u128);
        let off = self.p.sub(e, be);
        let lim = self.p.konst(w, (size - n as u64 + 1) as u128);
        let inb = self.p.ult(off, lim);
        let nb = self.p.not1(inb);
        if self.feasible(st, nb, false)?.is_some() {
            // may point elsewhere: fall back to case splitting
            let k = self.conc_e(st, e)?;
            return self.load_bytes(st, &Val::C(k), n);
        }
        let o = self.obj(st, r);
        // stride from known trailing zeros
        let tz = self.p.kz[off as usize].trailing_ones().min(12);
        let maxoff = (self.p.umax(off)).min((size - n as u64) as u128) as u64;
        let minoff = self.p.umin(off) as u64;
        let (rl, rh) = self.range(st, off, &mut FxMap::default(), &mut 400);
        let (minoff, maxoff) = (minoff.max(rl as u64), maxoff.min(rh as u64));
        if maxoff < minoff || (maxoff - minoff) >> tz > 1024 {
            let k = self.conc_e(st, e)?;
            return self.load_bytes(st, &Val::C(k), n);
        }
        if let Some(r) = self.decimal_pairs(&o, off, n, minoff, maxoff) {
            return Ok(self.val(r));
        }
        let bits = 64 - maxoff.leading_zeros();
        let r = self.mux(&o, off, n, 0, bits, tz, minoff, maxoff);
        Ok(self.val(r))
    }
    /// A table of two-digit numbers as text read at a symbolic place: every reachable entry is
    /// compared with the digit it should be; if all agree, the entry is that digit.
    fn decimal_pairs(&mut self, o: &Obj, off: E, n: usize, lo: u64, hi: u64) -> Option<E> {
        if n > 2 || hi - lo < 20 || hi >= 400 {
            return None;
        }
        let low = self.p.extract(off, 0, 1);
        let low = match self.p.n(low).op {
            Op::Const => self.p.n(low).k as u64,
            _ => return None,
        };
        let digit = |place: u64| if place & 1 == 0 { 48 + place / 2 / 10 } else { 48 + place / 2 % 10 };
        for place in lo..=hi {
            if place & 1 != low {
                continue;
            }
            for i in 0..n as u64 {
                match o.read_c((place + i) as usize, 1) {
                    Some(x) if x == digit(place + i) => {}
                    _ => return None,
                }
            }
        }
        let mut r: Option<E> = None;
        for i in 0..n as u64 {
            let mut at = off;
            if i > 0 {
                let k = self.p.konst(64, i as u128);
                at = self.p.add(off, k);
            }
            let q = self.p.extract(at, 1, 8);
            let ten = self.p.konst(8, 10);
            let d = if (low + i) & 1 == 0 { self.p.udiv(q, ten) } else { self.p.urem(q, ten) };
            let z = self.p.konst(8, 48);
            let d = self.p.add(d, z);
            r = Some(match r {
                None => d,
                Some(x) => self.p.concat(d, x),
            });
        }
        r
    }
    /// Build a multiplexer over the offset bits.
    fn mux(&mut self, o: &Obj, off: E, n: usize, prefix: u64, bits: u32, tz: u32, lo: u64, hi: u64) -> E {
        if prefix > hi || prefix + (1u64 << bits) <= lo {
            // unreachable position
            return 0;
        }
        if bits <= tz {
            let v = self.read_obj(o, prefix as usize, n);
            return self.toe(&v, n as u32 * 8);
        }
        let b = bits - 1;
        let x = self.mux(o, off, n, prefix | 1 << b, b, tz, lo, hi);
        let y = self.mux(o, off, n, prefix, b, tz, lo, hi);
        if x == 0 {
            return y;
        }
        if y == 0 {
            return x;
        }
        let c = self.p.extract(off, b, 1);
        self.p.ite(c, x, y)
    }
    fn ite_leaves(&self, e: E, out: &mut BTreeSet<u64>, lim: usize) -> bool {
        let mut stack = vec![e];
        let mut seen: FxMap<E, ()> = Default::default();
        while let Some(x) = stack.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            if seen.len() > 400 {
                return false;
            }
            let n = self.p.n(x);
            match n.op {
                Op::Const => {
                    out.insert(n.k as u64);
                    if out.len() > lim {
                        return false;
                    }
                }
                Op::Ite => {
                    stack.push(n.b);
                    stack.push(n.c);
                }
                _ => return false,
            }
        }
        true
    }
    fn load_tree(&mut self, st: &mut State, e: E, n: usize, memo: &mut FxMap<E, E>) -> R<E> {
        if let Some(x) = memo.get(&e) {
            return Ok(*x);
        }
        let nd = *self.p.n(e);
        let r = match nd.op {
            Op::Const => {
                let v = self.load_bytes(st, &Val::C(nd.k as u64), n)?;
                self.toe(&v, n as u32 * 8)
            }
            _ => {
                let a = self.load_tree(st, nd.b, n, memo)?;
                let b = self.load_tree(st, nd.c, n, memo)?;
                self.p.ite(nd.a, a, b)
            }
        };
        memo.insert(e, r);
        Ok(r)
    }

    fn off_addr(&mut self, a: &Val, o: u64) -> Val {
        if o == 0 {
            return a.clone();
        }
        match a {
            Val::C(x) => Val::C(x.wrapping_add(o)),
            Val::S(e) => {
                let k = self.p.konst(64, o as u128);
                let r = self.p.add(*e, k);
                self.val(r)
            }
            _ => panic!(),
        }
    }

    fn load(&mut self, st: &mut State, ty: TyId, addr: &Val) -> R<Val> {
        match &self.m.tys[ty as usize] {
            Ty::Int(w) => {
                let w = *w;
                let n = ((w + 7) / 8) as usize;
                let v = self.load_bytes(st, addr, n)?;
                if w % 8 != 0 {
                    return Ok(match v {
                        Val::C(x) => Val::C(x & mask(w) as u64),
                        Val::S(e) => {
                            let t = self.p.extract(e, 0, w);
                            self.val(t)
                        }
                        _ => unreachable!(),
                    });
                }
                if w > 64 {
                    let e = self.toe(&v, w);
                    return Ok(Val::S(e));
                }
                Ok(v)
            }
            Ty::Ptr | Ty::F64 => self.load_bytes(st, addr, 8),
            Ty::F32 => self.load_bytes(st, addr, 4),
            Ty::Struct(fs, _) => {
                let fs = fs.clone();
                let mut out = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let o = self.m.field_off(ty, i);
                    let a = self.off_addr(addr, o);
                    out.push(self.load(st, *f, &a)?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            Ty::Arr(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.m.size(e);
                let mut out = vec![];
                for i in 0..n {
                    let a = self.off_addr(addr, s * i);
                    out.push(self.load(st, e, &a)?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.m.size(e);
                if self.m.bits(e) % 8 != 0 {
                    panic!("load of bit vector");
                }
                let mut out = vec![];
                for i in 0..n as u64 {
                    let a = self.off_addr(addr, s * i);
                    out.push(self.load(st, e, &a)?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            t => panic!("load {t:?}"),
        }
    }

    fn store(&mut self, st: &mut State, ty: TyId, addr: u64, v: &Val) -> R<()> {
        match v {
            Val::Agg(vs) => {
                let vs = vs.clone();
                let fs: Vec<TyId> = match &self.m.tys[ty as usize] {
                    Ty::Struct(fs, _) => fs.clone(),
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![*e; vs.len()],
                    t => panic!("store {t:?}"),
                };
                for (i, x) in vs.iter().enumerate() {
                    let o = self.m.field_off(ty, i);
                    self.store(st, fs[i], addr.wrapping_add(o), x)?;
                }
                Ok(())
            }
            v => {
                let bits = self.m.bits(ty);
                let n = ((bits + 7) / 8) as usize;
                let (r, off) = self.resolve(st, addr, n as u64, true)?;
                if let (Val::C(x), true) = (v, n <= 8) {
                    let o = self.obj_mut(st, r);
                    o.write_c(off, n, *x);
                    return Ok(());
                }
                self.write_obj(st, r, off, n, v);
                Ok(())
            }
        }
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sr, so) = self.resolve(st, s, n, false)?;
        let (dr, doff) = self.resolve(st, d, n, true)?;
        let src = self.obj(st, sr);
        if n >= 4 * PS as u64 {
            let o = self.obj_mut(st, dr);
            if o.put_pages(doff, &src, so, n as usize) {
                return Ok(());
            }
        }
        if n <= 8 {
            if let Some(v) = src.read_c(so, n as usize) {
                drop(src);
                let o = self.obj_mut(st, dr);
                o.write_c(doff, n as usize, v);
                return Ok(());
            }
        }
        let (b, sy) = src.slice(so, n as usize);
        drop(src);
        let o = self.obj_mut(st, dr);
        o.put(doff, &b, sy.as_deref());
        Ok(())
    }

    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32) as usize;
        if a & 0xffff_ffff != 0 || id < 2 || id >= st.objs.len() || st.objs[id].is_none() {
            return Err(Stop::Violation("memory".into(), "invalid free".into()));
        }
        if st.objs[id].as_ref().unwrap().stack {
            return Err(Stop::Violation("memory".into(), "free of stack object".into()));
        }
        st.objs[id] = None;
        st.live_heap -= 1;
        Ok(())
    }

    fn malloc(&mut self, st: &mut State, sz: &Val, fill: u8) -> R<u64> {
        if st.alloc_limit > 0 {
            let over = match sz {
                Val::C(n) => *n > st.alloc_limit,
                Val::S(e) => {
                    let k = self.p.konst(64, st.alloc_limit as u128);
                    let big = self.p.ult(k, *e);
                    self.decide(st, big)?
                }
                _ => false,
            };
            if over {
                return Err(Stop::Violation("alloc".into(), "memory out of proportion is allocated".into()));
            }
        }
        if let Val::S(e) = sz {
            let k = self.p.konst(64, ALLOC_FAIL as u128);
            let big = self.p.ult(k, *e);
            if self.decide(st, big)? {
                return Ok(0);
            }
        }
        let n = self.conc(st, sz)?;
        if n > ALLOC_FAIL {
            return Ok(0);
        }
        if n > ALLOC_TRUNC {
            return Err(Stop::Truncated(format!("allocation larger than {ALLOC_TRUNC} bytes")));
        }
        st.alloc_bytes += n;
        st.live_heap += 1;
        Ok(self.alloc(st, n, fill, false))
    }

    // ------------------------------------------------------------------ ops
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => {
                    let s = y.min(w as u64 - 1);
                    (sext128(x as u128, w) >> s) as u64
                }
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                    return Err(Stop::Violation("ub".into(), "division by zero".into()));
                }
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => (sext128(x as u128, w).wrapping_div(sext128(y as u128, w))) as u64,
                BinOp::SRem => (sext128(x as u128, w).wrapping_rem(sext128(y as u128, w))) as u64,
                BinOp::FAdd => eval_uf(1, w, w, x as u128, y as u128) as u64,
                BinOp::FSub => eval_uf(2, w, w, x as u128, y as u128) as u64,
                BinOp::FMul => eval_uf(3, w, w, x as u128, y as u128) as u64,
                BinOp::FDiv => eval_uf(4, w, w, x as u128, y as u128) as u64,
                BinOp::FRem => eval_uf(5, w, w, x as u128, y as u128) as u64,
            };
            return Ok(Val::C(r & m));
        }
        let x = self.toe(a, w);
        let y = self.toe(b, w);
        let p = &mut self.p;
        let r = match op {
            BinOp::Add => p.add(x, y),
            BinOp::Sub => p.sub(x, y),
            BinOp::Mul => p.mul(x, y),
            BinOp::UDiv => p.udiv(x, y),
            BinOp::SDiv => p.sdiv(x, y),
            BinOp::URem => p.urem(x, y),
            BinOp::SRem => p.srem(x, y),
            BinOp::And => p.and(x, y),
            BinOp::Or => p.or(x, y),
            BinOp::Xor => p.xor(x, y),
            BinOp::Shl => p.shl(x, y),
            BinOp::LShr => p.lshr(x, y),
            BinOp::AShr => p.ashr(x, y),
            BinOp::FAdd => p.uf(1, w, x, Some(y)),
            BinOp::FSub => p.uf(2, w, x, Some(y)),
            BinOp::FMul => p.uf(3, w, x, Some(y)),
            BinOp::FDiv => p.uf(4, w, x, Some(y)),
            BinOp::FRem => p.uf(5, w, x, Some(y)),
        };
        Ok(self.val(r))
    }

    fn icmp(&mut self, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x as u128, w), sext128(y as u128, w));
            let r = match pr {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::C(r as u64);
        }
        let x = self.toe(a, w);
        let y = self.toe(b, w);
        let p = &mut self.p;
        let r = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => p.ne(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => p.ule(y, x),
            Pred::Ult => p.ult(x, y),
            Pred::Ule => p.ule(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => p.sle(y, x),
            Pred::Slt => p.slt(x, y),
            Pred::Sle => p.sle(x, y),
        };
        self.val(r)
    }

    fn ite_val(&mut self, c: E, ty: TyId, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let fs: Vec<TyId> = match &self.m.tys[ty as usize] {
                    Ty::Struct(fs, _) => fs.clone(),
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![*e; x.len()],
                    t => panic!("ite {t:?}"),
                };
                let v = (0..x.len()).map(|i| self.ite_val(c, fs[i], &x[i], &y[i])).collect();
                Val::Agg(Rc::new(v))
            }
            _ => {
                let w = self.m.bits(ty);
                let x = self.toe(a, w);
                let y = self.toe(b, w);
                let r = self.p.ite(c, x, y);
                self.val(r)
            }
        }
    }

    fn flatten(&mut self, ty: TyId, v: &Val) -> E {
        match v {
            Val::Agg(vs) => {
                let (_, w) = self.m.lanes(ty);
                let mut e = self.toe(&vs[0], w);
                for x in &vs[1..] {
                    let h = self.toe(x, w);
                    e = self.p.concat(h, e);
                }
                e
            }
            v => {
                let w = self.m.bits(ty);
                self.toe(v, w)
            }
        }
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &Val) -> Val {
        if op == CastOp::BitCast {
            let (fl, _) = self.m.lanes(from);
            let (tl, tw) = self.m.lanes(to);
            if fl == 0 && tl == 0 {
                return a.clone();
            }
            let e = self.flatten(from, a);
            if tl == 0 {
                return self.val(e);
            }
            let v = (0..tl)
                .map(|i| {
                    let x = self.p.extract(e, i * tw, tw);
                    self.val(x)
                })
                .collect();
            return Val::Agg(Rc::new(v));
        }
        if let Val::Agg(vs) = a {
            if op == CastOp::Copy {
                return a.clone();
            }
            let (_, fw) = self.m.lanes(from);
            let (_, tw) = self.m.lanes(to);
            let v = vs.clone().iter().map(|x| self.cast1(op, fw, tw, x)).collect();
            return Val::Agg(Rc::new(v));
        }
        let fw = self.m.bits(from);
        let tw = self.m.bits(to);
        self.cast1(op, fw, tw, a)
    }
    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> Val {
        if let (Val::C(x), true) = (a, tw <= 64) {
            let x = *x;
            let r = match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::Copy => x,
                CastOp::SExt => sext128(x as u128, fw) as u64,
                CastOp::BitCast => x,
                CastOp::UiToFp => eval_uf(40, fw, tw, x as u128, 0) as u64,
                CastOp::SiToFp => eval_uf(41, fw, tw, x as u128, 0) as u64,
                CastOp::FpToUi => eval_uf(42, fw, tw, x as u128, 0) as u64,
                CastOp::FpToSi => eval_uf(43, fw, tw, x as u128, 0) as u64,
                CastOp::FpTrunc => eval_uf(44, fw, tw, x as u128, 0) as u64,
                CastOp::FpExt => eval_uf(45, fw, tw, x as u128, 0) as u64,
            };
            return Val::C(r & mask(tw) as u64);
        }
        let e = self.toe(a, fw);
        let p = &mut self.p;
        let r = match op {
            CastOp::Trunc => p.extract(e, 0, tw),
            CastOp::ZExt => p.zext(e, tw),
            CastOp::SExt => p.sext(e, tw),
            CastOp::Copy => {
                if tw > fw {
                    p.zext(e, tw)
                } else if tw < fw {
                    p.extract(e, 0, tw)
                } else {
                    e
                }
            }
            CastOp::BitCast => e,
            CastOp::UiToFp => p.uf(40, tw, e, None),
            CastOp::SiToFp => p.uf(41, tw, e, None),
            CastOp::FpToUi => p.uf(42, tw, e, None),
            CastOp::FpToSi => p.uf(43, tw, e, None),
            CastOp::FpTrunc => p.uf(44, tw, e, None),
            CastOp::FpExt => p.uf(45, tw, e, None),
        };
        self.val(r)
    }

    // ------------------------------------------------------------- execution
    #[inline]
    fn set(st: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }
    fn goto(&self, st: &mut State, e: &Edge) {
        let fr = st.frames.last_mut().unwrap();
        match e.moves.len() {
            0 => {}
            1 => {
                let v = match &e.moves[0].1 {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    })
                    .collect();
                for ((d, _), v) in e.moves.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.blk = e.blk;
        fr.func.hits[e.blk as usize].store(true, std::sync::atomic::Ordering::Relaxed);
        fr.ip = 0;
    }

    fn exec(&mut self, st: &mut State) -> Stop {
        match self.exec_inner(st) {
            Ok(()) => Stop::PathEnd,
            Err(s) => s,
        }
    }

    fn exec_inner(&mut self, st: &mut State) -> R<()> {
        let mut budget = 0u32;
        loop {
            st.steps += 1;
            budget += 1;
            if budget == 1 << 16 {
                budget = 0;
                if self.start.elapsed().as_secs_f64() > self.cfg.time_s * 1.1 + 5.0 {
                    self.stats.complete = false;
                    return Err(Stop::Truncated("time budget".into()));
                }
                if resident_mb() > self.cfg.max_mb * 11 / 10 {
                    self.stats.complete = false;
                    return Err(Stop::Truncated("memory budget".into()));
                }
            }
            if st.steps > self.cfg.max_steps {
                return Err(Stop::Violation("hang".into(), format!("no termination within {} steps", self.cfg.max_steps)));
            }
            let fr = st.frames.last().unwrap();
            let func: &'static Func = fr.func;
            let ins = &func.blocks[fr.blk as usize].insts[fr.ip as usize];
            match ins {
                Inst::Nop => {}
                Inst::Bin { op, w, lanes, a, b, dst } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    let r = if *lanes == 0 {
                        self.bin(*op, *w, &x, &y)?
                    } else {
                        match (&x, &y) {
                            (Val::Agg(x), Val::Agg(y)) => {
                                let mut v = vec![];
                                for i in 0..x.len() {
                                    v.push(self.bin(*op, *w, &x[i], &y[i])?);
                                }
                                Val::Agg(Rc::new(v))
                            }
                            _ => panic!("vector op"),
                        }
                    };
                    Self::set(st, *dst, r);
                }
                Inst::ICmp { p, w, lanes, a, b, dst } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    let r = if *lanes == 0 {
                        self.icmp(*p, *w, &x, &y)
                    } else {
                        match (&x, &y) {
                            (Val::Agg(x), Val::Agg(y)) => {
                                let v = (0..x.len()).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect();
                                Val::Agg(Rc::new(v))
                            }
                            _ => panic!("vector op"),
                        }
                    };
                    Self::set(st, *dst, r);
                }
                Inst::FCmp { p, w, a, b, dst } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    let x = self.toe(&x, *w);
                    let y = self.toe(&y, *w);
                    let r = self.p.uf(16 + *p, 1, x, Some(y));
                    let r = self.val(r);
                    Self::set(st, *dst, r);
                }
                Inst::FNeg { w, a, dst } => {
                    let x = self.opd(st, a);
                    let x = self.toe(&x, *w);
                    let s = self.p.konst(*w, 1 << (*w - 1));
                    let r = self.p.xor(x, s);
                    let r = self.val(r);
                    Self::set(st, *dst, r);
                }
                Inst::Cast { op, from, to, a, dst } => {
                    let x = self.opd(st, a);
                    let r = self.cast(*op, *from, *to, &x);
                    Self::set(st, *dst, r);
                }
                Inst::Load { ty, p, dst, atomic } => {
                    if *atomic {
                        self.sched_point(st)?;
                    }
                    let a = self.opd(st, p);
                    let v = self.load(st, *ty, &a)?;
                    Self::set(st, *dst, v);
                }
                Inst::Store { ty, v, p, atomic } => {
                    if *atomic {
                        self.sched_point(st)?;
                    }
                    let a = self.opd(st, p);
                    let a = self.conc(st, &a)?;
                    let x = self.opd(st, v);
                    self.store(st, *ty, a, &x)?;
                    if *atomic {
                        Self::progress(st);
                    }
                }
                Inst::Gep { base, off, idx, dst } => {
                    let mut b = self.opd(st, base);
                    if *off != 0 {
                        b = self.off_addr(&b, *off);
                    }
                    for (o, iw, sc) in idx {
                        let i = self.opd(st, o);
                        b = match (&b, &i) {
                            (Val::C(x), Val::C(y)) => {
                                let y = if *iw == 64 { *y } else { sext128(*y as u128, *iw) as u64 };
                                Val::C(x.wrapping_add(y.wrapping_mul(*sc)))
                            }
                            _ => {
                                let x = self.toe(&b, 64);
                                let y = self.toe(&i, *iw);
                                let y = self.p.sext(y, 64);
                                let k = self.p.konst(64, *sc as u128);
                                let y = self.p.mul(y, k);
                                let r = self.p.add(x, y);
                                self.val(r)
                            }
                        };
                    }
                    Self::set(st, *dst, b);
                }
                Inst::Alloca { size, count, dst } => {
                    let n = match count {
                        None => 1,
                        Some(c) => {
                            let v = self.opd(st, c);
                            self.conc(st, &v)?
                        }
                    };
                    let a = self.alloc(st, size * n, 0xAA, true);
                    st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                    Self::set(st, *dst, Val::C(a));
                }
                Inst::Select { ty, lanes, c, a, b, dst } => {
                    let cv = self.opd(st, c);
                    let r = if *lanes > 0 {
                        let (x, y) = (self.opd(st, a), self.opd(st, b));
                        match (&cv, &x, &y) {
                            (Val::Agg(c), Val::Agg(x), Val::Agg(y)) => {
                                let et = match &self.m.tys[*ty as usize] {
                                    Ty::Vec(_, e) => *e,
                                    _ => panic!(),
                                };
                                let mut v = vec![];
                                for i in 0..c.len() {
                                    v.push(match &c[i] {
                                        Val::C(1) => x[i].clone(),
                                        Val::C(_) => y[i].clone(),
                                        Val::S(e) => self.ite_val(*e, et, &x[i], &y[i]),
                                        _ => panic!(),
                                    });
                                }
                                Val::Agg(Rc::new(v))
                            }
                            _ => panic!("vector select"),
                        }
                    } else {
                        match cv {
                            Val::C(1) => self.opd(st, a),
                            Val::C(_) => self.opd(st, b),
                            Val::S(e) => {
                                let (x, y) = (self.opd(st, a), self.opd(st, b));
                                self.ite_val(e, *ty, &x, &y)
                            }
                            _ => panic!(),
                        }
                    };
                    Self::set(st, *dst, r);
                }
                Inst::ExtractVal { a, path, dst } => {
                    let mut v = self.opd(st, a);
                    for i in path {
                        v = match &v {
                            Val::Agg(x) => x[*i as usize].clone(),
                            _ => Val::C(0),
                        };
                    }
                    Self::set(st, *dst, v);
                }
                Inst::InsertVal { a, v, path, dst } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, v);
                    fn ins(x: &Val, path: &[u32], y: Val) -> Val {
                        if path.is_empty() {
                            return y;
                        }
                        match x {
                            Val::Agg(v) => {
                                let mut n = (**v).clone();
                                n[path[0] as usize] = ins(&v[path[0] as usize], &path[1..], y);
                                Val::Agg(Rc::new(n))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    let r = ins(&x, path, y);
                    Self::set(st, *dst, r);
                }
                Inst::ExtractElt { a, i, dst } => {
                    let x = self.opd(st, a);
                    let i = self.opd(st, i);
                    let i = self.conc(st, &i)?;
                    let v = match &x {
                        Val::Agg(x) => x[i as usize].clone(),
                        _ => panic!(),
                    };
                    Self::set(st, *dst, v);
                }
                Inst::InsertElt { a, v, i, dst } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, v);
                    let i = self.opd(st, i);
                    let i = self.conc(st, &i)?;
                    let r = match &x {
                        Val::Agg(x) => {
                            let mut n = (**x).clone();
                            n[i as usize] = y;
                            Val::Agg(Rc::new(n))
                        }
                        _ => panic!(),
                    };
                    Self::set(st, *dst, r);
                }
                Inst::Shuffle { a, b, mask, dst } => {
                    let x = self.opd(st, a);
                    let y = self.opd(st, b);
                    let r = match (&x, &y) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let n = x.len();
                            Val::Agg(Rc::new(
                                mask.iter()
                                    .map(|&i| if (i as usize) < n { x[i as usize].clone() } else { y[i as usize - n].clone() })
                                    .collect(),
                            ))
                        }
                        _ => panic!(),
                    };
                    Self::set(st, *dst, r);
                }
                Inst::Br(e) => {
                    self.goto(st, e);
                    continue;
                }
                Inst::CondBr { c, t, f } => {
                    match self.opd(st, c) {
                        Val::C(x) => {
                            let e = if x & 1 == 1 { t } else { f };
                            self.goto(st, e);
                        }
                        Val::S(e) => {
                            let cur = self.ev(st, e) == 1;
                            let ne = self.p.not1(e);
                            let (mine, other) = if cur { (e, ne) } else { (ne, e) };
                            let (me, oe) = if cur { (t, f) } else { (f, t) };
                            if let Some(m) = self.feasible(st, other, false)? {
                                let mut sib = st.clone();
                                sib.model = m;
                                self.add_pc(&mut sib, other);
                                sib.depth += 1;
                                self.goto(&mut sib, oe);
                                self.stats.forks += 1;
                                self.work.push(sib);
                                self.add_pc(st, mine);
                                st.depth += 1;
                            }
                            self.goto(st, me);
                        }
                        _ => panic!(),
                    }
                    continue;
                }
                Inst::Switch { w, v, def, cases } => {
                    match self.opd(st, v) {
                        Val::C(x) => {
                            let e = cases.iter().find(|(k, _)| *k == x).map(|(_, e)| e).unwrap_or(def);
                            self.goto(st, e);
                        }
                        Val::S(e) => {
                            if let Some(k) = st.fixed.get(&e).copied() {
                                let x = k as u64;
                                let ed = cases.iter().find(|(k, _)| *k == x).map(|(_, e)| e).unwrap_or(def);
                                self.goto(st, ed);
                                continue;
                            }
                            // group by target edge
                            let mut groups: Vec<(u32, E, &Edge)> = vec![];
                            let mut any = self.p.f;
                            for (k, ed) in cases {
                                let kk = self.p.konst(*w, *k as u128);
                                let c = self.p.eq(e, kk);
                                any = self.p.or(any, c);
                                let same = groups.iter_mut().find(|g| g.0 == ed.blk && same_moves(g.2, ed));
                                match same {
                                    Some(g) => g.1 = self.p.or(g.1, c),
                                    None => groups.push((ed.blk, c, ed)),
                                }
                            }
                            let nd = self.p.not1(any);
                            let same = groups.iter_mut().find(|g| g.0 == def.blk && same_moves(g.2, def));
                            match same {
                                Some(g) => g.1 = self.p.or(g.1, nd),
                                None => groups.push((def.blk, nd, def)),
                            }
                            let mut mine = None;
                            for (i, g) in groups.iter().enumerate() {
                                if self.ev(st, g.1) == 1 {
                                    mine = Some(i);
                                    break;
                                }
                            }
                            let mine = mine.expect("switch");
                            let mut forked = false;
                            for i in 0..groups.len() {
                                if i == mine {
                                    continue;
                                }
                                let c = groups[i].1;
                                if let Some(m) = self.feasible(st, c, false)? {
                                    let mut sib = st.clone();
                                    sib.model = m;
                                    self.add_pc(&mut sib, c);
                                    sib.depth += 1;
                                    self.goto(&mut sib, groups[i].2);
                                    self.stats.forks += 1;
                                    self.work.push(sib);
                                    forked = true;
                                }
                            }
                            if forked {
                                self.add_pc(st, groups[mine].1);
                                st.depth += 1;
                            }
                            self.goto(st, groups[mine].2);
                        }
                        _ => panic!(),
                    }
                    continue;
                }
                Inst::Ret(v) => {
                    let rv = v.as_ref().map(|o| self.opd(st, o));
                    let fr = st.frames.pop().unwrap();
                    for id in &fr.allocas {
                        st.objs[*id as usize] = None;
                        st.free_ids.push(*id);
                    }
                    if st.frames.is_empty() {
                        if st.cur == 0 {
                            return Ok(());
                        }
                        // thread finished
                        Self::progress(st);
                        st.others[st.cur].stat = TStat::Done;
                        let me = st.cur as u32;
                        for t in st.others.iter_mut() {
                            if t.stat == TStat::Join(me) {
                                t.stat = TStat::Run;
                            }
                        }
                        self.switch_any(st)?;
                        continue;
                    }
                    let caller = st.frames.last_mut().unwrap();
                    if let Some(v) = rv {
                        if fr.dst != NODST {
                            caller.regs[fr.dst as usize] = v;
                        }
                    }
                    // advance past the call
                    let ins = &caller.func.blocks[caller.blk as usize].insts[caller.ip as usize];
                    if let Inst::Call { norm: Some(e), .. } = ins {
                        self.goto(st, e);
                    } else {
                        caller.ip += 1;
                    }
                    continue;
                }
                Inst::Unreachable => {
                    let f = short(&func.name);
                    return Err(Stop::Violation("ub".into(), format!("unreachable reached in {f}")));
                }
                Inst::Resume => return Err(Stop::Violation("ub".into(), "unwind".into())),
                Inst::Rmw { op, w, p, v, dst } => {
                    self.sched_point(st)?;
                    let a = self.opd(st, p);
                    let a = self.conc(st, &a)?;
                    let n = (*w / 8) as usize;
                    let old = self.load_bytes(st, &Val::C(a), n)?;
                    let x = self.opd(st, v);
                    let new = match op {
                        RmwOp::Xchg => x,
                        RmwOp::Add => self.bin(BinOp::Add, *w, &old, &x)?,
                        RmwOp::Sub => self.bin(BinOp::Sub, *w, &old, &x)?,
                        RmwOp::And => self.bin(BinOp::And, *w, &old, &x)?,
                        RmwOp::Or => self.bin(BinOp::Or, *w, &old, &x)?,
                        RmwOp::Xor => self.bin(BinOp::Xor, *w, &old, &x)?,
                        RmwOp::Umax | RmwOp::Umin | RmwOp::Max | RmwOp::Min => {
                            let pr = match op {
                                RmwOp::Umax => Pred::Ugt,
                                RmwOp::Umin => Pred::Ult,
                                RmwOp::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            match self.icmp(pr, *w, &old, &x) {
                                Val::C(1) => old.clone(),
                                Val::C(_) => x,
                                Val::S(c) => {
                                    let (a, b) = (self.toe(&old, *w), self.toe(&x, *w));
                                    let r = self.p.ite(c, a, b);
                                    self.val(r)
                                }
                                _ => panic!(),
                            }
                        }
                        RmwOp::Nand => panic!("nand"),
                    };
                    let (r, off) = self.resolve(st, a, n as u64, true)?;
                    self.write_obj(st, r, off, n, &new);
                    if !matches!((&old, &new), (Val::C(x), Val::C(y)) if x == y) {
                        Self::progress(st);
                    }
                    Self::set(st, *dst, old);
                }
                Inst::CmpXchg { w, p, c, n, dst } => {
                    self.sched_point(st)?;
                    let a = self.opd(st, p);
                    let a = self.conc(st, &a)?;
                    let len = (*w / 8) as usize;
                    let old = self.load_bytes(st, &Val::C(a), len)?;
                    let cmp = self.opd(st, c);
                    let eq = match self.icmp(Pred::Eq, *w, &old, &cmp) {
                        Val::C(x) => x == 1,
                        Val::S(e) => self.decide(st, e)?,
                        _ => panic!(),
                    };
                    if eq {
                        let nv = self.opd(st, n);
                        let (r, off) = self.resolve(st, a, len as u64, true)?;
                        self.write_obj(st, r, off, len, &nv);
                        Self::progress(st);
                    }
                    Self::set(st, *dst, Val::Agg(Rc::new(vec![old, Val::C(eq as u64)])));
                }
                Inst::Call { callee, args, ret, dst, norm } => {
                    let id = match callee {
                        Callee::Fn(id) => *id,
                        Callee::Ind(o) => {
                            let v = self.opd(st, o);
                            let a = self.conc(st, &v)?;
                            match self.m.addr_fn(a) {
                                Some(i) => i,
                                None => {
                                    let f = short(&func.name);
                                    return Err(Stop::Violation("memory".into(), format!("call through invalid pointer in {f}")));
                                }
                            }
                        }
                        Callee::Asm(t) => {
                            let v = if t.is_empty() {
                                None
                            } else if t.contains("cpuid") {
                                Some(self.m.zero(&mut self.p, *ret))
                            } else if t.starts_with("div $") && args.len() == 3 {
                                // (rem, quot) of (hi:lo) / d; one value where they are symbolic
                                let mut a = [0u64; 3];
                                for (a, o) in a.iter_mut().zip(args) {
                                    let v = self.opd(st, &o.0);
                                    *a = self.one_value(st, &v, "inline asm div")?;
                                }
                                let [d, hi, lo] = a;
                                if hi >= d {
                                    return Err(Stop::Violation("ub".into(), "division overflow".into()));
                                }
                                let x = (hi as u128) << 64 | lo as u128;
                                let (q, r) = (x / d as u128, x % d as u128);
                                Some(Val::Agg(Rc::new(vec![Val::C(r as u64), Val::C(q as u64)])))
                            } else {
                                return Err(Stop::Inconclusive(format!("inline asm {t:?}")));
                            };
                            if let Some(v) = v {
                                Self::set(st, *dst, v);
                            }
                            st.frames.last_mut().unwrap().ip += 1;
                            continue;
                        }
                    };
                    let mut x = self.ext[id as usize];
                    if let Ext::Hash(wide) = x {
                        let av: Vec<Val> = args.iter().map(|a| self.opd(st, &a.0)).collect();
                        if self.hash(st, wide, &av)? {
                            st.frames.last_mut().unwrap().ip += 1;
                            continue;
                        }
                        x = Ext::None; // no blocks
                    }
                    if x == Ext::None {
                        let f = self.func(id);
                        if st.frames.len() > 400 {
                            return Err(Stop::Violation("hang".into(), "call depth over 400".into()));
                        }
                        let mut regs = vec![Val::C(0); f.nregs as usize];
                        for (i, r) in f.params.iter().enumerate() {
                            if i < args.len() {
                                regs[*r as usize] = self.opd(st, &args[i].0);
                            }
                        }
                        st.frames.push(Frame { func: f, blk: 0, ip: 0, dst: *dst, regs, allocas: vec![] });
                        continue;
                    }
                    let mut av = Vec::with_capacity(args.len());
                    for (o, _) in args {
                        av.push(self.opd(st, o));
                    }
                    let tys: Vec<TyId> = args.iter().map(|a| a.1).collect();
                    let before = (st.cur, st.frames.len());
                    let r = self.external(st, x, id, &av, &tys, *ret)?;
                    if let Some(v) = r {
                        Self::set(st, *dst, v);
                    }
                    let _ = before;
                    match norm {
                        Some(e) => {
                            self.goto(st, e);
                            self.after_ext(st)?;
                            continue;
                        }
                        None => {
                            st.frames.last_mut().unwrap().ip += 1;
                            self.after_ext(st)?;
                            continue;
                        }
                    }
                }
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    /// a blocking external may have marked the current thread as not runnable
    fn after_ext(&mut self, st: &mut State) -> R<()> {
        if st.others.len() > 1 && st.others[st.cur].stat == TStat::Yield {
            // It waits for something another thread does, so it goes on after another thread changed
            // something (see `progress`), or when nobody else can.
            if !st.others.iter().any(|t| t.stat == TStat::Run) {
                for i in 0..st.others.len() {
                    if i != st.cur && st.others[i].stat == TStat::Yield {
                        st.others[i].stat = TStat::Run;
                    }
                }
                let n = st.others.len();
                let c = st.cur;
                match (1..n).map(|k| (c + k) % n).find(|&i| st.others[i].stat == TStat::Run) {
                    Some(i) => self.switch_to(st, i),
                    None => st.others[c].stat = TStat::Run,
                }
                return Ok(());
            }
            return self.switch_any(st);
        }
        if st.others.len() > 1 && st.others[st.cur].stat != TStat::Run {
            self.switch_any(st)?;
        }
        Ok(())
    }
    /// the current thread changed something others may wait for
    fn progress(st: &mut State) {
        let c = st.cur;
        for (i, t) in st.others.iter_mut().enumerate() {
            if i != c && t.stat == TStat::Yield {
                t.stat = TStat::Run;
            }
        }
    }
    fn switch_to(&mut self, st: &mut State, t: usize) {
        let c = st.cur;
        if c != t {
            let f = std::mem::take(&mut st.frames);
            st.others[c].frames = f;
            st.frames = std::mem::take(&mut st.others[t].frames);
            st.cur = t;
        }
        st.sched.push(t as u8);
    }
    /// the current thread cannot continue: pick any runnable one, forking over the choice
    fn switch_any(&mut self, st: &mut State) -> R<()> {
        if !st.others.iter().any(|t| t.stat == TStat::Run) {
            Self::progress(st);
        }
        let run: Vec<usize> = (0..st.others.len()).filter(|&i| st.others[i].stat == TStat::Run).collect();
        if run.is_empty() {
            return Err(Stop::Violation("deadlock".into(), "all threads are blocked".into()));
        }
        for &t in &run[1..] {
            let mut sib = st.clone();
            self.switch_to(&mut sib, t);
            self.stats.forks += 1;
            self.work.push(sib);
        }
        self.switch_to(st, run[0]);
        Ok(())
    }
    /// scheduling decision before an atomic operation
    fn sched_point(&mut self, st: &mut State) -> R<()> {
        if st.others.len() < 2 {
            return Ok(());
        }
        if st.no_sched_once {
            st.no_sched_once = false;
            return Ok(());
        }
        st.atomics += 1;
        if st.preempts >= self.cfg.max_preempts {
            return Ok(());
        }
        let run: Vec<usize> =
            (0..st.others.len()).filter(|&i| i != st.cur && st.others[i].stat == TStat::Run).collect();
        self.stats.sched_points += 1;
        for t in run {
            let mut sib = st.clone();
            sib.preempts += 1;
            self.switch_to(&mut sib, t);
            // the switched-to thread does something before it is preempted
            sib.no_sched_once = true;
            self.stats.forks += 1;
            self.work.push(sib);
        }
        Ok(())
    }

    fn cstr(&mut self, st: &State, a: u64, n: u64) -> R<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let (r, off) = self.resolve(st, a, n, false)?;
        let o = self.obj(st, r);
        let (b, _) = o.slice(off, n as usize);
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn panic_stop(&mut self, st: &mut State, id: u32, av: &[Val]) -> Stop {
        let mut loc = None;
        for a in av.iter().rev() {
            if let Val::C(a) = a {
                if a >> 32 != 1 {
                    continue;
                }
                if let Some(g) = self.glob_idx(*a) {
                    let gg = &self.m.globals[g as usize];
                    if gg.addr == *a && gg.size == 24 {
                        let o = self.glob(st, g);
                        let p = o.read_c(0, 8).unwrap_or(0);
                        let n = o.read_c(8, 8).unwrap_or(0);
                        let line = o.read_c(16, 4).unwrap_or(0);
                        if n < 512 && line > 0 {
                            if let Ok(s) = self.cstr(st, p, n) {
                                loc = Some(format!("{s}:{line}"));
                                break;
                            }
                        }
                    }
                }
            }
        }
        let name = short(&self.m.fns[id as usize].name);
        let l = match loc {
            Some(l) => l,
            None => {
                let f = st.frames.iter().rev().map(|f| short(&f.func.name)).take(3).collect::<Vec<_>>().join(" < ");
                format!("in {f}")
            }
        };
        if st.expect_panic {
            return Stop::PathEnd;
        }
        Stop::Violation("panic".into(), format!("{name} at {l}"))
    }

    fn cover(&mut self, st: &mut State, l: String) {
        let id = match self.covermap.get(&l) {
            Some(&i) => i,
            None => {
                let i = self.covers.len() as u32;
                self.covers.push(l.clone());
                self.cover_count.push(0);
                self.covermap.insert(l, i);
                i
            }
        };
        st.covers.push(id);
    }

    fn new_var(&mut self, st: &mut State) -> E {
        let i = st.nvars;
        st.nvars += 1;
        let m = Rc::make_mut(&mut st.model);
        while m.len() <= i as usize {
            m.push(0);
        }
        st.inputs.push(Inp::Var(i));
        self.p.var(i)
    }

    fn assert(&mut self, st: &mut State, c: E, label: String) -> R<()> {
        self.stats.asserts += 1;
        match self.p.cv(c) {
            Some(1) => {
                self.stats.asserts_folded += 1;
                return Ok(());
            }
            Some(_) => return Err(Stop::Violation("assert".into(), label)),
            None => {}
        }
        let nc = self.p.not1(c);
        if self.ev(st, c) != 1 {
            // the path's own witness breaks it
            return Err(Stop::Violation("assert".into(), label));
        }
        match self.feasible(st, nc, true)? {
            None => Ok(()),
            Some(m) => {
                let mut s2 = st.clone();
                s2.model = m;
                self.repair(&mut s2, Some(nc));
                self.violation(&s2, "assert".into(), label);
                // continue under the assumption that it held
                self.add_pc(st, c);
                Ok(())
            }
        }
    }

    fn cmp_bytes(&mut self, st: &mut State, a: u64, b: u64, n: u64, ordered: bool) -> R<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (ra, oa) = self.resolve(st, a, n, false)?;
        let (rb, ob) = self.resolve(st, b, n, false)?;
        let (x, y) = (self.obj(st, ra), self.obj(st, rb));
        if !ordered {
            let mut eq = self.p.t;
            for i in 0..n as usize {
                let (ba, sa) = x.byte(oa + i);
                let (bb, sb) = y.byte(ob + i);
                if sa == 0 && sb == 0 {
                    if ba != bb {
                        return Ok(Val::C(1));
                    }
                    continue;
                }
                let p = self.byte_e(&x, oa + i);
                let q = self.byte_e(&y, ob + i);
                let c = self.p.eq(p, q);
                eq = self.p.and(eq, c);
                if eq == self.p.f {
                    return Ok(Val::C(1));
                }
            }
            let ne = self.p.not1(eq);
            let r = self.p.zext(ne, 32);
            return Ok(self.val(r));
        }
        // memcmp: sign of the first difference
        let mut r = self.p.konst(32, 0);
        for i in (0..n as usize).rev() {
            let p = self.byte_e(&x, oa + i);
            let q = self.byte_e(&y, ob + i);
            let eq = self.p.eq(p, q);
            let p32 = self.p.zext(p, 32);
            let q32 = self.p.zext(q, 32);
            let d = self.p.sub(p32, q32);
            r = self.p.ite(eq, r, d);
        }
        Ok(self.val(r))
    }

    fn external(&mut self, st: &mut State, x: Ext, id: u32, av: &[Val], tys: &[TyId], ret: TyId) -> R<Option<Val>> {
        Ok(match x {
            Ext::None | Ext::Hash(_) => unreachable!(),
            Ext::Panic => return Err(self.panic_stop(st, id, av)),
            Ext::Intr(i) => return self.intrinsic(st, i, id, av, tys, ret),
            Ext::SymBytes => {
                let a = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[1])?;
                if n > 0 {
                    let (r, off) = self.resolve(st, a, n, true)?;
                    for i in 0..n as usize {
                        let v = self.new_var(st);
                        let o = self.obj_mut(st, r);
                        o.set(off + i, 0, v);
                    }
                }
                None
            }
            Ext::SymParam => {
                let k = self.conc(st, &av[0])? as usize;
                Some(Val::C(self.cfg.params.get(k).copied().unwrap_or(0)))
            }
            Ext::SymChoose => {
                let n = self.conc(st, &av[0])?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                // siblings are created directly with their own choice
                let norm = self.call_norm(st);
                let dst = self.call_dst(st);
                for k in (1..n).rev() {
                    let mut sib = st.clone();
                    sib.inputs.push(Inp::Const(k as u8));
                    Self::set(&mut sib, dst, Val::C(k));
                    match norm {
                        Some(e) => self.goto(&mut sib, e),
                        None => sib.frames.last_mut().unwrap().ip += 1,
                    }
                    sib.depth += 1;
                    self.stats.forks += 1;
                    self.work.push(sib);
                }
                st.inputs.push(Inp::Const(0));
                Some(Val::C(0))
            }
            Ext::SymAssume => {
                let c = match &av[0] {
                    Val::C(x) => {
                        if *x & 1 == 1 {
                            return Ok(None);
                        }
                        return Err(Stop::Infeasible);
                    }
                    Val::S(e) => *e,
                    _ => panic!(),
                };
                let c = self.p.extract(c, 0, 1);
                if self.ev(st, c) == 1 {
                    self.add_pc(st, c);
                } else {
                    match self.feasible(st, c, false)? {
                        None => return Err(Stop::Infeasible),
                        Some(m) => {
                            st.model = m;
                            self.add_pc(st, c);
                        }
                    }
                }
                None
            }
            Ext::SymAssert => {
                let a = self.conc(st, &av[1])?;
                let n = self.conc(st, &av[2])?;
                let l = self.cstr(st, a, n)?;
                let c = self.toe(&av[0], 1);
                let c = self.p.extract(c, 0, 1);
                self.assert(st, c, l)?;
                None
            }
            Ext::SymFail => {
                let a = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[1])?;
                let l = self.cstr(st, a, n)?;
                return Err(Stop::Inconclusive(l));
            }
            Ext::SymCover => {
                let a = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[1])?;
                let l = self.cstr(st, a, n)?;
                self.cover(st, l);
                None
            }
            Ext::SymObserve => {
                let a = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[1])?;
                if n > 0 {
                    let (r, off) = self.resolve(st, a, n, false)?;
                    let o = self.obj(st, r);
                    for i in 0..n as usize {
                        st.observed.push(o.byte(off + i));
                    }
                }
                None
            }
            Ext::SymConc => Some(Val::C(self.conc(st, &av[0])?)),
            Ext::SymExpectPanic => {
                st.expect_panic = self.conc(st, &av[0])? & 1 == 1;
                None
            }
            Ext::SymNVars => Some(Val::C(st.nvars as u64)),
            Ext::SymLive => Some(Val::C(st.live_heap)),
            Ext::SymAllocLimit => {
                st.alloc_limit = match &av[0] {
                    Val::C(x) => *x,
                    _ => return Err(Stop::Inconclusive("symbolic allocation limit".into())),
                };
                None
            }
            Ext::SymIte => {
                // sym_ite(cond: bool, a: u64, b: u64)
                match &av[0] {
                    Val::C(x) => Some(if *x & 1 == 1 { av[1].clone() } else { av[2].clone() }),
                    Val::S(c) => {
                        let c = self.p.extract(*c, 0, 1);
                        let (a, b) = (self.toe(&av[1], 64), self.toe(&av[2], 64));
                        let r = self.p.ite(c, a, b);
                        Some(self.val(r))
                    }
                    _ => panic!(),
                }
            }
            Ext::SymAnd => {
                let w = self.m.bits(ret);
                let (a, b) = (self.toe(&av[0], w), self.toe(&av[1], w));
                let r = self.p.and(a, b);
                Some(self.val(r))
            }
            Ext::SymSpawn => {
                let f = self.conc(st, &av[0])?;
                let fid = match self.m.addr_fn(f) {
                    Some(i) => i,
                    None => return Err(Stop::Inconclusive("sym_spawn target".into())),
                };
                let f = self.func(fid);
                let mut regs = vec![Val::C(0); f.nregs as usize];
                if let Some(r) = f.params.first() {
                    regs[*r as usize] = av[1].clone();
                }
                let fr = Frame { func: f, blk: 0, ip: 0, dst: NODST, regs, allocas: vec![] };
                st.others.push(Thread { frames: vec![fr], stat: TStat::Run });
                Some(Val::C(st.others.len() as u64 - 1))
            }
            Ext::SymJoin => {
                let t = self.conc(st, &av[0])? as usize;
                if st.others[t].stat != TStat::Done {
                    st.others[st.cur].stat = TStat::Join(t as u32);
                }
                None
            }
            Ext::SchedYield => {
                if st.others.len() > 1 {
                    let c = st.cur;
                    st.others[c].stat = TStat::Yield;
                }
                Some(Val::C(0))
            }
            Ext::SymYield => {
                self.sched_point(st)?;
                None
            }
            Ext::Malloc => Some(Val::C(self.malloc(st, &av[0], 0xAA)?)),
            Ext::Calloc => {
                let n = self.conc(st, &av[0])?;
                let m = self.conc(st, &av[1])?;
                Some(Val::C(self.malloc(st, &Val::C(n.saturating_mul(m)), 0)?))
            }
            Ext::Memalign => {
                let n = self.malloc(st, &av[2], 0xAA)?;
                let a = self.conc(st, &av[0])?;
                let (r, off) = self.resolve(st, a, 8, true)?;
                self.write_obj(st, r, off, 8, &Val::C(n));
                Some(Val::C(if n == 0 { 12 } else { 0 }))
            }
            Ext::Realloc => {
                let old = self.conc(st, &av[0])?;
                if old == 0 {
                    return Ok(Some(Val::C(self.malloc(st, &av[1], 0xAA)?)));
                }
                let n = self.malloc(st, &av[1], 0xAA)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let id = (old >> 32) as usize;
                let osz = match st.objs.get(id) {
                    Some(Some(o)) if old & 0xffff_ffff == 0 => o.size,
                    _ => return Err(Stop::Violation("memory".into(), "invalid realloc".into())),
                };
                let nsz = st.objs[(n >> 32) as usize].as_ref().unwrap().size;
                self.copy(st, n, old, osz.min(nsz))?;
                self.free(st, old)?;
                Some(Val::C(n))
            }
            Ext::Free => {
                let a = self.conc(st, &av[0])?;
                self.free(st, a)?;
                None
            }
            Ext::Memcpy => {
                let d = self.conc(st, &av[0])?;
                let s = self.conc(st, &av[1])?;
                let n = self.conc(st, &av[2])?;
                self.copy(st, d, s, n)?;
                Some(Val::C(d))
            }
            Ext::Memset => {
                let d = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[2])?;
                self.memset(st, d, &av[1], n)?;
                Some(Val::C(d))
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.conc(st, &av[2])?;
                let a = self.conc(st, &av[0])?;
                let b = self.conc(st, &av[1])?;
                Some(self.cmp_bytes(st, a, b, n, x == Ext::Memcmp)?)
            }
            Ext::Strlen => {
                let a = self.conc(st, &av[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_bytes(st, &Val::C(a + n), 1)?;
                    if self.conc(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Ext::Write => Some(av[2].clone()),
            Ext::Getenv => Some(Val::C(0)),
            Ext::Getrandom => {
                let a = self.conc(st, &av[0])?;
                let n = self.conc(st, &av[1])?;
                self.random(st, a, n)?;
                Some(Val::C(n))
            }
            Ext::Syscall => {
                let nr = self.conc(st, &av[0])?;
                match nr {
                    318 => {
                        let a = self.conc(st, &av[1])?;
                        let n = self.conc(st, &av[2])?;
                        self.random(st, a, n)?;
                        Some(Val::C(n))
                    }
                    202 => {
                        // futex
                        let a = self.conc(st, &av[1])?;
                        let op = self.conc(st, &av[2])? & 0x7f;
                        let v = self.conc(st, &av[3])?;
                        match op {
                            0 | 9 => {
                                let cur = self.load_bytes(st, &Val::C(a), 4)?;
                                let cur = self.conc(st, &cur)?;
                                if cur as u32 == v as u32 {
                                    if st.others.len() < 2 {
                                        return Err(Stop::Violation("deadlock".into(), "futex wait with a single thread".into()));
                                    }
                                    st.others[st.cur].stat = TStat::Futex(a);
                                    Some(Val::C(0))
                                } else {
                                    if self.errno_addr == 0 {}
                                    Some(Val::C(u64::MAX))
                                }
                            }
                            1 | 10 => {
                                let mut k = 0;
                                for t in st.others.iter_mut() {
                                    if t.stat == TStat::Futex(a) && k < v {
                                        t.stat = TStat::Run;
                                        k += 1;
                                    }
                                }
                                Some(Val::C(k))
                            }
                            _ => return Err(Stop::Inconclusive(format!("futex op {op}"))),
                        }
                    }
                    _ => return Err(Stop::Inconclusive(format!("syscall {nr}"))),
                }
            }
            Ext::Errno => {
                // one location per path is enough
                let a = self.alloc(st, 4, 0, false);
                Some(Val::C(a))
            }
            Ext::Abort => {
                let f = st.frames.iter().rev().map(|f| short(&f.func.name)).take(3).collect::<Vec<_>>().join(" < ");
                return Err(Stop::Violation("abort".into(), format!("in {f}")));
            }
            Ext::ClockGettime => {
                let a = self.conc(st, &av[1])?;
                st.rand_ctr += 1;
                let (r, off) = self.resolve(st, a, 16, true)?;
                self.write_obj(st, r, off, 8, &Val::C(1000 + st.rand_ctr));
                self.write_obj(st, r, off + 8, 8, &Val::C(0));
                Some(Val::C(0))
            }
            Ext::Zero => Some(Val::C(0)),
            Ext::Unknown => {
                return Err(Stop::Inconclusive(format!("external function {}", self.m.fns[id as usize].name)));
            }
        })
    }

    /// A compression function of a hash on symbolic values: the outputs are new variables, the
    /// same ones for the same inputs; concrete inputs give the real values.
    fn hash(&mut self, st: &mut State, wide: bool, av: &[Val]) -> R<bool> {
        let sp = self.conc(st, &av[0])?;
        let bp = self.conc(st, &av[1])?;
        let n = self.conc(st, &av[2])?;
        let len = if wide { 32 } else { 20 };
        let get = |me: &mut Self, st: &mut State, a: u64, n: usize| -> R<Vec<E>> {
            let (r, off) = me.resolve(st, a, n as u64, false)?;
            let o = me.obj(st, r);
            Ok((0..n)
                .map(|i| {
                    let e = me.byte_e(&o, off + i);
                    if me.p.cv(e).is_none() && me.unfixed(st, e, 1).is_empty() {
                        // determined by the path
                        let x = me.ev(st, e);
                        me.p.konst(8, x)
                    } else {
                        e
                    }
                })
                .collect())
        };
        if n == 0 {
            return Ok(false);
        }
        // one block after the other
        for i in 0..n {
            let mut inp = get(self, st, sp, len)?;
            inp.extend(get(self, st, bp + 64 * i, 64)?);
            let m = st.model.clone();
            let mut conc = inp.iter().all(|e| self.p.cv(*e).is_some());
            self.use_model(&m);
            let vals: Vec<u8> = inp.iter().map(|e| self.p.eval(*e, &m) as u8).collect();
            if !conc && st.hashed.iter().any(|h| h.0 == wide && *h.1 == vals) {
                // perhaps the path allows only these values
                let other: Vec<E> = vals.iter().map(|x| self.p.konst(8, *x as u128)).collect();
                conc = self.same(st, &inp, &other)?;
            }
            let (r, off) = self.resolve(st, sp, len as u64, true)?;
            if conc {
                let out = self.real_hash(wide, &inp, &m);
                if !st.hashed.iter().any(|h| h.0 == wide && *h.1 == vals) {
                    st.hashed.push((wide, Rc::new(vals)));
                }
                for k in 0..len {
                    let o = self.obj_mut(st, r);
                    o.set(off + k, out[k], 0);
                }
                continue;
            }
            let mut old = st.hashes.iter().find(|h| h.0 == wide && *h.1 == inp).map(|h| h.2);
            if old.is_none() {
                for h in st.hashes.clone() {
                    if h.0 == wide && h.1.iter().zip(&vals).all(|(e, x)| self.p.eval(*e, &m) as u8 == *x) && self.same(st, &inp, &h.1)? {
                        old = Some(h.2);
                        break;
                    }
                    self.use_model(&m);
                }
            }
            let first = match old {
                Some(v) => v,
                None => {
                    let first = st.nvars;
                    let real = self.real_hash(wide, &inp, &m);
                    st.nvars += len as u32;
                    let m = Rc::make_mut(&mut st.model);
                    m.resize(first as usize, 0);
                    m.extend(real);
                    st.hashes.push((wide, Rc::new(inp), first));
                    first
                }
            };
            for k in 0..len {
                let v = self.p.var(first + k as u32);
                let o = self.obj_mut(st, r);
                o.set(off + k, 0, v);
            }
        }
        Ok(true)
    }

    /// Whether bytes are equal in every case the path allows.
    fn same(&mut self, st: &mut State, a: &[E], b: &[E]) -> R<bool> {
        let mut d = self.p.konst(1, 0);
        for (x, y) in a.iter().zip(b) {
            if x != y {
                let q = self.p.eq(*x, *y);
                let q = self.p.not1(q);
                d = self.p.or(d, q);
            }
        }
        Ok(self.feasible(st, d, false)?.is_none())
    }

    fn real_hash(&mut self, wide: bool, inp: &[E], m: &Rc<Vec<u8>>) -> Vec<u8> {
        self.use_model(m);
        let b: Vec<u8> = inp.iter().map(|e| self.p.eval(*e, m) as u8).collect();
        let k = b.len() - 64;
        if wide {
            crate::hash::sha256(&b[..k], &b[k..])
        } else {
            crate::hash::sha1(&b[..k], &b[k..])
        }
    }

    /// Gives the outputs of hashes their real values. False if the path is not taken then.
    fn repair(&mut self, st: &mut State, also: Option<E>) -> bool {
        if st.hashes.is_empty() {
            return true;
        }
        let mut m = (*st.model).clone();
        for (wide, inp, first) in st.hashes.clone() {
            let rm = Rc::new(m.clone());
            let real = self.real_hash(wide, &inp, &rm);
            let f = first as usize;
            m[f..f + real.len()].copy_from_slice(&real);
        }
        let m = Rc::new(m);
        self.use_model(&m);
        let ok = st.pc.iter().chain(also.iter()).all(|e| self.p.eval(*e, &m) == 1)
            && st.fixed.iter().all(|(e, k)| self.p.eval(*e, &m) == *k)
            && st.dom.iter().all(|(v, d)| bit(d, m.get(*v as usize).copied().unwrap_or(0)));
        if ok {
            st.model = m;
        }
        ok
    }

    fn random(&mut self, st: &mut State, a: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (r, off) = self.resolve(st, a, n, true)?;
        for i in 0..n as usize {
            st.rand_ctr = st.rand_ctr.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (st.rand_ctr >> 33) as u8;
            let o = self.obj_mut(st, r);
            o.set(off + i, b, 0);
        }
        Ok(())
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (r, off) = self.resolve(st, d, n, true)?;
        let (b, e) = match v {
            Val::C(x) => (*x as u8, 0),
            Val::S(e) => {
                let e = self.p.extract(*e, 0, 8);
                match self.p.cv(e) {
                    Some(k) => (k as u8, 0),
                    None => (0, e),
                }
            }
            _ => panic!(),
        };
        let o = self.obj_mut(st, r);
        o.fill(off, n as usize, b, e);
        Ok(())
    }

    fn call_norm(&self, st: &State) -> Option<&'static Edge> {
        let fr = st.frames.last().unwrap();
        match &fr.func.blocks[fr.blk as usize].insts[fr.ip as usize] {
            Inst::Call { norm, .. } => norm.as_ref(),
            _ => None,
        }
    }
    fn call_dst(&self, st: &State) -> u32 {
        let fr = st.frames.last().unwrap();
        match &fr.func.blocks[fr.blk as usize].insts[fr.ip as usize] {
            Inst::Call { dst, .. } => *dst,
            _ => NODST,
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: I, id: u32, av: &[Val], tys: &[TyId], ret: TyId) -> R<Option<Val>> {
        // vector forms elementwise
        if let (Some(Val::Agg(a0)), false) = (av.first(), matches!(i, I::ReduceOr | I::ReduceAnd | I::ReduceAdd)) {
            let n = a0.len();
            let mut out = vec![];
            let et = match &self.m.tys[tys[0] as usize] {
                Ty::Vec(_, e) => *e,
                _ => return Err(Stop::Inconclusive("aggregate intrinsic".into())),
            };
            let rt = match &self.m.tys[ret as usize] {
                Ty::Vec(_, e) => *e,
                _ => return Err(Stop::Inconclusive("aggregate intrinsic".into())),
            };
            for k in 0..n {
                let a: Vec<Val> = av
                    .iter()
                    .map(|v| match v {
                        Val::Agg(x) => x[k].clone(),
                        v => v.clone(),
                    })
                    .collect();
                let t: Vec<TyId> = tys.iter().map(|_| et).collect();
                out.push(self.intrinsic(st, i, id, &a, &t, rt)?.unwrap());
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let w = tys.first().map(|t| match &self.m.tys[*t as usize] {
            Ty::Vec(..) => self.m.lanes(*t).1,
            Ty::Struct(..) | Ty::Arr(..) => 0,
            _ => self.m.bits(*t),
        });
        let w = w.unwrap_or(0);
        macro_rules! e {
            ($k:expr) => {{
                let v = &av[$k];
                self.toe(v, w)
            }};
        }
        let r = match i {
            I::Nop => return Ok(None),
            I::Pause => {
                if st.others.len() > 1 {
                    let c = st.cur;
                    st.others[c].stat = TStat::Yield;
                }
                return Ok(None);
            }
            I::Assume => {
                return Ok(None);
            }
            I::Memcpy => {
                let n = self.conc(st, &av[2])?;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.conc(st, &av[0])?;
                let s = self.conc(st, &av[1])?;
                self.copy(st, d, s, n)?;
                return Ok(None);
            }
            I::Memset => {
                let n = self.conc(st, &av[2])?;
                if n == 0 {
                    return Ok(None);
                }
                let d = self.conc(st, &av[0])?;
                self.memset(st, d, &av[1], n)?;
                return Ok(None);
            }
            I::Expect | I::Tls => return Ok(Some(av[0].clone())),
            I::Umin | I::Umax | I::Smin | I::Smax => {
                let pr = match i {
                    I::Umin => Pred::Ult,
                    I::Umax => Pred::Ugt,
                    I::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                match self.icmp(pr, w, &av[0], &av[1]) {
                    Val::C(1) => return Ok(Some(av[0].clone())),
                    Val::C(_) => return Ok(Some(av[1].clone())),
                    Val::S(c) => {
                        let (a, b) = (e!(0), e!(1));
                        self.p.ite(c, a, b)
                    }
                    _ => panic!(),
                }
            }
            I::UsubSat => {
                let (a, b) = (e!(0), e!(1));
                let lt = self.p.ult(a, b);
                let d = self.p.sub(a, b);
                let z = self.p.konst(w, 0);
                self.p.ite(lt, z, d)
            }
            I::UaddSat => {
                let (a, b) = (e!(0), e!(1));
                let s = self.p.add(a, b);
                let ov = self.p.ult(s, a);
                let m = self.p.konst(w, mask(w));
                self.p.ite(ov, m, s)
            }
            I::SaddSat | I::SsubSat => {
                let (a, b) = (e!(0), e!(1));
                let (ax, bx) = (self.p.sext(a, w + 1), self.p.sext(b, w + 1));
                let s = if i == I::SaddSat { self.p.add(ax, bx) } else { self.p.sub(ax, bx) };
                let t = self.p.extract(s, 0, w);
                let back = self.p.sext(t, w + 1);
                let ok = self.p.eq(back, s);
                let neg = self.p.extract(s, w, 1);
                let mn = self.p.konst(w, 1 << (w - 1));
                let mx = self.p.konst(w, (1 << (w - 1)) - 1);
                let sat = self.p.ite(neg, mn, mx);
                self.p.ite(ok, t, sat)
            }
            I::UaddO | I::UsubO | I::UmulO | I::SaddO | I::SsubO | I::SmulO => {
                let (a, b) = (e!(0), e!(1));
                let (r, o) = match i {
                    I::UaddO => {
                        let s = self.p.add(a, b);
                        // no overflow when the bounds say so
                        let o = if self.p.umax(a) + self.p.umax(b) <= mask(w) { self.p.f } else { self.p.ult(s, a) };
                        (s, o)
                    }
                    I::UsubO => {
                        let s = self.p.sub(a, b);
                        let o = self.p.ult(a, b);
                        (s, o)
                    }
                    I::UmulO => {
                        let s = self.p.mul(a, b);
                        let o = match self.p.umax(a).checked_mul(self.p.umax(b)) {
                            Some(m) if m <= mask(w) => self.p.f,
                            _ => {
                                // constant factor: a > max / k
                                if let Some(k) = self.p.cv(b) {
                                    let lim = self.p.konst(w, mask(w) / k.max(1));
                                    self.p.ult(lim, a)
                                } else if let Some(k) = self.p.cv(a) {
                                    let lim = self.p.konst(w, mask(w) / k.max(1));
                                    self.p.ult(lim, b)
                                } else {
                                    let (x, y) = (self.p.zext(a, 2 * w), self.p.zext(b, 2 * w));
                                    let m = self.p.mul(x, y);
                                    let h = self.p.extract(m, w, w);
                                    let z = self.p.konst(w, 0);
                                    self.p.ne(h, z)
                                }
                            }
                        };
                        (s, o)
                    }
                    _ => {
                        let s = match i {
                            I::SaddO => self.p.add(a, b),
                            I::SsubO => self.p.sub(a, b),
                            _ => self.p.mul(a, b),
                        };
                        let kv = if i == I::SmulO { self.p.cv(b).map(|k| (k, a)).or(self.p.cv(a).map(|k| (k, b))) } else { None };
                        let (mx, mn) = (mask(w) >> 1, 1u128 << (w - 1));
                        let o = match kv {
                            Some((k, x)) if k > 0 && k <= mx && w < 127 => {
                                // constant factor: x < min / k or x > max / k (both towards zero)
                                let lo = self.p.konst(w, ((-((mn / k) as i128)) as u128) & mask(w));
                                let hi = self.p.konst(w, mx / k);
                                let (l, h) = (self.p.slt(x, lo), self.p.slt(hi, x));
                                self.p.or(l, h)
                            }
                            _ => {
                                let n = if i == I::SmulO { 2 * w } else { w + 1 };
                                let (x, y) = (self.p.sext(a, n), self.p.sext(b, n));
                                let m = match i {
                                    I::SaddO => self.p.add(x, y),
                                    I::SsubO => self.p.sub(x, y),
                                    _ => self.p.mul(x, y),
                                };
                                let hi = self.p.konst(n, mx);
                                let lo = self.p.konst(n, mask(n) & !mx);
                                let (l, h) = (self.p.slt(m, lo), self.p.slt(hi, m));
                                self.p.or(l, h)
                            }
                        };
                        (s, o)
                    }
                };
                let (r, o) = (self.val(r), self.val(o));
                return Ok(Some(Val::Agg(Rc::new(vec![r, o]))));
            }
            I::Fshl | I::Fshr => {
                let (a, b) = (e!(0), e!(1));
                let s = e!(2);
                let k = match self.p.cv(s) {
                    Some(k) => (k % w as u128) as u32,
                    None => (self.conc_e(st, s)? % w as u64) as u32,
                };
                let c = self.p.concat(a, b);
                if i == I::Fshl {
                    self.p.extract(c, w - k, w)
                } else {
                    self.p.extract(c, k, w)
                }
            }
            I::Ctpop => {
                let a = e!(0);
                let mut s = self.p.konst(w, 0);
                for k in 0..w {
                    let b = self.p.extract(a, k, 1);
                    let b = if w > 1 { self.p.zext(b, w) } else { b };
                    s = self.p.add(s, b);
                }
                s
            }
            I::Ctlz | I::Cttz => {
                let a = e!(0);
                let mut r = self.p.konst(w, w as u128);
                for j in 0..w {
                    // highest priority built last
                    let pos = if i == I::Ctlz { j } else { w - 1 - j };
                    let b = self.p.extract(a, pos, 1);
                    let v = self.p.konst(w, if i == I::Ctlz { (w - 1 - pos) as u128 } else { pos as u128 });
                    r = self.p.ite(b, v, r);
                }
                r
            }
            I::Bswap => {
                let a = e!(0);
                let mut r = self.p.extract(a, 0, 8);
                for k in 1..w / 8 {
                    let b = self.p.extract(a, k * 8, 8);
                    r = self.p.concat(r, b);
                }
                r
            }
            I::Bitrev => {
                let a = e!(0);
                let mut r = self.p.extract(a, 0, 1);
                for k in 1..w {
                    let b = self.p.extract(a, k, 1);
                    r = self.p.concat(r, b);
                }
                r
            }
            I::Abs => {
                let a = e!(0);
                let s = self.p.extract(a, w - 1, 1);
                let n = self.p.neg(a);
                self.p.ite(s, n, a)
            }
            I::Fabs => {
                let a = e!(0);
                let m = self.p.konst(w, mask(w) >> 1);
                self.p.and(a, m)
            }
            I::Ucmp | I::Scmp => {
                let (a, b) = (e!(0), e!(1));
                let rw = self.m.bits(ret);
                let lt = if i == I::Ucmp { self.p.ult(a, b) } else { self.p.slt(a, b) };
                let eq = self.p.eq(a, b);
                let (m1, z, o) = (self.p.konst(rw, mask(rw)), self.p.konst(rw, 0), self.p.konst(rw, 1));
                let x = self.p.ite(eq, z, o);
                self.p.ite(lt, m1, x)
            }
            I::IsConst => return Ok(Some(Val::C(0))),
            I::LoadRel => {
                let b = self.conc(st, &av[0])?;
                let off = self.conc(st, &av[1])?;
                let v = self.load_bytes(st, &Val::C(b.wrapping_add(off)), 4)?;
                let v = self.conc(st, &v)?;
                return Ok(Some(Val::C(b.wrapping_add(v as u32 as i32 as i64 as u64))));
            }
            I::Trap => {
                let f = st.frames.iter().rev().map(|f| short(&f.func.name)).take(3).collect::<Vec<_>>().join(" < ");
                return Err(Stop::Violation("abort".into(), format!("trap in {f}")));
            }
            I::ReduceOr | I::ReduceAnd | I::ReduceAdd => {
                let vs = match &av[0] {
                    Val::Agg(v) => v.clone(),
                    _ => panic!(),
                };
                let mut r = self.toe(&vs[0], w);
                for x in &vs[1..] {
                    let y = self.toe(x, w);
                    r = match i {
                        I::ReduceOr => self.p.or(r, y),
                        I::ReduceAnd => self.p.and(r, y),
                        _ => self.p.add(r, y),
                    };
                }
                r
            }
            I::FpToUiSat | I::FpToSiSat => {
                let v = match &av[0] {
                    Val::C(x) => *x,
                    _ => return Err(Stop::Inconclusive("symbolic fp to int".into())),
                };
                let f = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let rw = self.m.bits(ret);
                let k = if i == I::FpToUiSat {
                    (f as u128).min(mask(rw))
                } else {
                    let mx = (1i128 << (rw - 1)) - 1;
                    let mn = -(1i128 << (rw - 1));
                    (f as i128).clamp(mn, mx) as u128 & mask(rw)
                };
                return Ok(Some(Val::C(k as u64)));
            }
            I::PtrMask => {
                let (a, b) = (e!(0), e!(1));
                self.p.and(a, b)
            }
            I::Unknown => {
                return Err(Stop::Inconclusive(format!("intrinsic {}", self.m.fns[id as usize].name)));
            }
        };
        Ok(Some(self.val(r)))
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn pending(&self) -> usize {
        self.work.len()
    }
}

fn same_moves(a: &Edge, b: &Edge) -> bool {
    if a.moves.len() != b.moves.len() {
        return false;
    }
    a.moves.iter().zip(&b.moves).all(|((d1, o1), (d2, o2))| {
        d1 == d2
            && match (o1, o2) {
                (Opd::R(x), Opd::R(y)) => x == y,
                (Opd::K(Val::C(x)), Opd::K(Val::C(y))) => x == y,
                _ => false,
            }
    })
}

/// crude shortening of a v0-mangled name: keep the identifiers
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 1 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                let id = &n[j..j + k];
                if b[j].is_ascii_alphabetic() || b[j] == b'_' {
                    out.push(id.to_string());
                    i = j + k;
                    continue;
                }
            }
        } else if b[i] == b's' || b[i] == b'C' || b[i] == b'B' {
            // disambiguators / backrefs: skip base62 until '_'
            if (b[i] == b's' || b[i] == b'B') && i + 1 < b.len() {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' && j - i < 14 {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.dedup();
    let k = out.len().saturating_sub(7);
    out[k..].join("::")
}

fn resident_mb() -> u64 {
    let pages = std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()));
    pages.unwrap_or(0) >> 8
}
