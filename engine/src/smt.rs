//! Thin binding to libz3 (loaded with dlopen) and translation of the expression DAG.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sym = *mut c_void;
type Params = *mut c_void;
type Decl = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Result<Api, String> {
                Ok(Api { $($name: {
                    let n = CString::new(concat!("Z3_", stringify!($name))).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { return Err(format!("missing Z3_{}", stringify!($name))); }
                    std::mem::transmute(p)
                },)* })
            }
        }
    };
}
type U = fn() -> ();
api! {
    mk_config: fn() -> *mut c_void;
    mk_context: fn(*mut c_void) -> Ctx;
    set_error_handler: fn(Ctx, Option<unsafe extern "C" fn(Ctx, c_int)>);
    get_error_code: fn(Ctx) -> c_int;
    mk_int_sort: fn(Ctx) -> Sort;
    mk_add: fn(Ctx, c_uint, *const Ast) -> Ast;
    mk_mul: fn(Ctx, c_uint, *const Ast) -> Ast;
    mk_le: fn(Ctx, Ast, Ast) -> Ast;
    mk_bv_sort: fn(Ctx, c_uint) -> Sort;
    mk_int_symbol: fn(Ctx, c_int) -> Sym;
    mk_string_symbol: fn(Ctx, *const c_char) -> Sym;
    mk_const: fn(Ctx, Sym, Sort) -> Ast;
    mk_func_decl: fn(Ctx, Sym, c_uint, *const Sort, Sort) -> Decl;
    mk_app: fn(Ctx, Decl, c_uint, *const Ast) -> Ast;
    mk_numeral: fn(Ctx, *const c_char, Sort) -> Ast;
    mk_unsigned_int64: fn(Ctx, u64, Sort) -> Ast;
    mk_true: fn(Ctx) -> Ast;
    mk_false: fn(Ctx) -> Ast;
    mk_not: fn(Ctx, Ast) -> Ast;
    mk_and: fn(Ctx, c_uint, *const Ast) -> Ast;
    mk_or: fn(Ctx, c_uint, *const Ast) -> Ast;
    mk_xor: fn(Ctx, Ast, Ast) -> Ast;
    mk_eq: fn(Ctx, Ast, Ast) -> Ast;
    mk_ite: fn(Ctx, Ast, Ast, Ast) -> Ast;
    mk_bvadd: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvmul: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvudiv: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvsdiv: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvurem: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvsrem: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvand: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvor: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvxor: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvshl: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvlshr: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvashr: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvult: fn(Ctx, Ast, Ast) -> Ast;
    mk_bvslt: fn(Ctx, Ast, Ast) -> Ast;
    mk_zero_ext: fn(Ctx, c_uint, Ast) -> Ast;
    mk_sign_ext: fn(Ctx, c_uint, Ast) -> Ast;
    mk_extract: fn(Ctx, c_uint, c_uint, Ast) -> Ast;
    mk_concat: fn(Ctx, Ast, Ast) -> Ast;
    mk_solver_for_logic: fn(Ctx, Sym) -> Solver;
    solver_inc_ref: fn(Ctx, Solver);
    solver_set_params: fn(Ctx, Solver, Params);
    solver_assert: fn(Ctx, Solver, Ast);
    solver_check: fn(Ctx, Solver) -> c_int;
    solver_reset: fn(Ctx, Solver);
    solver_push: fn(Ctx, Solver);
    solver_pop: fn(Ctx, Solver, c_uint);
    solver_get_model: fn(Ctx, Solver) -> Model;
    model_inc_ref: fn(Ctx, Model);
    model_dec_ref: fn(Ctx, Model);
    model_eval: fn(Ctx, Model, Ast, bool, *mut Ast) -> bool;
    get_numeral_uint64: fn(Ctx, Ast, *mut u64) -> bool;
    mk_params: fn(Ctx) -> Params;
    params_inc_ref: fn(Ctx, Params);
    params_dec_ref: fn(Ctx, Params);
    params_set_uint: fn(Ctx, Params, Sym, c_uint);
    get_full_version: fn() -> *const c_char;
    solver_to_string: fn(Ctx, Solver) -> *const c_char;
}
const _: Option<U> = None;

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    api: Api,
    ctx: Ctx,
    solver: Solver,
    bools: Vec<Ast>,
    bvs: Vec<Ast>,
    vars: Vec<Ast>,
    ufs: FxMap<(u32, u32, u32, u32), Decl>,
    bv1: (Ast, Ast),
    int: Sort,
    lia: Solver,
    timeout_ms: u32,
    ints: Vec<Ast>,
    pub lia_queries: u64,
    pub queries: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub unknowns: u64,
    pub version: String,
}

static CANDIDATES: &[&str] = &[
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
    "libz3.so",
];

unsafe extern "C" fn on_error(_c: Ctx, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(3);
}

impl Smt {
    pub fn new(lib: Option<&str>, timeout_ms: u32) -> Result<Smt, String> {
        unsafe {
            let mut h = std::ptr::null_mut();
            let list: Vec<&str> = match lib {
                Some(l) => vec![l],
                None => CANDIDATES.to_vec(),
            };
            for c in list {
                let c = CString::new(c).unwrap();
                h = dlopen(c.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                return Err("libz3 not found".into());
            }
            let api = Api::load(h)?;
            let cfg = (api.mk_config)();
            let ctx = (api.mk_context)(cfg);
            (api.set_error_handler)(ctx, Some(on_error));
            let logic = CString::new("QF_UFBV").unwrap();
            let logic_bv = CString::new("QF_BV").unwrap();
            let _ = logic;
            let s = (api.mk_solver_for_logic)(ctx, (api.mk_string_symbol)(ctx, logic_bv.as_ptr()));
            (api.solver_inc_ref)(ctx, s);
            let p = (api.mk_params)(ctx);
            (api.params_inc_ref)(ctx, p);
            let t = CString::new("timeout").unwrap();
            (api.params_set_uint)(ctx, p, (api.mk_string_symbol)(ctx, t.as_ptr()), timeout_ms);
            (api.solver_set_params)(ctx, s, p);
            let logic = CString::new("QF_LIA").unwrap();
            let lia = (api.mk_solver_for_logic)(ctx, (api.mk_string_symbol)(ctx, logic.as_ptr()));
            (api.solver_inc_ref)(ctx, lia);
            let p = (api.mk_params)(ctx);
            (api.params_inc_ref)(ctx, p);
            (api.params_set_uint)(ctx, p, (api.mk_string_symbol)(ctx, t.as_ptr()), timeout_ms);
            (api.solver_set_params)(ctx, lia, p);
            let int = (api.mk_int_sort)(ctx);
            let s1 = (api.mk_bv_sort)(ctx, 1);
            let one = (api.mk_unsigned_int64)(ctx, 1, s1);
            let zero = (api.mk_unsigned_int64)(ctx, 0, s1);
            let version = CStr::from_ptr((api.get_full_version)()).to_string_lossy().into_owned();
            Ok(Smt {
                api,
                ctx,
                solver: s,
                bools: vec![],
                bvs: vec![],
                vars: vec![],
                ufs: Default::default(),
                bv1: (zero, one),
                int,
                lia,
                timeout_ms,
                ints: vec![],
                lia_queries: 0,
                queries: 0,
                time_us: 0,
                max_us: 0,
                unknowns: 0,
                version,
            })
        }
    }

    fn var(&mut self, i: u32) -> Ast {
        while self.vars.len() <= i as usize {
            unsafe {
                let k = self.vars.len();
                let s = (self.api.mk_bv_sort)(self.ctx, 8);
                let a = (self.api.mk_const)(self.ctx, (self.api.mk_int_symbol)(self.ctx, k as c_int), s);
                self.vars.push(a);
            }
        }
        self.vars[i as usize]
    }

    fn numeral(&mut self, w: u32, k: u128) -> Ast {
        unsafe {
            let s = (self.api.mk_bv_sort)(self.ctx, w);
            if k <= u64::MAX as u128 {
                (self.api.mk_unsigned_int64)(self.ctx, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                (self.api.mk_numeral)(self.ctx, t.as_ptr(), s)
            }
        }
    }

    fn boolean(&mut self, p: &Pool, e: E) -> Ast {
        let i = e as usize;
        if self.bools.len() <= i {
            self.bools.resize(p.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bools[i].is_null() {
            return self.bools[i];
        }
        let n = *p.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        (self.api.mk_true)(c)
                    } else {
                        (self.api.mk_false)(c)
                    }
                }
                Op::And => {
                    let v = [self.boolean(p, n.a), self.boolean(p, n.b)];
                    (self.api.mk_and)(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolean(p, n.a), self.boolean(p, n.b)];
                    (self.api.mk_or)(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if p.cv(n.b) == Some(1) {
                        let a = self.boolean(p, n.a);
                        (self.api.mk_not)(c, a)
                    } else {
                        let (a, b) = (self.boolean(p, n.a), self.boolean(p, n.b));
                        (self.api.mk_xor)(c, a, b)
                    }
                }
                Op::Eq => {
                    if p.w(n.a) == 1 {
                        let (a, b) = (self.boolean(p, n.a), self.boolean(p, n.b));
                        (self.api.mk_eq)(c, a, b)
                    } else {
                        let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                        (self.api.mk_eq)(c, a, b)
                    }
                }
                Op::Ult => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    (self.api.mk_bvult)(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                    (self.api.mk_bvslt)(c, a, b)
                }
                Op::Ite => {
                    let (x, a, b) = (self.boolean(p, n.a), self.boolean(p, n.b), self.boolean(p, n.c));
                    (self.api.mk_ite)(c, x, a, b)
                }
                _ => {
                    let a = self.bv_raw(p, e);
                    (self.api.mk_eq)(c, a, self.bv1.1)
                }
            }
        };
        self.bools[i] = r;
        r
    }

    fn bv(&mut self, p: &Pool, e: E) -> Ast {
        let i = e as usize;
        if self.bvs.len() <= i {
            self.bvs.resize(p.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bvs[i].is_null() {
            return self.bvs[i];
        }
        let n = *p.n(e);
        let r = if n.w == 1
            && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Slt | Op::Ite)
        {
            let b = self.boolean(p, e);
            unsafe { (self.api.mk_ite)(self.ctx, b, self.bv1.1, self.bv1.0) }
        } else {
            self.bv_raw(p, e)
        };
        self.bvs[i] = r;
        r
    }

    fn bv_raw(&mut self, p: &Pool, e: E) -> Ast {
        let n = *p.n(e);
        let c = self.ctx;
        macro_rules! bin {
            ($f:ident) => {{
                let (a, b) = (self.bv(p, n.a), self.bv(p, n.b));
                unsafe { (self.api.$f)(c, a, b) }
            }};
        }
        match n.op {
            Op::Const => self.numeral(n.w as u32, n.k),
            Op::Var => self.var(n.k as u32),
            Op::Add => bin!(mk_bvadd),
            Op::Mul => bin!(mk_bvmul),
            Op::UDiv => bin!(mk_bvudiv),
            Op::SDiv => bin!(mk_bvsdiv),
            Op::URem => bin!(mk_bvurem),
            Op::SRem => bin!(mk_bvsrem),
            Op::And => bin!(mk_bvand),
            Op::Or => bin!(mk_bvor),
            Op::Xor => bin!(mk_bvxor),
            Op::Shl => bin!(mk_bvshl),
            Op::LShr => bin!(mk_bvlshr),
            Op::AShr => bin!(mk_bvashr),
            Op::Concat => bin!(mk_concat),
            Op::Ite => {
                let (x, a, b) = (self.boolean(p, n.a), self.bv(p, n.b), self.bv(p, n.c));
                unsafe { (self.api.mk_ite)(c, x, a, b) }
            }
            Op::ZExt => {
                let a = self.bv(p, n.a);
                unsafe { (self.api.mk_zero_ext)(c, n.w as u32 - p.w(n.a), a) }
            }
            Op::SExt => {
                let a = self.bv(p, n.a);
                unsafe { (self.api.mk_sign_ext)(c, n.w as u32 - p.w(n.a), a) }
            }
            Op::Extract => {
                let a = self.bv(p, n.a);
                unsafe { (self.api.mk_extract)(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a) }
            }
            Op::Uf => {
                let a = self.bv(p, n.a);
                let two = n.c == 1;
                let aw = p.w(n.a);
                let bw = if two { p.w(n.b) } else { 0 };
                let key = (n.k as u32, aw, bw, n.w as u32);
                let decl = match self.ufs.get(&key) {
                    Some(d) => *d,
                    None => unsafe {
                        let name = CString::new(format!("uf{}_{}_{}_{}", key.0, key.1, key.2, key.3)).unwrap();
                        let dom = [(self.api.mk_bv_sort)(c, aw), (self.api.mk_bv_sort)(c, bw.max(1))];
                        let rng = (self.api.mk_bv_sort)(c, n.w as u32);
                        let d = (self.api.mk_func_decl)(
                            c,
                            (self.api.mk_string_symbol)(c, name.as_ptr()),
                            if two { 2 } else { 1 },
                            dom.as_ptr(),
                            rng,
                        );
                        self.ufs.insert(key, d);
                        d
                    },
                };
                let args = [a, if two { self.bv(p, n.b) } else { a }];
                unsafe { (self.api.mk_app)(c, decl, if two { 2 } else { 1 }, args.as_ptr()) }
            }
            _ => {
                let b = self.boolean(p, e);
                unsafe { (self.api.mk_ite)(c, b, self.bv1.1, self.bv1.0) }
            }
        }
    }

    fn inum(&mut self, k: i128) -> Ast {
        let t = CString::new(k.to_string()).unwrap();
        unsafe { (self.api.mk_numeral)(self.ctx, t.as_ptr(), self.int) }
    }
    fn int_atom(&mut self, i: u32) -> Ast {
        while self.ints.len() <= i as usize {
            let name = CString::new(format!("i{}", self.ints.len())).unwrap();
            let a = unsafe { (self.api.mk_const)(self.ctx, (self.api.mk_string_symbol)(self.ctx, name.as_ptr()), self.int) };
            self.ints.push(a);
        }
        self.ints[i as usize]
    }
    fn int_sum(&mut self, t: &[(u32, i128)], k: i128) -> Ast {
        let mut v = vec![self.inum(k)];
        for (a, c) in t {
            let x = self.int_atom(*a);
            if *c == 1 {
                v.push(x);
            } else {
                let m = [self.inum(*c), x];
                v.push(unsafe { (self.api.mk_mul)(self.ctx, 2, m.as_ptr()) });
            }
        }
        unsafe { (self.api.mk_add)(self.ctx, v.len() as c_uint, v.as_ptr()) }
    }
    fn formula(&mut self, f: &crate::lia::F, defs: &[Ast]) -> Ast {
        use crate::lia::F;
        let c = self.ctx;
        unsafe {
            match f {
                F::Lit(true) => (self.api.mk_true)(c),
                F::Lit(false) => (self.api.mk_false)(c),
                F::Le(t, k) => {
                    let s = self.int_sum(t, *k);
                    let z = self.inum(0);
                    (self.api.mk_le)(c, s, z)
                }
                F::Eq(t, k) => {
                    let s = self.int_sum(t, 0);
                    let z = self.inum(-*k);
                    (self.api.mk_eq)(c, s, z)
                }
                F::Not(a) => {
                    let a = self.formula(a, defs);
                    (self.api.mk_not)(c, a)
                }
                F::And(v) => {
                    let v: Vec<Ast> = v.iter().map(|x| self.formula(x, defs)).collect();
                    (self.api.mk_and)(c, v.len() as c_uint, v.as_ptr())
                }
                F::Or(v) => {
                    let v: Vec<Ast> = v.iter().map(|x| self.formula(x, defs)).collect();
                    (self.api.mk_or)(c, v.len() as c_uint, v.as_ptr())
                }
                F::Iff(a, b) => {
                    let (a, b) = (self.formula(a, defs), self.formula(b, defs));
                    (self.api.mk_eq)(c, a, b)
                }
                F::Ref(i) => defs[*i as usize],
            }
        }
    }

    /// Decide the conjunction in linear integer arithmetic.
    pub fn check_lia(&mut self, p: &Pool, cs: &[E], want: &[u32], dom: &FxMap<u32, [u64; 4]>) -> Res {
        let t0 = std::time::Instant::now();
        let mut l = crate::lia::Lia::new(p, dom);
        let mut fs = vec![];
        for e in cs {
            match l.boolean(*e) {
                Some(f) => fs.push(f),
                None => return Res::Unknown,
            }
        }
        self.queries += 1;
        self.lia_queries += 1;
        let mut defs: Vec<Ast> = vec![];
        for d in &l.defs {
            let a = self.formula(d, &defs);
            defs.push(a);
        }
        let mut asts: Vec<Ast> = fs.iter().chain(&l.side).map(|f| self.formula(f, &defs)).collect();
        for (i, (lo, hi)) in l.atoms.iter().enumerate() {
            let a = self.int_atom(i as u32);
            let (lo, hi) = (self.inum(*lo), self.inum(*hi));
            unsafe {
                asts.push((self.api.mk_le)(self.ctx, lo, a));
                asts.push((self.api.mk_le)(self.ctx, a, hi));
            }
        }
        let r = unsafe {
            (self.api.solver_reset)(self.ctx, self.lia);
            for a in asts {
                (self.api.solver_assert)(self.ctx, self.lia, a);
            }
            match (self.api.solver_check)(self.ctx, self.lia) {
                -1 => Res::Unsat,
                1 if !l.approx => {
                    let m = (self.api.solver_get_model)(self.ctx, self.lia);
                    (self.api.model_inc_ref)(self.ctx, m);
                    let mut out = vec![];
                    for &v in want {
                        if let Some(a) = l.vars.get(&v) {
                            let a = self.int_atom(*a);
                            let mut o: Ast = std::ptr::null_mut();
                            (self.api.model_eval)(self.ctx, m, a, true, &mut o);
                            let mut x = 0u64;
                            (self.api.get_numeral_uint64)(self.ctx, o, &mut x);
                            out.push((v, x as u8));
                        }
                    }
                    (self.api.model_dec_ref)(self.ctx, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.time_us += us;
        self.max_us = self.max_us.max(us);
        r
    }

    fn limit(&mut self, integers: bool, ms: u32) {
        unsafe {
            let p = (self.api.mk_params)(self.ctx);
            (self.api.params_inc_ref)(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            (self.api.params_set_uint)(self.ctx, p, (self.api.mk_string_symbol)(self.ctx, t.as_ptr()), ms.min(self.timeout_ms));
            (self.api.solver_set_params)(self.ctx, if integers { self.lia } else { self.solver }, p);
            (self.api.params_dec_ref)(self.ctx, p);
        }
    }

    /// Decide the conjunction; the model covers the variables listed. `dom` holds values of the
    /// variables that the conjunction implies.
    pub fn check(&mut self, p: &Pool, cs: &[E], want: &[u32], dom: &FxMap<u32, [u64; 4]>) -> Res {
        let arith = want.len() > 2 && crate::lia::arithmetic(p, cs, &mut Default::default());
        let slow = std::env::var_os("SYMEX_SLOW").is_some();
        let t0 = std::time::Instant::now();
        if arith {
            // the easy ones
            for (integers, ms) in [(true, 400), (false, if want.len() > 6 { 1000 } else { 4000 })] {
                self.limit(integers, ms);
                let u = self.unknowns;
                let r = if integers { self.check_lia(p, cs, want, dom) } else { self.check_bv(p, cs, want) };
                self.limit(integers, self.timeout_ms);
                self.unknowns = u;
                match r {
                    Res::Unknown => {}
                    r => return r,
                }
            }
            let r = self.check_lia(p, cs, want, dom);
            if slow && t0.elapsed().as_millis() > 500 {
                eprintln!("slow: integers {:?} {} of {} conditions, last {}", t0.elapsed(), match r { Res::Unknown => "unknown", Res::Unsat => "unsat", _ => "sat" }, cs.len(), p.show(*cs.last().unwrap(), 12));
            }
            match r {
                Res::Unknown => {}
                r => return r,
            }
        }
        let t0 = std::time::Instant::now();
        let r = self.check_bv(p, cs, want);
        if slow && t0.elapsed().as_millis() > 500 {
            eprintln!("slow: bits {:?} {} of {} conditions, last {}", t0.elapsed(), match r { Res::Unknown => "unknown", Res::Unsat => "unsat", _ => "sat" }, cs.len(), p.show(*cs.last().unwrap(), 12));
        }
        r
    }

    fn check_bv(&mut self, p: &Pool, cs: &[E], want: &[u32]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let asts: Vec<Ast> = cs.iter().map(|&e| self.boolean(p, e)).collect();
        let r = unsafe {
            (self.api.solver_reset)(self.ctx, self.solver);
            for a in asts {
                (self.api.solver_assert)(self.ctx, self.solver, a);
            }
            let r = (self.api.solver_check)(self.ctx, self.solver);
            match r {
                1 => {
                    let m = (self.api.solver_get_model)(self.ctx, self.solver);
                    (self.api.model_inc_ref)(self.ctx, m);
                    let mut out = vec![];
                    for &v in want {
                        let a = self.var(v);
                        let mut o: Ast = std::ptr::null_mut();
                        (self.api.model_eval)(self.ctx, m, a, true, &mut o);
                        let mut x = 0u64;
                        (self.api.get_numeral_uint64)(self.ctx, o, &mut x);
                        out.push((v, x as u8));
                    }
                    (self.api.model_dec_ref)(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => {
                    self.unknowns += 1;
                    if std::env::var_os("SYMEX_DUMP_UNKNOWN").is_some() {
                        let s = CStr::from_ptr((self.api.solver_to_string)(self.ctx, self.solver));
                        eprintln!("{}", s.to_string_lossy());
                    }
                    Res::Unknown
                }
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.time_us += us;
        self.max_us = self.max_us.max(us);
        r
    }
}

/// Random expressions at random points: the integer translation must agree with evaluation.
pub fn selftest(smt: &mut Smt, iters: u64, seed: u64) -> Result<(u64, u64), String> {
    let mut p = Pool::new();
    let mut s = seed | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let (mut decided, mut unknown) = (0, 0);
    for _ in 0..iters {
        let m: Vec<u8> = (0..3).map(|_| rnd() as u8).collect();
        let mut dom: FxMap<u32, [u64; 4]> = Default::default();
        for (i, x) in m.iter().enumerate() {
            if rnd() % 2 == 0 {
                let mut d = [0u64; 4];
                for _ in 0..3 {
                    let y = rnd() as u8;
                    d[y as usize / 64] |= 1 << (y % 64);
                }
                d[*x as usize / 64] |= 1 << (x % 64);
                dom.insert(i as u32, d);
            }
        }
        let widths = [8u32, 16, 32, 64];
        let mut items: Vec<E> = (0..3).map(|i| p.var(i)).collect();
        for _ in 0..14 {
            let a = items[(rnd() % items.len() as u64) as usize];
            let b = items[(rnd() % items.len() as u64) as usize];
            let w = p.w(a);
            let b = if p.w(b) == w {
                b
            } else if p.w(b) < w {
                p.zext(b, w)
            } else {
                p.extract(b, 0, w)
            };
            let kk = [1u128, 2, 3, 7, 10, 60, 86_400, 1_000_000, mask(w), 1 << (w - 1), rnd() as u128][(rnd() % 11) as usize] & mask(w);
            let k = p.konst(w, kk.max(1));
            let sh = p.konst(w, rnd() as u128 % w as u128);
            let big = widths[(rnd() % 4) as usize];
            let e = match rnd() % 20 {
                0 | 1 => p.add(a, b),
                2 => p.sub(a, b),
                3 | 4 => p.mul(a, k),
                5 => p.udiv(a, k),
                6 => p.urem(a, k),
                7 => p.sdiv(a, k),
                8 => p.srem(a, k),
                9 => p.shl(a, sh),
                10 => p.lshr(a, sh),
                11 => p.ashr(a, sh),
                12 => p.and(a, k),
                13 if big > w => p.sext(a, big),
                14 | 15 if big > w => p.zext(a, big),
                16 if big < w => p.extract(a, (rnd() % (w - big) as u64) as u32, big),
                17 if w <= 32 => p.concat(a, b),
                18 => {
                    let c = p.ult(a, b);
                    p.ite(c, a, k)
                }
                _ => p.add(a, k),
            };
            if p.cv(e).is_none() {
                items.push(e);
            }
        }
        let a = *items.last().unwrap();
        let w = p.w(a);
        p.eval_begin();
        let v = p.eval(a, &m);
        let k = p.konst(w, v.wrapping_add((rnd() % 3) as u128).wrapping_sub(1) & mask(w));
        let c = match rnd() % 4 {
            0 => p.eq(a, k),
            1 => p.ult(a, k),
            2 => p.slt(a, k),
            _ => {
                let o = items[(rnd() % items.len() as u64) as usize];
                if p.w(o) == w {
                    p.slt(a, o)
                } else {
                    p.ult(k, a)
                }
            }
        };
        p.eval_begin();
        let truth = p.eval(c, &m) == 1;
        let mut cs = vec![];
        for (i, x) in m.iter().enumerate() {
            let (v, k) = (p.var(i as u32), p.konst(8, *x as u128));
            cs.push(p.eq(v, k));
        }
        let nc = p.not1(c);
        let (yes, no) = if truth { (c, nc) } else { (nc, c) };
        for (f, sat) in [(yes, true), (no, false)] {
            let mut q = cs.clone();
            q.push(f);
            match (smt.check_lia(&p, &q, &[0, 1, 2], &dom), sat) {
                (Res::Unknown, _) => unknown += 1,
                (Res::Sat(_), true) | (Res::Unsat, false) => decided += 1,
                _ => return Err(format!("integer translation of {} at {:?}", p.show(f, 20), m)),
            }
        }
    }
    Ok((decided, unknown))
}
