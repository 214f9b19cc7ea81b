//! Lazy parser for textual LLVM IR.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Copy,
    BitCast,
    FpTrunc,
    FpExt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Umax,
    Umin,
    Max,
    Min,
    Nand,
}

#[derive(Debug)]
pub struct Edge {
    pub blk: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, lanes: u32, a: Opd, b: Opd, dst: u32 },
    ICmp { p: Pred, w: u32, lanes: u32, a: Opd, b: Opd, dst: u32 },
    FCmp { p: u32, w: u32, a: Opd, b: Opd, dst: u32 },
    FNeg { w: u32, a: Opd, dst: u32 },
    Cast { op: CastOp, from: TyId, to: TyId, a: Opd, dst: u32 },
    Load { ty: TyId, p: Opd, dst: u32, atomic: bool },
    Store { ty: TyId, v: Opd, p: Opd, atomic: bool },
    /// base + offset + sum(sext(idx) * scale)
    Gep { base: Opd, off: u64, idx: Vec<(Opd, u32, u64)>, dst: u32 },
    Alloca { size: u64, count: Option<Opd>, dst: u32 },
    Select { ty: TyId, lanes: u32, c: Opd, a: Opd, b: Opd, dst: u32 },
    ExtractVal { a: Opd, path: Vec<u32>, dst: u32 },
    InsertVal { a: Opd, v: Opd, path: Vec<u32>, dst: u32 },
    ExtractElt { a: Opd, i: Opd, dst: u32 },
    InsertElt { a: Opd, v: Opd, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, mask: Vec<u32>, dst: u32 },
    Call { callee: Callee, args: Vec<(Opd, TyId)>, ret: TyId, dst: u32, norm: Option<Edge> },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u32, v: Opd, def: Edge, cases: Vec<(u64, Edge)> },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
    Rmw { op: RmwOp, w: u32, p: Opd, v: Opd, dst: u32 },
    CmpXchg { w: u32, p: Opd, c: Opd, n: Opd, dst: u32 },
    Nop,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}

pub const NODST: u32 = u32::MAX;

pub struct Block {
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    /// blocks that were entered
    pub hits: Vec<std::sync::atomic::AtomicBool>,
}

pub struct FnDecl {
    pub name: String,
    /// body location in the text (byte offset of the define line) or none for declarations
    pub body: Option<(usize, usize)>,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Option<(TyId, usize)>, // type and text offset of initializer
    pub constant: bool,
}

pub const WINDOW: u64 = 1 << 32;
pub const FN_BASE: u64 = WINDOW + 0x8000_0000;

pub struct Module {
    pub text: String,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    pub sizes: Vec<(u64, u64)>,
    pub fns: Vec<FnDecl>,
    pub fnmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glmap: HashMap<String, u32>,
    pub gl_end: u64,
    named: HashMap<String, TyId>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let lo = self.i.saturating_sub(80);
        let hi = (self.i + 80).min(self.s.len());
        panic!(
            "parse error: {m} at ...{}<<HERE>>{}...",
            String::from_utf8_lossy(&self.s[lo..self.i.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..hi])
        );
    }
    /// an identifier-like word
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// name after @ or %
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u128 {
        self.ws();
        let w = self.word();
        parse_int(w).unwrap_or_else(|| self.fail(&format!("number {w}")))
    }
}

fn parse_int(w: &str) -> Option<u128> {
    if let Some(r) = w.strip_prefix('-') {
        return r.parse::<u128>().ok().map(|x| x.wrapping_neg());
    }
    if let Some(r) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
        return u128::from_str_radix(r, 16).ok();
    }
    w.parse().ok()
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let id = self.tys.len() as TyId;
        let sz = match &t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let b2 = b.next_power_of_two();
                if *w > 128 {
                    (b, 16)
                } else {
                    (if b == b2 { b } else { b2 }, b2.min(16))
                }
            }
            Ty::F32 => (4, 4),
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::Arr(n, e) => {
                let (s, a) = self.sizes[*e as usize];
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w,
                    Ty::F32 => 32,
                    _ => 64,
                };
                let s = (bits as u64 * *n as u64 + 7) / 8;
                (s.next_power_of_two(), s.next_power_of_two())
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.sizes[*f as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                o = (o + al - 1) / al * al;
                (o, al)
            }
        };
        self.tys.push(t.clone());
        self.sizes.push(sz);
        self.tymap.insert(t, id);
        id
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.sizes[t as usize].0
    }
    pub fn field_off(&self, t: TyId, k: usize) -> u64 {
        match &self.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (i, f) in fs.iter().enumerate() {
                    let (s, a) = self.sizes[*f as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if i == k {
                        return o;
                    }
                    o += s;
                }
                o
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => self.size(*e) * k as u64,
            t => panic!("field_off {t:?}"),
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, e) => n * self.bits(*e),
            Ty::Void | Ty::Other => 0,
            t => panic!("bits of {t:?}"),
        }
    }
    pub fn lanes(&self, t: TyId) -> (u32, u32) {
        match &self.tys[t as usize] {
            Ty::Vec(n, e) => (*n, self.bits(*e)),
            _ => (0, self.bits(t)),
        }
    }

    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            tys: vec![],
            tymap: HashMap::new(),
            sizes: vec![],
            fns: vec![],
            fnmap: HashMap::new(),
            globals: vec![],
            glmap: HashMap::new(),
            gl_end: 0,
            named: HashMap::new(),
        };
        let mut off = 0usize;
        let mut pending: Option<(usize, String)> = None;
        let mut gtexts: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        for line in text.split_inclusive('\n') {
            let st = off;
            off += line.len();
            let b = line.as_bytes();
            match b.first() {
                Some(b'd') if line.starts_with("define ") => {
                    let n = fn_name(line);
                    pending = Some((st, n));
                }
                Some(b'}') => {
                    if let Some((s, n)) = pending.take() {
                        m.add_fn(n, Some((s, off)), false);
                    }
                }
                Some(b'd') if line.starts_with("declare ") => {
                    let n = fn_name(line);
                    m.add_fn(n, None, line.contains("extern_weak"));
                }
                Some(b'@') => gtexts.push((st, off)),
                Some(b'%') if pending.is_none() => {
                    // named type
                    let mut p = P { s: &b[1..], i: 0 };
                    let n = p.name();
                    p.expect(b'=');
                    if !p.eat_word("type") {
                        p.fail("type");
                    }
                    if p.peek_word() != "opaque" {
                        let t = m.parse_ty(&mut p);
                        m.named.insert(n, t);
                    }
                }
                _ => {}
            }
        }
        let mut addr = WINDOW + 64;
        for (s, e) in gtexts {
            let line = &text[s..e];
            let mut p = P { s: line.as_bytes(), i: 1 };
            let name = p.name();
            p.expect(b'=');
            let mut constant = false;
            let mut external = false;
            loop {
                match p.peek_word() {
                    "global" => {
                        p.word();
                        break;
                    }
                    "constant" => {
                        p.word();
                        constant = true;
                        break;
                    }
                    "alias" => {
                        p.word();
                        break;
                    }
                    "external" | "extern_weak" => {
                        p.word();
                        external = true;
                    }
                    "" => p.fail("global"),
                    _ => {
                        p.word();
                        if p.peek() == b'(' {
                            p.skip_parens();
                        }
                    }
                }
            }
            if line.contains(" alias ") && !constant {
                if let Some(i) = line.find("ptr @") {
                    let mut q = P { s: &line.as_bytes()[i + 5..], i: 0 };
                    aliases.push((name, q.name()));
                    continue;
                }
            }
            let t = m.parse_ty(&mut p);
            let init_off = s + p.i;
            let size = m.size(t);
            let align = match line.rfind(", align ") {
                Some(i) => {
                    let mut q = P { s: &line.as_bytes()[i + 8..], i: 0 };
                    q.num() as u64
                }
                None => m.sizes[t as usize].1,
            }
            .max(16);
            addr = (addr + align - 1) / align * align;
            let id = m.globals.len() as u32;
            m.glmap.insert(name.clone(), id);
            m.globals.push(Global {
                name,
                addr,
                size,
                init: if external { None } else { Some((t, init_off)) },
                constant,
            });
            addr += size.max(1) + 16;
        }
        m.gl_end = addr;
        for (a, t) in aliases {
            if let Some(&f) = m.fnmap.get(&t) {
                m.fnmap.insert(a, f);
            } else if let Some(&g) = m.glmap.get(&t) {
                m.glmap.insert(a, g);
            }
        }
        m.text = text;
        m
    }

    fn add_fn(&mut self, n: String, body: Option<(usize, usize)>, weak: bool) -> u32 {
        if let Some(&i) = self.fnmap.get(&n) {
            if body.is_some() {
                self.fns[i as usize].body = body;
            }
            return i;
        }
        let id = self.fns.len() as u32;
        self.fnmap.insert(n.clone(), id);
        self.fns.push(FnDecl { name: n, body, weak });
        id
    }

    pub fn fn_addr(&self, id: u32) -> u64 {
        if self.fns[id as usize].weak {
            return 0;
        }
        FN_BASE + id as u64 * 16
    }
    pub fn addr_fn(&self, a: u64) -> Option<u32> {
        if a >= FN_BASE && (a - FN_BASE) % 16 == 0 && ((a - FN_BASE) / 16) < self.fns.len() as u64 {
            Some(((a - FN_BASE) / 16) as u32)
        } else {
            None
        }
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.glmap.get(n) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.fnmap.get(n) {
            return self.fn_addr(f);
        }
        panic!("unknown symbol @{n}")
    }

    fn parse_ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let t = match c {
            b'{' => {
                p.i += 1;
                let mut fs = vec![];
                if p.peek() != b'}' {
                    loop {
                        fs.push(self.parse_ty(p));
                        if !p.eat(b',') {
                            break;
                        }
                    }
                }
                p.expect(b'}');
                self.ty(Ty::Struct(fs, false))
            }
            b'[' => {
                p.i += 1;
                let n = p.num() as u64;
                if !p.eat_word("x") {
                    p.fail("x");
                }
                let e = self.parse_ty(p);
                p.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let mut fs = vec![];
                    if p.peek() != b'}' {
                        loop {
                            fs.push(self.parse_ty(p));
                            if !p.eat(b',') {
                                break;
                            }
                        }
                    }
                    p.expect(b'}');
                    p.expect(b'>');
                    self.ty(Ty::Struct(fs, true))
                } else {
                    let n = p.num() as u32;
                    if !p.eat_word("x") {
                        p.fail("x");
                    }
                    let e = self.parse_ty(p);
                    p.expect(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                *self.named.get(&n).unwrap_or_else(|| p.fail("named type"))
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => self.ty(Ty::Void),
                    "ptr" => {
                        if p.peek_word() == "addrspace" {
                            p.word();
                            p.skip_parens();
                        }
                        self.ty(Ty::Ptr)
                    }
                    "float" => self.ty(Ty::F32),
                    "double" => self.ty(Ty::F64),
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => self.ty(Ty::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        let n = w[1..].parse().unwrap();
                        self.ty(Ty::Int(n))
                    }
                    _ => p.fail(&format!("type {w:?}")),
                }
            }
        };
        // function type "ret (args)" is handled by callers
        t
    }

    pub fn zero(&self, pool: &mut Pool, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Struct(fs, _) => Val::Agg(Rc::new(fs.iter().map(|f| self.zero(pool, *f)).collect())),
            Ty::Arr(n, e) => Val::Agg(Rc::new((0..*n).map(|_| self.zero(pool, *e)).collect())),
            Ty::Vec(n, e) => Val::Agg(Rc::new((0..*n).map(|_| self.zero(pool, *e)).collect())),
            Ty::Int(w) if *w > 64 => Val::S(pool.konst(*w, 0)),
            _ => Val::C(0),
        }
    }

    /// Parse a constant of the given type.
    fn parse_const(&mut self, pool: &mut Pool, p: &mut P, t: TyId) -> Val {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                return Val::C(self.sym_addr(&n));
            }
            b'{' | b'[' => {
                p.i += 1;
                let close = if c == b'{' { b'}' } else { b']' };
                let v = self.parse_const_list(pool, p, close);
                p.expect(close);
                return Val::Agg(Rc::new(v));
            }
            b'<' => {
                p.i += 1;
                if p.eat(b'{') {
                    let v = self.parse_const_list(pool, p, b'}');
                    p.expect(b'}');
                    p.expect(b'>');
                    return Val::Agg(Rc::new(v));
                }
                let v = self.parse_const_list(pool, p, b'>');
                p.expect(b'>');
                return Val::Agg(Rc::new(v));
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "null" | "none" => Val::C(0),
            "zeroinitializer" | "undef" | "poison" => self.zero(pool, t),
            "true" => Val::C(1),
            "false" => Val::C(0),
            "splat" => {
                p.expect(b'(');
                let et = self.parse_ty(p);
                let v = self.parse_const(pool, p, et);
                p.expect(b')');
                let n = match self.tys[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => p.fail("splat"),
                };
                Val::Agg(Rc::new(vec![v; n as usize]))
            }
            "c" => {
                // c"..."
                p.expect(b'"');
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        if p.s[p.i + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u64));
                            p.i += 2;
                        } else {
                            let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                            v.push(Val::C(u64::from_str_radix(h, 16).unwrap()));
                            p.i += 3;
                        }
                    } else {
                        v.push(Val::C(p.s[p.i] as u64));
                        p.i += 1;
                    }
                }
                p.i += 1;
                Val::Agg(Rc::new(v))
            }
            "getelementptr" => {
                let (base, off, idx) = self.parse_gep_const(pool, p);
                assert!(idx == 0);
                Val::C(base.wrapping_add(off))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                let _ = p.eat_word("nuw");
                p.expect(b'(');
                let ft = self.parse_ty(p);
                let v = self.parse_const(pool, p, ft);
                if !p.eat_word("to") {
                    p.fail("to");
                }
                let tt = self.parse_ty(p);
                p.expect(b')');
                match v {
                    Val::C(x) => {
                        let w = self.bits(tt).min(64);
                        Val::C(x & mask(w) as u64)
                    }
                    o => o,
                }
            }
            "sub" | "add" | "xor" | "mul" => {
                while matches!(p.peek_word(), "nuw" | "nsw") {
                    p.word();
                }
                p.expect(b'(');
                let ft = self.parse_ty(p);
                let a = self.parse_const(pool, p, ft);
                p.expect(b',');
                let ft2 = self.parse_ty(p);
                let b = self.parse_const(pool, p, ft2);
                p.expect(b')');
                match (a, b) {
                    (Val::C(a), Val::C(b)) => {
                        let m = mask(self.bits(ft)) as u64;
                        Val::C(
                            match w {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            } & m,
                        )
                    }
                    _ => p.fail("const expr"),
                }
            }
            _ => {
                match self.tys[t as usize] {
                    Ty::F32 | Ty::F64 => {
                        let is32 = self.tys[t as usize] == Ty::F32;
                        // hex forms: 0x<16 digits> is a double; f0x.. in new syntax
                        if let Some(h) = w.strip_prefix("0x").or_else(|| w.strip_prefix("f0x")) {
                            let d = u64::from_str_radix(h, 16).unwrap_or_else(|_| p.fail("float"));
                            if is32 && w.starts_with("0x") {
                                return Val::C((f64::from_bits(d) as f32).to_bits() as u64);
                            }
                            return Val::C(d);
                        }
                        // decimal: d.ddde+XX — '+' is not an identifier char
                        let mut s = w.to_string();
                        if p.s.get(p.i) == Some(&b'+') {
                            p.i += 1;
                            s.push('+');
                            s.push_str(p.word());
                        }
                        match s.as_str() {
                            "qnan" | "+qnan" => return Val::C(if is32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 }),
                            "-qnan" => return Val::C(if is32 { 0xffc0_0000 } else { 0xfff8_0000_0000_0000 }),
                            "inf" | "+inf" => return Val::C(if is32 { f32::INFINITY.to_bits() as u64 } else { f64::INFINITY.to_bits() }),
                            "-inf" => return Val::C(if is32 { f32::NEG_INFINITY.to_bits() as u64 } else { f64::NEG_INFINITY.to_bits() }),
                            _ => {}
                        }
                        let d: f64 = s.parse().unwrap_or_else(|_| p.fail(&format!("float {s}")));
                        return Val::C(if is32 { (d as f32).to_bits() as u64 } else { d.to_bits() });
                    }
                    _ => {}
                }
                let k = parse_int(w).unwrap_or_else(|| p.fail(&format!("const {w:?}")));
                let bits = self.bits(t);
                if bits > 64 {
                    Val::S(pool.konst(bits, k))
                } else {
                    Val::C((k & mask(bits)) as u64)
                }
            }
        }
    }

    fn parse_const_list(&mut self, pool: &mut Pool, p: &mut P, close: u8) -> Vec<Val> {
        let mut v = vec![];
        if p.peek() == close {
            return v;
        }
        loop {
            let t = self.parse_ty(p);
            v.push(self.parse_const(pool, p, t));
            if !p.eat(b',') {
                break;
            }
        }
        v
    }

    fn gep_flags(p: &mut P) {
        loop {
            match p.peek_word() {
                "inbounds" | "nuw" | "nusw" => {
                    p.word();
                }
                "inrange" => {
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_parens();
                    }
                }
                _ => break,
            }
        }
    }

    fn parse_gep_const(&mut self, pool: &mut Pool, p: &mut P) -> (u64, u64, u64) {
        Self::gep_flags(p);
        p.expect(b'(');
        let t = self.parse_ty(p);
        p.expect(b',');
        let pt = self.parse_ty(p);
        let base = match self.parse_const(pool, p, pt) {
            Val::C(x) => x,
            _ => p.fail("gep base"),
        };
        let mut off = 0u64;
        let mut first = true;
        let mut cur = t;
        while p.eat(b',') {
            let it = self.parse_ty(p);
            let v = match self.parse_const(pool, p, it) {
                Val::C(x) => sext128(x as u128, self.bits(it)) as i64 as u64,
                _ => p.fail("gep idx"),
            };
            if first {
                off = off.wrapping_add(v.wrapping_mul(self.size(cur)));
                first = false;
            } else {
                off = off.wrapping_add(match self.tys[cur as usize].clone() {
                    Ty::Struct(fs, _) => {
                        let o = self.field_off(cur, v as usize);
                        cur = fs[v as usize];
                        o
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        cur = e;
                        v.wrapping_mul(self.size(e))
                    }
                    _ => p.fail("gep into scalar"),
                });
            }
        }
        p.expect(b')');
        (base, off, 0)
    }

    pub fn global_init(&mut self, pool: &mut Pool, g: u32) -> Vec<u8> {
        let (t, off) = match self.globals[g as usize].init {
            Some(x) => x,
            None => return vec![0; self.globals[g as usize].size as usize],
        };
        let text = std::mem::take(&mut self.text);
        let end = text[off..].find('\n').map(|x| off + x).unwrap_or(text.len());
        let v = {
            let mut p = P { s: text[off..end].as_bytes(), i: 0 };
            self.parse_const(pool, &mut p, t)
        };
        self.text = text;
        let mut out = vec![0u8; self.size(t) as usize];
        self.write_const(pool, &mut out, 0, t, &v);
        out
    }
    fn write_const(&self, pool: &Pool, out: &mut [u8], off: usize, t: TyId, v: &Val) {
        match v {
            Val::C(x) => {
                let n = self.size(t) as usize;
                if n <= 8 {
                    out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                } else {
                    // zero of a wide type
                    out[off..off + 8].copy_from_slice(&x.to_le_bytes());
                }
            }
            Val::S(e) => {
                let k = pool.cv(*e).unwrap();
                let n = self.size(t) as usize;
                out[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
            Val::Agg(vs) => {
                let fs: Vec<TyId> = match &self.tys[t as usize] {
                    Ty::Struct(fs, _) => fs.clone(),
                    Ty::Arr(_, e) | Ty::Vec(_, e) => vec![*e; vs.len()],
                    t => panic!("write_const {t:?}"),
                };
                for (i, x) in vs.iter().enumerate() {
                    let o = self.field_off(t, i) as usize;
                    self.write_const(pool, out, off + o, fs[i], x);
                }
            }
        }
    }

    pub fn parse_fn(&mut self, pool: &mut Pool, id: u32) -> Func {
        let (s, e) = self.fns[id as usize].body.expect("no body");
        let text = std::mem::take(&mut self.text);
        let f = FnParser {
            m: self,
            pool,
            regs: HashMap::new(),
            blocks: HashMap::new(),
            nregs: 0,
        }
        .parse(&text[s..e], id);
        self.text = text;
        f
    }
}

fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    // attributes before the name may contain @? (e.g. initializes) unlikely
    let mut p = P { s: line.as_bytes(), i: i + 1 };
    p.name()
}

struct FnParser<'a> {
    m: &'a mut Module,
    pool: &'a mut Pool,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
}

struct RawEdge {
    to: u32,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }

    fn skip_attrs(&mut self, p: &mut P) {
        // parameter / return attributes
        loop {
            match p.peek_word() {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext"
                | "signext" | "inreg" | "nofree" | "returned" | "immarg" | "dead_on_unwind" | "writable"
                | "dead_on_return" | "allocptr" | "allocalign" | "swiftself" | "nest" | "noext" => {
                    p.word();
                    if p.s.get(p.i) == Some(&b'(') {
                        p.skip_parens();
                    }
                }
                "align" => {
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_parens();
                    } else {
                        p.num();
                    }
                }
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval"
                | "initializes" | "nofpclass" | "elementtype" | "preallocated" | "inalloca" | "byref" => {
                    p.word();
                    p.skip_parens();
                }
                _ => {
                    if p.peek() == b'"' {
                        // string attribute
                        p.i += 1;
                        while p.s[p.i] != b'"' {
                            p.i += 1;
                        }
                        p.i += 1;
                        if p.eat(b'=') {
                            p.expect(b'"');
                            while p.s[p.i] != b'"' {
                                p.i += 1;
                            }
                            p.i += 1;
                        }
                        continue;
                    }
                    return;
                }
            }
        }
    }

    fn opd(&mut self, p: &mut P, t: TyId) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            Opd::R(self.reg(&n))
        } else {
            Opd::K(self.m.parse_const(self.pool, p, t))
        }
    }
    fn topd(&mut self, p: &mut P) -> (TyId, Opd) {
        let t = self.m.parse_ty(p);
        let o = self.opd(p, t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> RawEdge {
        if !p.eat_word("label") {
            p.fail("label");
        }
        p.expect(b'%');
        let n = p.name();
        RawEdge { to: *self.blocks.get(&n).unwrap_or_else(|| p.fail(&format!("block {n}"))) }
    }
    fn edge(&mut self, r: RawEdge) -> Edge {
        Edge { blk: r.to, moves: vec![] }
    }

    fn parse(mut self, text: &str, id: u32) -> Func {
        let mut lines: Vec<String> = vec![];
        let mut it = text.lines();
        let head = it.next().unwrap().to_string();
        let mut cont = false;
        for l in it {
            if cont {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(l.trim());
                if l.trim_start().starts_with(']') {
                    cont = false;
                }
                continue;
            }
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            if t.starts_with("to label") || t == "cleanup" || t.starts_with("cleanup ") || t.starts_with("catch ") || t.starts_with("filter ") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            lines.push(l.to_string());
            if t.starts_with("switch ") && t.trim_end().ends_with('[') {
                cont = true;
            }
        }
        // header parameters
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let at = head.find('@').unwrap();
            let mut p = P { s: head.as_bytes(), i: at + 1 };
            let _ = p.name();
            p.expect(b'(');
            if p.peek() != b')' {
                loop {
                    if p.peek() == b'.' {
                        p.i += 3;
                        break;
                    }
                    let _t = self.m.parse_ty(&mut p);
                    self.skip_attrs(&mut p);
                    if p.peek() == b'%' {
                        p.i += 1;
                        let n = p.name();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(self.reg(&n));
                    } else {
                        let n = format!("{unnamed}");
                        params.push(self.reg(&n));
                        unnamed += 1;
                    }
                    if !p.eat(b',') {
                        break;
                    }
                }
            }
        }
        // blocks
        let mut nb = 0u32;
        let mut first = true;
        for l in &lines {
            let b = l.as_bytes();
            if b[0] != b' ' && b[0] != b'}' {
                // label line
                let mut p = P { s: b, i: 0 };
                let n = p.name();
                self.blocks.insert(n, nb);
                nb += 1;
                first = false;
            } else if first && b[0] == b' ' {
                // unlabelled entry block
                self.blocks.insert("\u{0}entry".into(), 0);
                nb = 1;
                first = false;
            }
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { insts: vec![] }).collect();
        let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = (0..nb).map(|_| vec![]).collect();
        let mut cur = 0usize;
        // unlabelled entry: numeric name equals number of params
        if self.blocks.contains_key("\u{0}entry") {
            self.blocks.insert(unnamed.to_string(), 0);
        }
        for l in &lines {
            let b = l.as_bytes();
            if b[0] == b'}' {
                break;
            }
            if b[0] != b' ' {
                let mut p = P { s: b, i: 0 };
                let n = p.name();
                cur = self.blocks[&n] as usize;
                continue;
            }
            let mut p = P { s: b, i: 0 };
            let mut dst = NODST;
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                dst = self.reg(&n);
                p.expect(b'=');
            }
            let op = p.word();
            if op == "phi" {
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let t = self.m.parse_ty(&mut p);
                let mut v = vec![];
                loop {
                    p.expect(b'[');
                    let o = self.opd(&mut p, t);
                    p.expect(b',');
                    p.expect(b'%');
                    let n = p.name();
                    let bl = *self.blocks.get(&n).unwrap_or_else(|| p.fail(&format!("phi block {n}")));
                    p.expect(b']');
                    v.push((o, bl));
                    if !p.eat(b',') {
                        break;
                    }
                    if p.peek() != b'[' {
                        break;
                    }
                }
                phis[cur].push((dst, v));
                continue;
            }
            let ins = self.inst(&mut p, op, dst);
            if let Some(i) = ins {
                blocks[cur].insts.push(i);
            }
        }
        // attach phi moves
        for bi in 0..nb {
            let set = |e: &mut Edge| {
                for (d, v) in &phis[e.blk as usize] {
                    let o = v.iter().find(|(_, b)| *b == bi).map(|(o, _)| o.clone());
                    if let Some(o) = o {
                        e.moves.push((*d, o));
                    }
                }
            };
            let insts = &mut blocks[bi as usize].insts;
            if let Some(last) = insts.last_mut() {
                match last {
                    Inst::Br(e) => set(e),
                    Inst::CondBr { t, f, .. } => {
                        set(t);
                        set(f);
                    }
                    Inst::Switch { def, cases, .. } => {
                        set(def);
                        for (_, c) in cases {
                            set(c);
                        }
                    }
                    Inst::Call { norm: Some(e), .. } => set(e),
                    _ => {}
                }
            }
        }
        let hits = (0..nb).map(|i| std::sync::atomic::AtomicBool::new(i == 0)).collect();
        Func { name: self.m.fns[id as usize].name.clone(), id, nregs: self.nregs, params, blocks, hits }
    }

    fn inst(&mut self, p: &mut P, op: &str, dst: u32) -> Option<Inst> {
        let bop = |o: &str| {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(o) = bop(op) {
            while matches!(
                p.peek_word(),
                "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn"
            ) {
                p.word();
            }
            let t = self.m.parse_ty(p);
            let a = self.opd(p, t);
            p.expect(b',');
            let b = self.opd(p, t);
            let (lanes, w) = self.m.lanes(t);
            return Some(Inst::Bin { op: o, w, lanes, a, b, dst });
        }
        let cop = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" | "inttoptr" | "addrspacecast" => Some(CastOp::Copy),
            "bitcast" => Some(CastOp::BitCast),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            _ => None,
        };
        if let Some(c) = cop {
            while matches!(p.peek_word(), "nuw" | "nsw" | "nneg" | "fast" | "nnan") {
                p.word();
            }
            let (ft, a) = self.topd(p);
            if !p.eat_word("to") {
                p.fail("to");
            }
            let to = self.m.parse_ty(p);
            return Some(Inst::Cast { op: c, from: ft, to, a, dst });
        }
        Some(match op {
            "icmp" => {
                let _ = p.eat_word("samesign");
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    w => p.fail(w),
                };
                let t = self.m.parse_ty(p);
                let a = self.opd(p, t);
                p.expect(b',');
                let b = self.opd(p, t);
                let (lanes, w) = self.m.lanes(t);
                Inst::ICmp { p: pr, w, lanes, a, b, dst }
            }
            "fcmp" => {
                let mut w = p.word();
                while matches!(w, "fast" | "nnan" | "ninf" | "nsz") {
                    w = p.word();
                }
                let code = match w {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let t = self.m.parse_ty(p);
                let a = self.opd(p, t);
                p.expect(b',');
                let b = self.opd(p, t);
                Inst::FCmp { p: code, w: self.m.bits(t), a, b, dst }
            }
            "fneg" => {
                let (t, a) = self.topd(p);
                Inst::FNeg { w: self.m.bits(t), a, dst }
            }
            "freeze" => {
                let (t, a) = self.topd(p);
                Inst::Cast { op: CastOp::Copy, from: t, to: t, a, dst }
            }
            "load" => {
                let mut atomic = false;
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    if p.word() == "atomic" {
                        atomic = true;
                    }
                }
                let t = self.m.parse_ty(p);
                p.expect(b',');
                let (_, a) = self.topd(p);
                Inst::Load { ty: t, p: a, dst, atomic }
            }
            "store" => {
                let mut atomic = false;
                while matches!(p.peek_word(), "atomic" | "volatile") {
                    if p.word() == "atomic" {
                        atomic = true;
                    }
                }
                let (t, v) = self.topd(p);
                p.expect(b',');
                let (_, a) = self.topd(p);
                Inst::Store { ty: t, v, p: a, atomic }
            }
            "getelementptr" => {
                Module::gep_flags(p);
                let t = self.m.parse_ty(p);
                p.expect(b',');
                let (_, base) = self.topd(p);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let it = self.m.parse_ty(p);
                    let o = self.opd(p, it);
                    let iw = self.m.bits(it);
                    let scale;
                    if first {
                        scale = self.m.size(cur);
                        first = false;
                    } else {
                        match self.m.tys[cur as usize].clone() {
                            Ty::Struct(fs, _) => {
                                let k = match &o {
                                    Opd::K(Val::C(k)) => *k as usize,
                                    _ => p.fail("struct idx"),
                                };
                                off = off.wrapping_add(self.m.field_off(cur, k));
                                cur = fs[k];
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                cur = e;
                                scale = self.m.size(e);
                            }
                            _ => p.fail("gep"),
                        }
                    }
                    match o {
                        Opd::K(Val::C(k)) => {
                            let k = sext128(k as u128, iw) as i64 as u64;
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        o => idx.push((o, iw, scale)),
                    }
                }
                Inst::Gep { base, off, idx, dst }
            }
            "alloca" => {
                let _ = p.eat_word("inalloca");
                let t = self.m.parse_ty(p);
                let mut count = None;
                if p.eat(b',') {
                    if p.peek_word() != "align" {
                        let (_, c) = self.topd(p);
                        count = Some(c);
                    }
                }
                Inst::Alloca { size: self.m.size(t), count, dst }
            }
            "select" => {
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz") {
                    p.word();
                }
                let (ct, c) = self.topd(p);
                p.expect(b',');
                let (t, a) = self.topd(p);
                p.expect(b',');
                let (_, b) = self.topd(p);
                let lanes = match self.m.tys[ct as usize] {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                Inst::Select { ty: t, lanes, c, a, b, dst }
            }
            "extractvalue" => {
                let (_, a) = self.topd(p);
                let mut path = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.num() as u32);
                }
                Inst::ExtractVal { a, path, dst }
            }
            "insertvalue" => {
                let (_, a) = self.topd(p);
                p.expect(b',');
                let (_, v) = self.topd(p);
                let mut path = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.num() as u32);
                }
                Inst::InsertVal { a, v, path, dst }
            }
            "extractelement" => {
                let (_, a) = self.topd(p);
                p.expect(b',');
                let (_, i) = self.topd(p);
                Inst::ExtractElt { a, i, dst }
            }
            "insertelement" => {
                let (_, a) = self.topd(p);
                p.expect(b',');
                let (_, v) = self.topd(p);
                p.expect(b',');
                let (_, i) = self.topd(p);
                Inst::InsertElt { a, v, i, dst }
            }
            "shufflevector" => {
                let (_, a) = self.topd(p);
                p.expect(b',');
                let (_, b) = self.topd(p);
                p.expect(b',');
                let (_, mk) = self.topd(p);
                let mask = match mk {
                    Opd::K(Val::Agg(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => p.fail("mask"),
                };
                Inst::Shuffle { a, b, mask, dst }
            }
            "tail" | "musttail" | "notail" => {
                let w = p.word();
                return self.inst(p, w, dst);
            }
            "call" | "invoke" => return Some(self.call(p, op == "invoke", dst)),
            "br" => {
                if p.peek_word() == "label" {
                    let e = self.label(p);
                    Inst::Br(self.edge(e))
                } else {
                    let (_, c) = self.topd(p);
                    p.expect(b',');
                    let t = self.label(p);
                    p.expect(b',');
                    let f = self.label(p);
                    Inst::CondBr { c, t: self.edge(t), f: self.edge(f) }
                }
            }
            "switch" => {
                let (t, v) = self.topd(p);
                p.expect(b',');
                let d = self.label(p);
                p.expect(b'[');
                let mut cases = vec![];
                while p.peek() != b']' {
                    let ct = self.m.parse_ty(p);
                    let k = match self.m.parse_const(self.pool, p, ct) {
                        Val::C(k) => k,
                        Val::S(e) => self.pool.cv(e).unwrap() as u64,
                        _ => p.fail("case"),
                    };
                    p.expect(b',');
                    let l = self.label(p);
                    let e = self.edge(l);
                    cases.push((k, e));
                }
                Inst::Switch { w: self.m.bits(t), v, def: self.edge(d), cases }
            }
            "ret" => {
                if p.peek_word() == "void" {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.topd(p);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume,
            "landingpad" => Inst::Nop,
            "fence" => Inst::Nop,
            "atomicrmw" => {
                let _ = p.eat_word("volatile");
                let o = match p.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "nand" => RmwOp::Nand,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "umax" => RmwOp::Umax,
                    "umin" => RmwOp::Umin,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    w => p.fail(w),
                };
                let (_, a) = self.topd(p);
                p.expect(b',');
                let (t, v) = self.topd(p);
                Inst::Rmw { op: o, w: self.m.bits(t), p: a, v, dst }
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") {
                    p.word();
                }
                let (_, a) = self.topd(p);
                p.expect(b',');
                let (t, c) = self.topd(p);
                p.expect(b',');
                let (_, n) = self.topd(p);
                Inst::CmpXchg { w: self.m.bits(t), p: a, c, n, dst }
            }
            _ => p.fail(&format!("opcode {op}")),
        })
    }

    fn call(&mut self, p: &mut P, invoke: bool, dst: u32) -> Inst {
        // calling convention, attributes
        loop {
            match p.peek_word() {
                "fastcc" | "coldcc" | "ccc" | "fast" | "nnan" | "preserve_mostcc" | "preserve_nonecc" | "tailcc" => {
                    p.word();
                }
                "cc" => {
                    p.word();
                    p.num();
                }
                _ => break,
            }
        }
        self.skip_attrs(p);
        let ret = self.m.parse_ty(p);
        // optional function type
        if p.peek() == b'(' {
            p.skip_parens();
        }
        let callee;
        match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                if n.starts_with("llvm.dbg") {
                    return Inst::Nop;
                }
                let id = match self.m.fnmap.get(&n) {
                    Some(&i) => i,
                    None => p.fail(&format!("unknown function {n}")),
                };
                callee = Callee::Fn(id);
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                callee = Callee::Ind(Opd::R(self.reg(&n)));
            }
            _ => {
                if p.eat_word("asm") {
                    while matches!(p.peek_word(), "sideeffect" | "inteldialect" | "alignstack" | "unwind") {
                        p.word();
                    }
                    p.expect(b'"');
                    let st = p.i;
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    let t = String::from_utf8_lossy(&p.s[st..p.i]).into_owned();
                    p.i += 1;
                    p.expect(b',');
                    p.expect(b'"');
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                    callee = Callee::Asm(t);
                } else {
                    let pt = self.m.ty(Ty::Ptr);
                    let v = self.m.parse_const(self.pool, p, pt);
                    callee = Callee::Ind(Opd::K(v));
                }
            }
        }
        let mut args = vec![];
        p.expect(b'(');
        if p.peek() != b')' {
            loop {
                if p.peek_word() == "metadata" {
                    // skip metadata argument
                    let mut d = 0;
                    while p.i < p.s.len() {
                        match p.s[p.i] {
                            b'(' | b'{' => d += 1,
                            b')' | b'}' if d > 0 => d -= 1,
                            b')' | b',' if d == 0 => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                } else {
                    let t = self.m.parse_ty(p);
                    self.skip_attrs(p);
                    let o = self.opd(p, t);
                    args.push((o, t));
                }
                if !p.eat(b',') {
                    break;
                }
            }
        }
        p.expect(b')');
        let mut norm = None;
        if invoke {
            // find "to label %x unwind label %y"
            let rest = std::str::from_utf8(&p.s[p.i..]).unwrap();
            let k = rest.find("to label %").unwrap_or_else(|| p.fail("invoke"));
            p.i += k + 3;
            let e = self.label(p);
            norm = Some(self.edge(e));
        }
        Inst::Call { callee, args, ret, dst, norm }
    }
}
