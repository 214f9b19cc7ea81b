//! Hash-consed bit-vector expression DAG with a rewriting constructor layer.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

/// Small fast hasher (FxHash style) for internal tables.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract, // k = lo
    Concat,  // a = hi, b = lo
    Uf,      // k = function code
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: u128,
    pub a: E,
    pub b: E,
    pub c: E,
    pub w: u16,
    pub op: Op,
}

/// Floating point and other opaque functions (exact when evaluated, uninterpreted for the solver).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum UfOp {
    FAdd = 1,
    FSub,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FCmp0 = 16, // + predicate (0..16)
    UiToFp = 40,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
    FFloor,
    FSqrt,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub kz: Vec<u64>, // known zero bits (w<=64)
    pub ko: Vec<u64>, // known one bits
    pub vars: Vec<u32>, // var set id per node
    pub sets: Vec<Rc<[u64]>>,
    setmap: HashMap<Rc<[u64]>, u32>,
    unions: FxMap<(u32, u32), u32>,
    memo_epoch: Vec<u32>,
    memo_val: Vec<u128>,
    epoch: u32,
    fusing: bool,
    pub t: E,
    pub f: E,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            map: Default::default(),
            kz: vec![],
            ko: vec![],
            vars: vec![],
            sets: vec![],
            setmap: HashMap::new(),
            unions: Default::default(),
            memo_epoch: vec![],
            memo_val: vec![],
            epoch: 0,
            fusing: false,
            t: 0,
            f: 0,
        };
        let empty: Rc<[u64]> = Rc::from(vec![]);
        p.sets.push(empty.clone());
        p.setmap.insert(empty, 0);
        // id 0 is reserved so that 0 can mean "no expression"
        p.f = p.konst(1, 0);
        let z = p.konst(8, 0);
        let _ = z;
        p.f = p.konst(1, 0);
        p.t = p.konst(1, 1);
        // make sure id 0 is never a symbolic byte: it is the constant false
        p
    }

    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&x) = self.unions.get(&key) {
            return x;
        }
        let (sa, sb) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let (l, s) = if sa.len() >= sb.len() { (sa, sb) } else { (sb, sa) };
        let mut v = l.to_vec();
        for i in 0..s.len() {
            v[i] |= s[i];
        }
        let id = self.intern_set(v);
        self.unions.insert(key, id);
        id
    }
    fn intern_set(&mut self, v: Vec<u64>) -> u32 {
        let rc: Rc<[u64]> = Rc::from(v);
        if let Some(&id) = self.setmap.get(&rc) {
            return id;
        }
        let id = self.sets.len() as u32;
        self.sets.push(rc.clone());
        self.setmap.insert(rc, id);
        id
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let (kz, ko) = self.known(&n);
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => {
                let i = n.k as usize;
                let mut v = vec![0u64; i / 64 + 1];
                v[i / 64] |= 1 << (i % 64);
                self.intern_set(v)
            }
            Op::ZExt | Op::SExt | Op::Extract => self.vars[n.a as usize],
            Op::Ite => {
                let x = self.union(self.vars[n.a as usize], self.vars[n.b as usize]);
                self.union(x, self.vars[n.c as usize])
            }
            Op::Uf => {
                let x = self.vars[n.a as usize];
                if n.c == 1 {
                    self.union(x, self.vars[n.b as usize])
                } else {
                    x
                }
            }
            _ => self.union(self.vars[n.a as usize], self.vars[n.b as usize]),
        };
        self.nodes.push(n);
        self.kz.push(kz);
        self.ko.push(ko);
        self.vars.push(vs);
        self.memo_epoch.push(0);
        self.memo_val.push(0);
        self.map.insert(n, id);
        id
    }

    fn known(&self, n: &Node) -> (u64, u64) {
        let w = n.w as u32;
        if w > 64 {
            return (0, 0);
        }
        let m = mask64(w);
        let kz = |e: E| self.kz[e as usize];
        let ko = |e: E| self.ko[e as usize];
        let (z, o) = match n.op {
            Op::Const => (!(n.k as u64), n.k as u64),
            Op::And => (kz(n.a) | kz(n.b), ko(n.a) & ko(n.b)),
            Op::Or => (kz(n.a) & kz(n.b), ko(n.a) | ko(n.b)),
            Op::Xor => (
                (kz(n.a) & kz(n.b)) | (ko(n.a) & ko(n.b)),
                (kz(n.a) & ko(n.b)) | (ko(n.a) & kz(n.b)),
            ),
            Op::Ite => (kz(n.b) & kz(n.c), ko(n.b) & ko(n.c)),
            Op::ZExt => {
                let aw = self.w(n.a);
                (kz(n.a) | !mask64(aw), ko(n.a))
            }
            Op::SExt => {
                let aw = self.w(n.a);
                let hi = !mask64(aw);
                let sign = 1u64 << (aw - 1);
                let z = if kz(n.a) & sign != 0 { kz(n.a) | hi } else { kz(n.a) & mask64(aw) };
                let o = if ko(n.a) & sign != 0 { ko(n.a) | hi } else { ko(n.a) };
                (z, o)
            }
            Op::Extract => {
                if self.w(n.a) <= 64 {
                    (kz(n.a) >> n.k as u32, ko(n.a) >> n.k as u32)
                } else {
                    (0, 0)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                ((kz(n.a) << lw) | (kz(n.b) & mask64(lw)), (ko(n.a) << lw) | ko(n.b))
            }
            Op::Shl => {
                if let Some(k) = self.cv(n.b) {
                    let k = k as u32;
                    ((kz(n.a) << k) | mask64(k), ko(n.a) << k)
                } else {
                    (mask64(kz(n.a).trailing_ones().min(64)), 0)
                }
            }
            Op::LShr => {
                if let Some(k) = self.cv(n.b) {
                    let k = k as u32;
                    ((kz(n.a) >> k) | !(m >> k), ko(n.a) >> k)
                } else {
                    // result <= a
                    let hz = (kz(n.a) | !m).leading_ones();
                    (if hz == 0 { 0 } else if hz >= 64 { !0 } else { !0u64 << (64 - hz) }, 0)
                }
            }
            Op::Add => {
                // max values bound: leading zeros
                let ma = !kz(n.a) & m;
                let mb = !kz(n.b) & m;
                let mut z = match ma.checked_add(mb) {
                    Some(s) if s <= m => {
                        if s == 0 {
                            !0
                        } else {
                            let lz = s.leading_zeros();
                            if lz == 0 { 0 } else { !0u64 << (64 - lz) }
                        }
                    }
                    _ => 0,
                };
                // common trailing zeros
                let tz = kz(n.a).trailing_ones().min(kz(n.b).trailing_ones());
                z |= mask64(tz);
                // low bits where one side is entirely zero
                let la = kz(n.a).trailing_ones().min(63);
                let lb = kz(n.b).trailing_ones().min(63);
                let (lo, other) = if la >= lb { (la, n.b) } else { (lb, n.a) };
                let lm = mask64(lo);
                (z | (kz(other) & lm), ko(other) & lm)
            }
            Op::Mul => {
                let ma = (!kz(n.a) & m) as u128;
                let mb = (!kz(n.b) & m) as u128;
                let s = ma * mb;
                let mut z = if s <= m as u128 {
                    let s = s as u64;
                    if s == 0 {
                        !0
                    } else {
                        let lz = s.leading_zeros();
                        if lz == 0 { 0 } else { !0u64 << (64 - lz) }
                    }
                } else {
                    0
                };
                let tz = (kz(n.a).trailing_ones() + kz(n.b).trailing_ones()).min(64);
                z |= mask64(tz);
                (z, 0)
            }
            Op::UDiv => {
                let ma = !kz(n.a) & m;
                let d = self.ko[n.b as usize];
                if d == 0 {
                    return (!m, 0);
                }
                let s = ma / d;
                if s == 0 {
                    (!0, 0)
                } else {
                    let lz = s.leading_zeros();
                    (if lz == 0 { 0 } else { !0u64 << (64 - lz) }, 0)
                }
            }
            Op::URem => {
                if let Some(d) = self.cv(n.b).filter(|d| *d != 0) {
                    let s = (d as u64).saturating_sub(1).min(!kz(n.a) & m);
                    if s == 0 {
                        (!0, 0)
                    } else {
                        let lz = s.leading_zeros();
                        (if lz == 0 { 0 } else { !0u64 << (64 - lz) }, 0)
                    }
                } else {
                    (0, 0)
                }
            }
            _ => (0, 0),
        };
        ((z & m) | !m, o & m)
    }

    pub fn umax(&self, e: E) -> u128 {
        let w = self.w(e);
        if let Some(c) = self.cv(e) {
            return c;
        }
        if w > 64 {
            if self.n(e).op == Op::ZExt {
                return self.umax(self.n(e).a);
            }
            return mask(w);
        }
        (!self.kz[e as usize] & mask64(w)) as u128
    }
    pub fn umin(&self, e: E) -> u128 {
        if let Some(c) = self.cv(e) {
            return c;
        }
        if self.w(e) > 64 {
            return 0;
        }
        self.ko[e as usize] as u128
    }

    pub fn konst(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32) -> E {
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn uf(&mut self, code: u32, w: u32, a: E, b: Option<E>) -> E {
        if let Some(x) = self.cv(a) {
            if b.is_none() || self.cv(b.unwrap()).is_some() {
                let y = b.map(|b| self.cv(b).unwrap()).unwrap_or(0);
                let r = eval_uf(code, self.w(a), w, x, y);
                return self.konst(w, r);
            }
        }
        self.mk(Node {
            op: Op::Uf,
            w: w as u16,
            a,
            b: b.unwrap_or(0),
            c: b.is_some() as u32,
            k: code as u128,
        })
    }
    pub fn bool(&self, b: bool) -> E {
        if b {
            self.t
        } else {
            self.f
        }
    }

    fn raw(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn not1(&mut self, e: E) -> E {
        let t = self.t;
        self.xor(e, t)
    }

    pub fn add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(w, x.wrapping_add(y));
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            let n = *self.n(a);
            if n.op == Op::Add {
                if let Some(x) = self.cv(n.b) {
                    let k = self.konst(w, x.wrapping_add(y));
                    return self.add(n.a, k);
                }
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.add(n.b, b);
                let z = self.add(n.c, b);
                return self.ite(n.a, x, z);
            }
            if w == 1 {
                return self.not1(a);
            }
            return self.raw(Op::Add, w, a, b);
        }
        // (x + c) + y -> (x + y) + c
        let na = *self.n(a);
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        let nb = *self.n(b);
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // x + (-1 * x)
        if nb.op == Op::Mul && nb.a == a && self.cv(nb.b) == Some(mask(w)) {
            return self.konst(w, 0);
        }
        if na.op == Op::Mul && na.a == b && self.cv(na.b) == Some(mask(w)) {
            return self.konst(w, 0);
        }
        // (x + y) + (-1 * y) -> x
        if nb.op == Op::Mul && self.cv(nb.b) == Some(mask(w)) && na.op == Op::Add {
            if na.b == nb.a {
                return na.a;
            }
            if na.a == nb.a {
                return na.b;
            }
        }
        if na.op == Op::Mul && self.cv(na.b) == Some(mask(w)) && nb.op == Op::Add {
            if nb.b == na.a {
                return nb.a;
            }
            if nb.a == na.a {
                return nb.b;
            }
        }
        if w <= 64 {
            // disjoint bits: addition is or
            let za = self.kz[a as usize];
            let zb = self.kz[b as usize];
            if za | zb == !0 {
                return self.or(a, b);
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Add, w, a, b)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m1 = self.konst(w, mask(w));
        self.mul(a, m1)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(y) = self.cv(b) {
            let k = self.konst(w, (0u128).wrapping_sub(y));
            return self.add(a, k);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            let n = *self.n(a);
            if n.op == Op::Mul {
                if let Some(x) = self.cv(n.b) {
                    let k = self.konst(w, x.wrapping_mul(y));
                    return self.mul(n.a, k);
                }
            }
            if y == mask(w) && n.op == Op::Add {
                // -(x+y) = -x + -y  (only for constants)
                if let Some(x) = self.cv(n.b) {
                    let m = self.mul(n.a, b);
                    let k = self.konst(w, (0u128).wrapping_sub(x));
                    return self.add(m, k);
                }
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.mul(n.b, b);
                let z = self.mul(n.c, b);
                return self.ite(n.a, x, z);
            }
        } else if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.lshr(a, k);
            }
            if let Some(x) = self.cv(a) {
                if y != 0 {
                    return self.konst(w, x / y);
                }
            }
            if y != 0 && self.umax(a) < y {
                return self.konst(w, 0);
            }
            if y != 0 && w <= 64 {
                if let Some(r) = self.narrow_div(Op::UDiv, a, y, w) {
                    return r;
                }
            }
        }
        self.raw(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return self.konst(w, 0);
            }
            if y.is_power_of_two() {
                let k = self.konst(w, y - 1);
                return self.and(a, k);
            }
            if let Some(x) = self.cv(a) {
                if y != 0 {
                    return self.konst(w, x % y);
                }
            }
            if y != 0 && self.umax(a) < y {
                return a;
            }
            if y != 0 && w <= 64 {
                if let Some(r) = self.narrow_div(Op::URem, a, y, w) {
                    return r;
                }
            }
        }
        self.raw(Op::URem, w, a, b)
    }
    /// divide in the smallest width that holds both operands
    fn narrow_div(&mut self, op: Op, a: E, y: u128, w: u32) -> Option<E> {
        let m = self.umax(a).max(y);
        let need = (128 - m.leading_zeros()).max(1);
        let nw = if need <= 8 { 8 } else if need <= 16 { 16 } else if need <= 32 { 32 } else { return None };
        if nw >= w {
            return None;
        }
        let x = self.extract(a, 0, nw);
        let k = self.konst(nw, y);
        let r = self.raw(op, nw, x, k);
        Some(self.zext(r, w))
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.konst(w, sext128(x, w).wrapping_div(sext128(y, w)) as u128);
            }
        }
        if self.sign_zero(a) && self.sign_zero(b) {
            return self.udiv(a, b);
        }
        self.raw(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.konst(w, sext128(x, w).wrapping_rem(sext128(y, w)) as u128);
            }
        }
        if self.sign_zero(a) && self.sign_zero(b) {
            return self.urem(a, b);
        }
        self.raw(Op::SRem, w, a, b)
    }
    fn sign_zero(&self, a: E) -> bool {
        let w = self.w(a);
        if w > 64 {
            return self.cv(a).map(|x| x >> (w - 1) & 1 == 0).unwrap_or(self.n(a).op == Op::ZExt);
        }
        self.kz[a as usize] >> (w - 1) & 1 == 1
    }

    pub fn and(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x & y);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            let n = *self.n(a);
            if n.op == Op::And {
                if let Some(x) = self.cv(n.b) {
                    let k = self.konst(w, x & y);
                    return self.and(n.a, k);
                }
            }
            if w <= 64 {
                // bits that are already zero do not need masking
                let live = !self.kz[a as usize] & mask64(w);
                if live & !(y as u64) == 0 {
                    return a;
                }
                if live & (y as u64) == 0 {
                    return self.konst(w, 0);
                }
            }
            // contiguous low mask -> zext(extract)
            if (y & (y + 1)) == 0 {
                let k = 128 - y.leading_zeros();
                let x = self.extract(a, 0, k);
                return self.zext(x, w);
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.and(n.b, b);
                let z = self.and(n.c, b);
                return self.ite(n.a, x, z);
            }
            if n.op == Op::Concat {
                let lw = self.w(n.b);
                let kh = self.konst(w - lw, y >> lw);
                let kl = self.konst(lw, y);
                let h = self.and(n.a, kh);
                let l = self.and(n.b, kl);
                return self.concat(h, l);
            }
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let k = self.konst(iw, y);
                let x = self.and(n.a, k);
                return self.zext(x, w);
            }
            // contiguous mask 0..0 1..1 0..0 -> shifted extract
            let tz = y.trailing_zeros();
            let yy = y >> tz;
            if (yy & (yy + 1)) == 0 {
                let k = 128 - yy.leading_zeros();
                let x = self.extract(a, tz, k);
                let zl = self.konst(tz, 0);
                let c = self.concat(x, zl);
                return self.zext(c, w);
            }
            return self.raw(Op::And, w, a, b);
        }
        if w == 1 {
            // x & !x
            if self.is_not_of(a, b) {
                return self.f;
            }
            let na = *self.n(a);
            let nb = *self.n(b);
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::And, w, a, b)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        (na.op == Op::Xor && na.b == self.t && na.a == b)
            || (nb.op == Op::Xor && nb.b == self.t && nb.a == a)
    }
    pub fn or(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x | y);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            let n = *self.n(a);
            if n.op == Op::Or {
                if let Some(x) = self.cv(n.b) {
                    let k = self.konst(w, x | y);
                    return self.or(n.a, k);
                }
            }
            if w <= 64 && (y as u64) & !self.ko[a as usize] == 0 {
                return a;
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.or(n.b, b);
                let z = self.or(n.c, b);
                return self.ite(n.a, x, z);
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.t;
            }
            let na = *self.n(a);
            let nb = *self.n(b);
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            return self.raw(Op::Or, w, a, b);
        }
        if w <= 64 {
            // disjoint at some split point -> concat
            let za = self.kz[a as usize];
            let zb = self.kz[b as usize];
            if za | zb == !0 {
                let m = mask64(w);
                let la = !za & m; // live bits
                let lb = !zb & m;
                for (lo, hi, ll, lh) in [(a, b, la, lb), (b, a, lb, la)] {
                    // lo lives strictly below hi
                    let s = lh.trailing_zeros();
                    if s > 0 && s < w && ll < (1u64 << s) {
                        // prefer byte boundaries
                        let mut s2 = s;
                        let top = 64 - ll.leading_zeros();
                        if s % 8 != 0 {
                            let r = s - s % 8;
                            if r >= top && r > 0 {
                                s2 = r;
                            }
                        }
                        let h = self.extract(hi, s2, w - s2);
                        let l = self.extract(lo, 0, s2);
                        return self.concat(h, l);
                    }
                }
            }
        }
        if a > b && self.cv(b).is_none() {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x ^ y);
            }
            if y == 0 {
                return a;
            }
            let n = *self.n(a);
            if n.op == Op::Xor {
                if let Some(x) = self.cv(n.b) {
                    let k = self.konst(w, x ^ y);
                    return self.xor(n.a, k);
                }
            }
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let x = self.xor(n.b, b);
                let z = self.xor(n.c, b);
                return self.ite(n.a, x, z);
            }
            if n.op == Op::Concat {
                let lw = self.w(n.b);
                let kh = self.konst(w - lw, y >> lw);
                let kl = self.konst(lw, y);
                let h = self.xor(n.a, kh);
                let l = self.xor(n.b, kl);
                return self.concat(h, l);
            }
            return self.raw(Op::Xor, w, a, b);
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == Op::Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
        }
        // move constants outward
        if na.op == Op::Xor && self.cv(na.b).is_some() {
            let s = self.xor(na.a, b);
            return self.xor(s, na.b);
        }
        if nb.op == Op::Xor && self.cv(nb.b).is_some() {
            let s = self.xor(a, nb.a);
            return self.xor(s, nb.b);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.xor(na.a, nb.a);
            let l = self.xor(na.b, nb.b);
            return self.concat(h, l);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            if k == 0 {
                return a;
            }
            let k = k as u32;
            let x = self.extract(a, 0, w - k);
            let z = self.konst(k, 0);
            return self.concat(x, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.dist_ite_shift(Op::Shl, a, b) {
            return r;
        }
        self.raw(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            if k == 0 {
                return a;
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.dist_ite_shift(Op::LShr, a, b) {
            return r;
        }
        self.raw(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.raw(Op::AShr, w, a, b)
    }
    fn dist_ite_shift(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let n = *self.n(b);
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let (x, y) = match op {
                Op::Shl => (self.shl(a, n.b), self.shl(a, n.c)),
                _ => (self.lshr(a, n.b), self.lshr(a, n.c)),
            };
            return Some(self.ite(n.a, x, y));
        }
        None
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(x) = self.cv(a) {
            return self.konst(w, x);
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Concat && self.cv(n.a) == Some(0) {
            return self.zext(n.b, w);
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() && aw > 1 {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            return self.konst(w, sext128(x, aw) as u128);
        }
        if self.sign_zero(a) {
            return self.zext(a, w);
        }
        let n = *self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {lo}+{w} of {aw}");
        if w == aw {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.konst(w, 0);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Ite => {
                let (cb, cc) = (self.cv(n.b).is_some(), self.cv(n.c).is_some());
                if cb || cc || lo == 0 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return if n.op == Op::Add { self.add(x, y) } else { self.mul(x, y) };
            }
            _ => {}
        }
        if aw <= 64 {
            // fully known?
            let m = mask64(w);
            let z = self.kz[a as usize] >> lo & m;
            let o = self.ko[a as usize] >> lo & m;
            if z | o == m {
                return self.konst(w, o as u128);
            }
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
    }
    fn complement(&mut self, e: E) -> Option<E> {
        let n = *self.n(e);
        let w = n.w as u32;
        match n.op {
            Op::Xor if w > 1 && self.cv(n.b) == Some(mask(w)) => Some(n.a),
            Op::Const if n.k == mask(w) => Some(self.konst(w, 0)),
            _ => None,
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.konst(w, (x << lw) | y);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let nh = *self.n(hi);
        let nl = *self.n(lo);
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k as u32 == nl.k as u32 + lw {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // the low part may have been rewritten
        if !self.fusing && nh.op == Op::Extract && nh.k as u32 >= lw {
            self.fusing = true;
            let low = self.extract(nh.a, nh.k as u32 - lw, lw);
            let both = if low == lo { Some(self.extract(nh.a, nh.k as u32 - lw, w)) } else { None };
            self.fusing = false;
            if let Some(e) = both {
                return e;
            }
        }
        if nh.op == Op::Extract && nl.op == Op::Concat {
            // extract ++ (extract ++ rest)
            let nn = *self.n(nl.a);
            if nn.op == Op::Extract && nn.a == nh.a && nh.k as u32 == nn.k as u32 + self.w(nl.a) {
                let hw2 = hw + self.w(nl.a);
                let h = self.extract(nh.a, nn.k as u32, hw2);
                if self.n(h).op != Op::Concat {
                    return self.concat(h, nl.b);
                }
            }
        }
        // extract(e, lo) as high half of a full-width low part: e itself when lo is an extract of zext is handled above
        if nh.op == Op::ZExt {
            // zext(x) ++ lo -> zext(x ++ lo)
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        // parts of a complement
        if let Some(x) = self.complement(hi) {
            let (low, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (lo, None) };
            if let Some(y) = self.complement(low) {
                let c = self.concat(x, y);
                if self.n(c).op != Op::Concat {
                    let cw = self.w(c);
                    let m = self.konst(cw, mask(cw));
                    let c = self.xor(c, m);
                    return match rest {
                        Some(r) => self.concat(c, r),
                        None => c,
                    };
                }
            }
        }
        // normalise to right-nested concat
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        // constants
        if let Some(x) = self.cv(hi) {
            if nl.op == Op::Concat {
                if let Some(y) = self.cv(nl.a) {
                    let k = self.konst(hw + self.w(nl.a), (x << self.w(nl.a)) | y);
                    return self.concat(k, nl.b);
                }
            }
            if nl.op == Op::Ite && self.cv(nl.b).is_some() && self.cv(nl.c).is_some() {
                let p = self.concat(hi, nl.b);
                let q = self.concat(hi, nl.c);
                return self.ite(nl.a, p, q);
            }
        }
        if nh.op == Op::Ite && self.cv(nh.b).is_some() && self.cv(nh.c).is_some() {
            if self.cv(lo).is_some() {
                let p = self.concat(nh.b, lo);
                let q = self.concat(nh.c, lo);
                return self.ite(nh.a, p, q);
            }
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            // (two concatenations would be taken apart again)
            let (np, nq) = (*self.n(p), *self.n(q));
            if !(np.op == Op::Concat && nq.op == Op::Concat && self.w(np.b) == self.w(nq.b)) {
                return self.ite(nh.a, p, q);
            }
        }
        // sign extension pattern: extract(x, top bit) repeated is left alone
        self.mk(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(x) = self.cv(c) {
            return if x == 1 { a } else { b };
        }
        let w = self.w(a);
        let nc = *self.n(c);
        if nc.op == Op::Xor && nc.b == self.t {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or(n, a);
                }
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        // nested with same condition
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let o = self.or(c, nb.a);
            return self.ite(o, a, nb.c);
        }
        if nb.op == Op::Ite && nb.c == a {
            let nd = self.not1(nb.a);
            let o = self.or(c, nd);
            return self.ite(o, a, nb.b);
        }
        if na.op == Op::Ite && na.b == b {
            // ite(c, ite(d, y, x), y) -> ite(c & !d, x, y)
            let nd = self.not1(na.a);
            let o = self.and(c, nd);
            return self.ite(o, na.c, b);
        }
        if na.op == Op::Ite && na.c == b {
            let o = self.and(c, na.a);
            return self.ite(o, na.b, b);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let i = self.ite(c, na.a, nb.a);
            return self.zext(i, w);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && w > 8 {
            let h = self.ite(c, na.a, nb.a);
            let l = self.ite(c, na.b, nb.b);
            return self.concat(h, l);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.t;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if w <= 64 {
            // contradicting known bits
            let (za, oa) = (self.kz[a as usize], self.ko[a as usize]);
            let (zb, ob) = (self.kz[b as usize], self.ko[b as usize]);
            if (za & ob) | (oa & zb) != 0 {
                return self.f;
            }
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.bool(x == y);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not1(a) };
            }
            let n = *self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y >> iw != 0 {
                        return self.f;
                    }
                    let k = self.konst(iw, y);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if sext128(y & mask(iw), iw) as u128 & mask(w) != y {
                        return self.f;
                    }
                    let k = self.konst(iw, y);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let kh = self.konst(w - lw, y >> lw);
                    let kl = self.konst(lw, y);
                    let h = self.eq(n.a, kh);
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::Add => {
                    if let Some(x) = self.cv(n.b) {
                        let k = self.konst(w, y.wrapping_sub(x));
                        return self.eq(n.a, k);
                    }
                    // a + (-1*b) == 0
                    if y == 0 {
                        let m1 = mask(w);
                        let nb = *self.n(n.b);
                        let na = *self.n(n.a);
                        if nb.op == Op::Mul && self.cv(nb.b) == Some(m1) {
                            return self.eq(n.a, nb.a);
                        }
                        if na.op == Op::Mul && self.cv(na.b) == Some(m1) {
                            return self.eq(n.b, na.a);
                        }
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.cv(n.b) {
                        let k = self.konst(w, x ^ y);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Or if y == 0 => {
                    let z = self.konst(w, 0);
                    let l = self.eq(n.a, z);
                    let r = self.eq(n.b, z);
                    return self.and(l, r);
                }
                Op::Ite => {
                    let (cb, cc) = (self.cv(n.b), self.cv(n.c));
                    if cb.is_some() || cc.is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                Op::Mul if self.cv(n.b).map(|k| k & 1 == 1).unwrap_or(false) => {
                    // odd multiplier is invertible
                    let k = self.cv(n.b).unwrap();
                    let mut inv: u128 = 1;
                    for _ in 0..8 {
                        inv = inv.wrapping_mul(2u128.wrapping_sub(k.wrapping_mul(inv)));
                    }
                    let kk = self.konst(w, y.wrapping_mul(inv));
                    return self.eq(n.a, kk);
                }
                _ => {}
            }
        } else {
            let na = *self.n(a);
            let nb = *self.n(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let m = wa.max(wb);
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if (na.op == Op::Concat && nb.op == Op::ZExt) || (na.op == Op::ZExt && nb.op == Op::Concat) {
                let (c, _z) = if na.op == Op::Concat { (na, b) } else { (nb, a) };
                let other = if na.op == Op::Concat { b } else { a };
                let lw = self.w(c.b);
                let oh = self.extract(other, lw, w - lw);
                let ol = self.extract(other, 0, lw);
                let h = self.eq(c.a, oh);
                let l = self.eq(c.b, ol);
                return self.and(h, l);
            }
            if na.op == Op::Add && nb.op == Op::Add {
                if na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
                if na.a == nb.a {
                    return self.eq(na.b, nb.b);
                }
            }
            // x + c == x
            if na.op == Op::Add && na.a == b && self.cv(na.b).is_some() {
                return self.f;
            }
            if nb.op == Op::Add && nb.a == a && self.cv(nb.b).is_some() {
                return self.f;
            }
            if na.op == Op::Xor {
                if na.a == b {
                    let z = self.konst(w, 0);
                    return self.eq(na.b, z);
                }
                if na.b == b {
                    let z = self.konst(w, 0);
                    return self.eq(na.a, z);
                }
            }
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                let p = self.eq(na.b, nb.b);
                let q = self.eq(na.c, nb.c);
                return self.ite(na.a, p, q);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not1(x);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not1(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        if self.umax(a) < self.umin(b) {
            return self.t;
        }
        if self.umin(a) >= self.umax(b) {
            return self.f;
        }
        if let Some(y) = self.cv(b) {
            if y == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if y == mask(w) {
                return self.ne(a, b);
            }
            let n = *self.n(a);
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let k = self.konst(iw, y); // y <= umax(a) < 2^iw because not decided above
                if y <= mask(iw) {
                    return self.ult(n.a, k);
                }
                return self.t;
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let p = self.ult(n.b, b);
                let q = self.ult(n.c, b);
                return self.ite(n.a, p, q);
            }
            if n.op == Op::Concat && y & mask(self.w(n.b)) == 0 {
                // a_hi ++ a_lo < k ++ 0  <=> a_hi < k
                let lw = self.w(n.b);
                let k = self.konst(w - lw, y >> lw);
                return self.ult(n.a, k);
            }
        }
        if let Some(x) = self.cv(a) {
            if x == 0 {
                let z = self.konst(w, 0);
                return self.ne(b, z);
            }
            if x == mask(w) - 1 {
                let k = self.konst(w, mask(w));
                return self.eq(b, k);
            }
            let n = *self.n(b);
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                if x > mask(iw) {
                    return self.f;
                }
                let k = self.konst(iw, x);
                return self.ult(k, n.a);
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let p = self.ult(a, n.b);
                let q = self.ult(a, n.c);
                return self.ite(n.a, p, q);
            }
            if n.op == Op::Concat && x & mask(self.w(n.b)) == mask(self.w(n.b)) {
                let lw = self.w(n.b);
                let k = self.konst(w - lw, x >> lw);
                return self.ult(k, n.a);
            }
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            if m < w {
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
        }
        if w == 1 {
            let n = self.not1(a);
            return self.and(n, b);
        }
        self.mk(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not1(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.bool(sext128(x, w) < sext128(y, w));
        }
        if self.sign_zero(a) && self.sign_zero(b) {
            return self.ult(a, b);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not1(s);
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::SExt {
            if let Some(y) = self.cv(b) {
                let iw = self.w(na.a);
                let yy = sext128(y, w);
                let lo = -(1i128 << (iw - 1));
                let hi = (1i128 << (iw - 1)) - 1;
                if yy > hi {
                    return self.t;
                }
                if yy <= lo {
                    return self.f;
                }
                let k = self.konst(iw, y);
                return self.slt(na.a, k);
            }
        }
        if nb.op == Op::SExt {
            if let Some(x) = self.cv(a) {
                let iw = self.w(nb.a);
                let xx = sext128(x, w);
                let lo = -(1i128 << (iw - 1));
                let hi = (1i128 << (iw - 1)) - 1;
                if xx < lo {
                    return self.t;
                }
                if xx >= hi {
                    return self.f;
                }
                let k = self.konst(iw, x);
                return self.slt(k, nb.a);
            }
        }
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            return self.ite(na.a, p, q);
        }
        self.mk(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not1(x)
    }

    /// Evaluate under an assignment of the byte variables.
    pub fn eval_begin(&mut self) {
        self.epoch += 1;
    }
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.memo_epoch[i] == self.epoch {
            return self.memo_val[i];
        }
        let w = n.w as u32;
        let mk = mask(w);
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, m) == 1 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                }
            }
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => {
                let x = self.eval(n.a, m);
                sext128(x, self.w(n.a)) as u128 & mk
            }
            Op::Extract => self.eval(n.a, m) >> (n.k as u32) & mk,
            Op::Uf => {
                let x = self.eval(n.a, m);
                let y = if n.c == 1 { self.eval(n.b, m) } else { 0 };
                eval_uf(n.k as u32, self.w(n.a), w, x, y) & mk
            }
            _ => {
                let x = self.eval(n.a, m);
                let y = self.eval(n.b, m);
                let aw = self.w(n.a);
                match n.op {
                    Op::Add => x.wrapping_add(y) & mk,
                    Op::Mul => x.wrapping_mul(y) & mk,
                    Op::UDiv => if y == 0 { mk } else { x / y },
                    Op::URem => if y == 0 { x } else { x % y },
                    Op::SDiv => {
                        let (sx, sy) = (sext128(x, aw), sext128(y, aw));
                        if sy == 0 {
                            if sx >= 0 { mk } else { 1 }
                        } else {
                            sx.wrapping_div(sy) as u128 & mk
                        }
                    }
                    Op::SRem => {
                        let (sx, sy) = (sext128(x, aw), sext128(y, aw));
                        if sy == 0 { x } else { sx.wrapping_rem(sy) as u128 & mk }
                    }
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u128 { 0 } else { x << y & mk },
                    Op::LShr => if y >= w as u128 { 0 } else { x >> y },
                    Op::AShr => {
                        let s = y.min(w as u128 - 1) as u32;
                        (sext128(x, aw) >> s) as u128 & mk
                    }
                    Op::Eq => (x == y) as u128,
                    Op::Ult => (x < y) as u128,
                    Op::Slt => (sext128(x, aw) < sext128(y, aw)) as u128,
                    Op::Concat => (x << self.w(n.b)) | y,
                    _ => unreachable!(),
                }
            }
        };
        self.memo_epoch[i] = self.epoch;
        self.memo_val[i] = v;
        v
    }

    pub fn set_intersects(&self, a: u32, b: u32) -> bool {
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        x.iter().zip(y.iter()).any(|(p, q)| p & q != 0)
    }
    pub fn set_union(&mut self, a: u32, b: u32) -> u32 {
        self.union(a, b)
    }
    pub fn set_vars(&self, a: u32) -> Vec<u32> {
        let mut out = vec![];
        for (i, w) in self.sets[a as usize].iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                let b = w.trailing_zeros();
                out.push(i as u32 * 64 + b);
                w &= w - 1;
            }
        }
        out
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 && n.op != Op::Const && n.op != Op::Var {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({}, {}, {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub fn eval_uf(code: u32, aw: u32, w: u32, x: u128, y: u128) -> u128 {
    let f32b = |v: u128| f32::from_bits(v as u32);
    let f64b = |v: u128| f64::from_bits(v as u64);
    let pack32 = |f: f32| f.to_bits() as u128;
    let pack64 = |f: f64| f.to_bits() as u128;
    macro_rules! bin {
        ($op:tt) => {
            if aw == 32 { pack32(f32b(x) $op f32b(y)) } else { pack64(f64b(x) $op f64b(y)) }
        };
    }
    match code {
        1 => bin!(+),
        2 => bin!(-),
        3 => bin!(*),
        4 => bin!(/),
        5 => bin!(%),
        6 => {
            if aw == 32 {
                pack32(-f32b(x))
            } else {
                pack64(-f64b(x))
            }
        }
        7 => {
            if aw == 32 {
                pack32(f32b(x).abs())
            } else {
                pack64(f64b(x).abs())
            }
        }
        16..=31 => {
            let (a, b) = if aw == 32 { (f32b(x) as f64, f32b(y) as f64) } else { (f64b(x), f64b(y)) };
            let uno = a.is_nan() || b.is_nan();
            let p = code - 16;
            // bits: 1 = eq, 2 = gt, 4 = lt, 8 = unordered  (LLVM encoding)
            let r = if uno {
                p & 8 != 0
            } else if a == b {
                p & 1 != 0
            } else if a > b {
                p & 2 != 0
            } else {
                p & 4 != 0
            };
            r as u128
        }
        40 => {
            if w == 32 {
                pack32(x as f32)
            } else {
                pack64(x as f64)
            }
        }
        41 => {
            let s = sext128(x, aw);
            if w == 32 {
                pack32(s as f32)
            } else {
                pack64(s as f64)
            }
        }
        42 => {
            let f = if aw == 32 { f32b(x) as f64 } else { f64b(x) };
            (f as u128) & mask(w)
        }
        43 => {
            let f = if aw == 32 { f32b(x) as f64 } else { f64b(x) };
            (f as i128) as u128 & mask(w)
        }
        44 => pack32(f64b(x) as f32),
        45 => pack64(f32b(x) as f64),
        46 => {
            if aw == 32 {
                pack32(f32b(x).floor())
            } else {
                pack64(f64b(x).floor())
            }
        }
        47 => {
            if aw == 32 {
                pack32(f32b(x).sqrt())
            } else {
                pack64(f64b(x).sqrt())
            }
        }
        _ => panic!("uf {code}"),
    }
}

/// Differential self-test of the rewriting layer: random terms are built through the constructors and compared with
/// direct evaluation. Run by setup (`symex --selftest`).
pub fn selftest(iters: u64, seed: u64) -> Result<u64, String> {
    let mut p = Pool::new();
    let mut s = seed | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let nm = 6usize;
    let nv = 6usize;
    let special: [u8; 8] = [0, 1, 0x7f, 0x80, 0xff, 0x30, 0x39, 0x0a];
    let mut models: Vec<Vec<u8>> = vec![];
    for k in 0..nm {
        models.push((0..nv).map(|_| if k % 2 == 0 { rnd() as u8 } else { special[(rnd() % 8) as usize] }).collect());
    }
    let widths = [1u32, 8, 16, 32, 64, 128, 24, 7];
    // pool of (expr, values)
    let mut items: Vec<(E, Vec<u128>)> = vec![];
    let mut checked = 0;
    for it in 0..iters {
        if items.len() > 400 || it % 3000 == 0 {
            items.clear();
            for v in 0..nv {
                let e = p.var(v as u32);
                items.push((e, models.iter().map(|m| m[v] as u128).collect()));
            }
            for w in widths {
                for _ in 0..4 {
                    let k = match rnd() % 6 {
                        0 => 0,
                        1 => 1,
                        2 => mask(w),
                        3 => 1u128 << (rnd() % w as u64),
                        4 => (rnd() % 300) as u128 & mask(w),
                        _ => rnd() as u128 & mask(w),
                    };
                    items.push((p.konst(w, k), vec![k; nm]));
                }
            }
        }
        let pick = (rnd() % items.len() as u64) as usize;
        let (a, va) = items[pick].clone();
        let w = p.w(a);
        let same: Vec<usize> = (0..items.len()).filter(|&i| p.w(items[i].0) == w).collect();
        let (b, vb) = items[same[(rnd() % same.len() as u64) as usize]].clone();
        let (c3, vc3) = items[same[(rnd() % same.len() as u64) as usize]].clone();
        let ones: Vec<usize> = (0..items.len()).filter(|&i| p.w(items[i].0) == 1).collect();
        let (cc, vcc) = items[ones[(rnd() % ones.len() as u64) as usize]].clone();
        let _ = (&c3, &vc3);
        let mk = mask(w);
        let op = rnd() % 24;
        let sx = |v: u128| sext128(v, w);
        let f: Box<dyn Fn(usize) -> u128>;
        let e;
        match op {
            0 => {
                e = p.add(a, b);
                f = Box::new(|i| va[i].wrapping_add(vb[i]) & mk);
            }
            1 => {
                e = p.sub(a, b);
                f = Box::new(|i| va[i].wrapping_sub(vb[i]) & mk);
            }
            2 => {
                e = p.mul(a, b);
                f = Box::new(|i| va[i].wrapping_mul(vb[i]) & mk);
            }
            3 => {
                e = p.udiv(a, b);
                f = Box::new(|i| if vb[i] == 0 { mk } else { va[i] / vb[i] });
            }
            4 => {
                e = p.urem(a, b);
                f = Box::new(|i| if vb[i] == 0 { va[i] } else { va[i] % vb[i] });
            }
            5 => {
                e = p.sdiv(a, b);
                f = Box::new(|i| {
                    if vb[i] == 0 {
                        if sx(va[i]) >= 0 { mk } else { 1 }
                    } else {
                        sx(va[i]).wrapping_div(sx(vb[i])) as u128 & mk
                    }
                });
            }
            6 => {
                e = p.srem(a, b);
                f = Box::new(|i| if vb[i] == 0 { va[i] } else { sx(va[i]).wrapping_rem(sx(vb[i])) as u128 & mk });
            }
            7 => {
                e = p.and(a, b);
                f = Box::new(|i| va[i] & vb[i]);
            }
            8 => {
                e = p.or(a, b);
                f = Box::new(|i| va[i] | vb[i]);
            }
            9 => {
                e = p.xor(a, b);
                f = Box::new(|i| va[i] ^ vb[i]);
            }
            10 | 11 => {
                // shift by small constant or by term
                let (k, vk) = if rnd() % 3 == 0 {
                    (b, vb.clone())
                } else {
                    let k = (rnd() % w as u64) as u128 & mk;
                    (p.konst(w, k), vec![k; nm])
                };
                if op == 10 {
                    e = p.shl(a, k);
                    let va = va.clone();
                    f = Box::new(move |i| if vk[i] >= w as u128 { 0 } else { va[i] << vk[i] & mk });
                } else {
                    e = p.lshr(a, k);
                    let va = va.clone();
                    f = Box::new(move |i| if vk[i] >= w as u128 { 0 } else { va[i] >> vk[i] });
                }
            }
            12 => {
                let k = (rnd() % w as u64) as u128 & mk;
                let kk = p.konst(w, k);
                e = p.ashr(a, kk);
                let va = va.clone();
                f = Box::new(move |i| (sext128(va[i], w) >> k.min(w as u128 - 1) as u32) as u128 & mk);
            }
            13 => {
                e = p.eq(a, b);
                f = Box::new(|i| (va[i] == vb[i]) as u128);
            }
            14 => {
                e = p.ult(a, b);
                f = Box::new(|i| (va[i] < vb[i]) as u128);
            }
            15 => {
                e = p.slt(a, b);
                f = Box::new(|i| (sx(va[i]) < sx(vb[i])) as u128);
            }
            16 | 17 => {
                e = p.ite(cc, a, b);
                f = Box::new(|i| if vcc[i] == 1 { va[i] } else { vb[i] });
            }
            18 => {
                let t = widths[(rnd() % 8) as usize].max(w);
                e = p.zext(a, t);
                f = Box::new(|i| va[i]);
            }
            19 => {
                let t = widths[(rnd() % 8) as usize].max(w);
                e = p.sext(a, t);
                f = Box::new(move |i| sext128(va[i], w) as u128 & mask(t));
            }
            20 | 21 => {
                let lo = (rnd() % w as u64) as u32;
                let n = 1 + (rnd() % (w - lo) as u64) as u32;
                let (lo, n) = if w % 8 == 0 && rnd() % 2 == 0 { (lo / 8 * 8, 8) } else { (lo, n) };
                e = p.extract(a, lo, n);
                f = Box::new(move |i| va[i] >> lo & mask(n));
            }
            _ => {
                let q = (rnd() % items.len() as u64) as usize;
                let (b, vb) = items[q].clone();
                let lw = p.w(b);
                if lw + w > 128 {
                    continue;
                }
                e = p.concat(a, b);
                f = Box::new(move |i| va[i] << lw | vb[i]);
            }
        }
        let vals: Vec<u128> = (0..nm).map(|i| f(i)).collect();
        for i in 0..nm {
            p.eval_begin();
            let got = p.eval(e, &models[i]);
            checked += 1;
            if got != vals[i] {
                return Err(format!("op {op} w {w}: got {got:#x} want {:#x}: {} from {} and {}", vals[i], p.show(e, 6), p.show(a, 6), p.show(b, 6)));
            }
            if p.w(e) <= 64 {
                let (z, o) = (p.kz[e as usize], p.ko[e as usize]);
                if got as u64 & z != 0 || got as u64 & o != o {
                    return Err(format!("known bits wrong for {}: {got:#x} z {z:#x} o {o:#x}", p.show(e, 6)));
                }
            }
        }
        items.push((e, vals));
    }
    Ok(checked)
}
