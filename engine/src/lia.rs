//! Translation of a conjunction to linear integer arithmetic. Every expression becomes the exact
//! integer it denotes (wrap-around becomes an explicit multiple of 2^w), so verdicts carry over;
//! an operation without a linear form becomes an unconstrained integer of its width and then only
//! "unsatisfiable" is used.
use crate::expr::*;

#[derive(Clone, Debug)]
pub struct Lin {
    /// sorted by atom
    pub t: Vec<(u32, i128)>,
    pub k: i128,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Clone, Debug)]
pub enum F {
    Lit(bool),
    /// lin <= 0
    Le(Vec<(u32, i128)>, i128),
    Eq(Vec<(u32, i128)>, i128),
    Not(Box<F>),
    And(Vec<F>),
    Or(Vec<F>),
    Iff(Box<F>, Box<F>),
    Ref(u32),
}

pub struct Lia<'a> {
    p: &'a Pool,
    dom: &'a FxMap<u32, [u64; 4]>,
    /// bounds of the atoms
    pub atoms: Vec<(i128, i128)>,
    pub vars: FxMap<u32, u32>,
    /// side conditions
    pub side: Vec<F>,
    /// shared boolean definitions
    pub defs: Vec<F>,
    mods: FxMap<E, Lin>,
    vals: FxMap<E, Lin>,
    bools: FxMap<E, u32>,
    divs: FxMap<(E, i128, bool), (Lin, Lin)>,
    /// atoms that are the quotient of a head by a constant (1: the head itself)
    chain: FxMap<u32, (u32, i128)>,
    /// the quotients of a head
    quots: FxMap<u32, Vec<(i128, u32)>>,
    heads: FxMap<(Vec<(u32, i128)>, i128), u32>,
    pub approx: bool,
    fuel: u32,
}

type O<T> = Option<T>;

fn p2(w: u32) -> O<i128> {
    if w < 127 {
        Some(1i128 << w)
    } else {
        None
    }
}

impl Lin {
    fn konst(k: i128) -> Lin {
        Lin { t: vec![], k, lo: k, hi: k }
    }
    fn add(&self, o: &Lin, f: i128) -> O<Lin> {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else {
                let c = o.t[j].1.checked_mul(f)?;
                if i < self.t.len() && self.t[i].0 == o.t[j].0 {
                    let s = self.t[i].1.checked_add(c)?;
                    if s != 0 {
                        t.push((o.t[j].0, s));
                    }
                    i += 1;
                } else if c != 0 {
                    t.push((o.t[j].0, c));
                }
                j += 1;
            }
        }
        let k = self.k.checked_add(o.k.checked_mul(f)?)?;
        Some(Lin { t, k, lo: 0, hi: 0 })
    }
    fn scale(&self, f: i128) -> O<Lin> {
        Lin::konst(0).add(self, f)
    }
}

impl<'a> Lia<'a> {
    pub fn new(p: &'a Pool, dom: &'a FxMap<u32, [u64; 4]>) -> Self {
        Lia {
            p,
            dom,
            atoms: vec![],
            vars: Default::default(),
            side: vec![],
            defs: vec![],
            mods: Default::default(),
            vals: Default::default(),
            bools: Default::default(),
            divs: Default::default(),
            chain: Default::default(),
            quots: Default::default(),
            heads: Default::default(),
            approx: false,
            fuel: 40_000,
        }
    }

    fn atom(&mut self, lo: i128, hi: i128) -> Lin {
        self.atoms.push((lo, hi));
        Lin { t: vec![(self.atoms.len() as u32 - 1, 1)], k: 0, lo, hi }
    }

    fn bound(&self, mut l: Lin) -> O<Lin> {
        let (mut lo, mut hi) = (l.k, l.k);
        for (a, c) in &l.t {
            let (x, y) = self.atoms[*a as usize];
            let (x, y) = (x.checked_mul(*c)?, y.checked_mul(*c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        if let Some((x, y)) = self.chained(&l) {
            lo = lo.max(x);
            hi = hi.min(y);
        }
        l.lo = lo;
        l.hi = hi;
        Some(l)
    }

    /// Bounds by the quotients of one head: x/a - m * (x/(m*a)) is in 0..m.
    fn chained(&self, l: &Lin) -> O<(i128, i128)> {
        let mut g: Vec<(u32, i128, u32, i128)> = vec![];
        let (mut lo, mut hi) = (l.k, l.k);
        let mut put = |c: i128, x: i128, y: i128| {
            let (x, y) = (x.checked_mul(c)?, y.checked_mul(c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
            Some(())
        };
        for (a, c) in &l.t {
            match self.chain.get(a) {
                Some((h, k)) => g.push((*h, *k, *a, *c)),
                None => {
                    let (x, y) = self.atoms[*a as usize];
                    put(*c, x, y)?;
                }
            }
        }
        if g.len() < 2 {
            return None;
        }
        g.sort_unstable();
        for i in 0..g.len() {
            let (h, k, a, c) = g[i];
            match g.get(i + 1) {
                Some(n) if n.0 == h && n.1 % k == 0 => {
                    let m = n.1 / k;
                    let s = n.3.checked_add(c.checked_mul(m)?)?;
                    put(c, 0, m - 1)?;
                    g[i + 1].3 = s;
                }
                _ => {
                    let (x, y) = self.atoms[a as usize];
                    put(c, x, y)?;
                }
            }
        }
        Some((lo, hi))
    }

    /// the atom of a sum, as a quotient of its head
    fn head(&mut self, l: &Lin) -> O<(u32, u32, i128)> {
        let a = if l.k == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
            l.t[0].0
        } else {
            let key = (l.t.clone(), l.k);
            match self.heads.get(&key) {
                Some(a) => *a,
                None => {
                    let a = self.atom(l.lo, l.hi);
                    let d = l.add(&a, -1)?;
                    self.side.push(F::Eq(d.t, d.k));
                    self.heads.insert(key, a.t[0].0);
                    a.t[0].0
                }
            }
        };
        if !self.chain.contains_key(&a) {
            self.chain.insert(a, (a, 1));
            self.quots.insert(a, vec![(1, a)]);
        }
        let (h, k) = self.chain[&a];
        Some((a, h, k))
    }

    /// l = k * q + r, 0 <= r < k
    fn divmod(&mut self, l: &Lin, k: i128) -> O<(Lin, Lin)> {
        if k <= 0 {
            return None;
        }
        let l = self.bound(l.clone())?;
        if k == 1 {
            return Some((l, Lin::konst(0)));
        }
        let q = l.lo.div_euclid(k);
        if q == l.hi.div_euclid(k) {
            let mut r = l;
            r.k -= q.checked_mul(k)?;
            return Some((Lin::konst(q), self.bound(r)?));
        }
        // what is a multiple of k
        let mut m = Lin::konst(l.k.div_euclid(k));
        let mut y = Lin::konst(l.k.rem_euclid(k));
        for (a, c) in &l.t {
            if c % k == 0 {
                m.t.push((*a, c / k));
            } else {
                y.t.push((*a, *c));
            }
        }
        let m = self.bound(m)?;
        let y = self.bound(y)?;
        let yq = y.lo.div_euclid(k);
        let (q, r) = if yq == y.hi.div_euclid(k) {
            let mut r = y;
            r.k -= yq.checked_mul(k)?;
            (Lin::konst(yq), self.bound(r)?)
        } else {
            let gcd = |mut a: i128, mut b: i128| {
                while b != 0 {
                    (a, b) = (b, a % b);
                }
                a.abs()
            };
            let g = y.t.iter().fold(k, |g, (_, c)| gcd(g, *c));
            if g > 1 {
                let z = Lin { t: y.t.iter().map(|(a, c)| (*a, c / g)).collect(), k: y.k.div_euclid(g), lo: 0, hi: 0 };
                let (q, r) = self.divmod(&z, k / g)?;
                let mut r = r.scale(g)?;
                r.k += y.k.rem_euclid(g);
                (q, self.bound(r)?)
            } else {
                let (a, h, ka) = self.head(&y)?;
                let kk = ka.checked_mul(k)?;
                let old = self.quots[&h].iter().find(|x| x.0 == kk).map(|x| x.1);
                let qa = match old {
                    Some(q) => q,
                    None => {
                        let (lo, hi) = self.atoms[a as usize];
                        let q = self.atom(lo.div_euclid(k), hi.div_euclid(k)).t[0].0;
                        let others = self.quots[&h].clone();
                        for (ko, o) in others {
                            let (big, small, m) = if kk % ko == 0 {
                                (q, o, kk / ko)
                            } else if ko % kk == 0 {
                                (o, q, ko / kk)
                            } else {
                                continue;
                            };
                            // 0 <= small - m * big < m
                            let d = Lin { t: vec![(small, 1)], k: 0, lo: 0, hi: 0 }.add(&Lin { t: vec![(big, 1)], k: 0, lo: 0, hi: 0 }, -m)?;
                            let n = d.scale(-1)?;
                            self.side.push(F::Le(n.t, n.k));
                            self.side.push(F::Le(d.t, d.k - (m - 1)));
                        }
                        self.chain.insert(q, (h, kk));
                        self.quots.get_mut(&h)?.push((kk, q));
                        q
                    }
                };
                let q = self.bound(Lin { t: vec![(qa, 1)], k: 0, lo: 0, hi: 0 })?;
                let a = Lin { t: vec![(a, 1)], k: 0, lo: 0, hi: 0 };
                let r = self.bound(a.add(&q, -k)?)?;
                (q, r)
            }
        };
        let q = m.add(&q, 1)?;
        Some((self.bound(q)?, r))
    }

    /// coefficients reduced to the signed range modulo 2^w
    fn norm(&self, l: &Lin, w: u32) -> O<Lin> {
        let m = match p2(w) {
            Some(m) => m,
            None => return self.bound(l.clone()),
        };
        let r = |c: i128| {
            let c = c.rem_euclid(m);
            if c > m / 2 {
                c - m
            } else {
                c
            }
        };
        let t: Vec<(u32, i128)> = l.t.iter().map(|(a, c)| (*a, r(*c))).filter(|x| x.1 != 0).collect();
        self.bound(Lin { t, k: r(l.k), lo: 0, hi: 0 })
    }

    /// the integer in [base, base + 2^w) congruent to l
    fn reduce(&mut self, l: &Lin, w: u32, base: i128) -> O<Lin> {
        let l = self.bound(l.clone())?;
        let m = match p2(w) {
            Some(m) => m,
            None => {
                return if l.lo >= 0 && base == 0 { Some(l) } else { None };
            }
        };
        for l in [l.clone(), self.norm(&l, w)?] {
            let q = (l.lo - base).div_euclid(m);
            if (l.hi - base).div_euclid(m) == q {
                let mut r = l;
                r.k -= q * m;
                return self.bound(r);
            }
        }
        let a = self.norm(&l, w)?;
        let l = if a.hi.checked_sub(a.lo)? < l.hi.checked_sub(l.lo)? { a } else { l };
        let mut d = l;
        d.k -= base;
        let mut r = self.divmod(&d, m)?.1;
        r.k += base;
        self.bound(r)
    }

    /// exact unsigned value
    pub fn val(&mut self, e: E) -> O<Lin> {
        if let Some(l) = self.vals.get(&e) {
            return Some(l.clone());
        }
        let w = self.p.w(e);
        let m = self.modl(e)?;
        let r = self.reduce(&m, w, 0)?;
        self.vals.insert(e, r.clone());
        Some(r)
    }

    /// exact signed value
    fn sval(&mut self, e: E) -> O<Lin> {
        let w = self.p.w(e);
        let m = self.modl(e)?;
        self.reduce(&m, w, -(p2(w.checked_sub(1)?)?))
    }

    /// l = k * q + r, 0 <= r < k
    fn div(&mut self, e: E, l: Lin, k: i128, signed: bool) -> O<(Lin, Lin)> {
        if let Some(x) = self.divs.get(&(e, k, signed)) {
            return Some(x.clone());
        }
        let x = self.divmod(&l, k)?;
        self.divs.insert((e, k, signed), x.clone());
        Some(x)
    }

    fn tz(&self, e: E) -> u32 {
        let n = *self.p.n(e);
        match n.op {
            Op::Const => n.k.trailing_zeros().min(n.w as u32),
            Op::Shl => self.p.cv(n.b).map_or(0, |k| (k as u32).min(n.w as u32)),
            Op::Mul => self.p.cv(n.b).map_or(0, |k| k.trailing_zeros().min(n.w as u32)),
            Op::ZExt | Op::SExt => self.tz(n.a),
            Op::Concat if self.p.cv(n.b) == Some(0) => self.p.w(n.b) + self.tz(n.a),
            _ => 0,
        }
    }

    /// an integer congruent to e modulo 2^w
    fn modl(&mut self, e: E) -> O<Lin> {
        if let Some(l) = self.mods.get(&e) {
            return Some(l.clone());
        }
        self.fuel = self.fuel.checked_sub(1)?;
        let n = *self.p.n(e);
        let w = n.w as u32;
        let full = if w < 127 { (1i128 << w) - 1 } else { i128::MAX };
        let ck = |s: &Self, e: E| s.p.cv(e).and_then(|k| i128::try_from(k).ok());
        let r = match n.op {
            Op::Const => Lin::konst(i128::try_from(n.k).ok()?),
            Op::Var => {
                let (mut lo, mut hi) = (0, 255);
                if let Some(d) = self.dom.get(&(n.k as u32)) {
                    let b = |i: &i128| d[*i as usize / 64] >> (*i as usize % 64) & 1 == 1;
                    lo = (0..256i128).find(b).unwrap_or(0);
                    hi = (0..256i128).rev().find(b).unwrap_or(255);
                }
                let a = self.atom(lo, hi);
                self.vars.insert(n.k as u32, a.t[0].0);
                a
            }
            _ if w == 1 => {
                let f = self.boolean(e)?;
                match self.defs_lit(&f) {
                    Some(b) => Lin::konst(b as i128),
                    None => {
                        let a = self.atom(0, 1);
                        // a = 1 iff f
                        self.side.push(F::Iff(Box::new(F::Eq(a.t.clone(), -1)), Box::new(f)));
                        a
                    }
                }
            }
            Op::Add => {
                let (a, b) = (self.modl(n.a)?, self.modl(n.b)?);
                let b = if self.p.cv(n.b).is_some() { self.norm(&b, w)? } else { b };
                let s = a.add(&b, 1)?;
                self.bound(s)?
            }
            Op::Mul => {
                let (k, x) = match (ck(self, n.b), ck(self, n.a)) {
                    (Some(k), _) => (k, n.a),
                    (_, Some(k)) => (k, n.b),
                    _ => {
                        // a choice of constants
                        for (i, x) in [(n.a, n.b), (n.b, n.a)] {
                            let ni = *self.p.n(i);
                            if ni.op != Op::Ite {
                                continue;
                            }
                            if let (Some(k), Some(l)) = (ck(self, ni.b), ck(self, ni.c)) {
                                let c = self.boolean(ni.a)?;
                                let m = p2(w)?;
                                let signed = |k: i128| if k > m / 2 { k - m } else { k };
                                let x = self.val(x)?;
                                let a = x.scale(signed(k)).and_then(|l| self.bound(l))?;
                                let b = x.scale(signed(l)).and_then(|l| self.bound(l))?;
                                let v = self.choice(c, a, b)?;
                                self.mods.insert(e, v.clone());
                                return Some(v);
                            }
                        }
                        return self.opaque(e);
                    }
                };
                let k = match p2(w) {
                    Some(m) if k > m / 2 => k - m,
                    _ => k,
                };
                let a = self.modl(x)?;
                let s = a.scale(k)?;
                match self.bound(s) {
                    Some(s) => s,
                    None => {
                        let a = self.val(x)?;
                        let s = a.scale(k)?;
                        self.bound(s)?
                    }
                }
            }
            Op::ZExt => self.val(n.a)?,
            Op::SExt => self.sval(n.a)?,
            Op::Extract if n.k == 0 => self.modl(n.a)?,
            Op::Extract => {
                let a = self.val(n.a)?;
                self.div(n.a, a, p2(n.k as u32)?, false)?.0
            }
            Op::Concat => {
                let (a, b) = (self.modl(n.a)?, self.val(n.b)?);
                let s = b.add(&a, p2(self.p.w(n.b))?)?;
                self.bound(s)?
            }
            Op::UDiv | Op::URem => match ck(self, n.b) {
                Some(k) if k > 0 => {
                    let a = self.val(n.a)?;
                    let (q, r) = self.div(n.a, a, k, false)?;
                    if n.op == Op::UDiv {
                        q
                    } else {
                        r
                    }
                }
                _ => return self.opaque(e),
            },
            Op::SDiv | Op::SRem => match ck(self, n.b) {
                Some(k) if k > 0 && k <= full / 2 => {
                    let a = self.sval(n.a)?;
                    if a.lo >= 0 {
                        let (q, r) = self.div(n.a, a, k, true)?;
                        if n.op == Op::SDiv {
                            q
                        } else {
                            r
                        }
                    } else {
                        // towards zero
                        let (q0, r0) = match self.divs.get(&(n.a, -k, true)) {
                            Some(x) => x.clone(),
                            None => {
                                let q = self.atom(a.lo / k, a.hi / k);
                                let r = self.atom(if a.lo < 0 { 1 - k } else { 0 }, if a.hi > 0 { k - 1 } else { 0 });
                                let d = a.add(&q, -k)?.add(&r, -1)?;
                                self.side.push(F::Eq(d.t, d.k));
                                // a >= 0 or r <= 0; a <= 0 or r >= 0
                                let na = a.scale(-1)?;
                                let nr = r.scale(-1)?;
                                self.side.push(F::Or(vec![F::Le(na.t, na.k), F::Le(r.t.clone(), r.k)]));
                                self.side.push(F::Or(vec![F::Le(a.t, a.k), F::Le(nr.t, nr.k)]));
                                self.divs.insert((n.a, -k, true), (q.clone(), r.clone()));
                                (q, r)
                            }
                        };
                        if n.op == Op::SDiv {
                            q0
                        } else {
                            r0
                        }
                    }
                }
                _ => return self.opaque(e),
            },
            Op::LShr => match ck(self, n.b) {
                Some(k) if k < 126 => {
                    let a = self.val(n.a)?;
                    self.div(n.a, a, 1 << k, false)?.0
                }
                _ => return self.opaque(e),
            },
            Op::AShr => match ck(self, n.b) {
                Some(k) if k < 126 => {
                    let a = self.sval(n.a)?;
                    self.div(n.a, a, 1 << k, true)?.0
                }
                _ => return self.opaque(e),
            },
            Op::Shl => match ck(self, n.b) {
                Some(k) if k < 126 => {
                    let a = self.modl(n.a)?;
                    let s = a.scale(1 << k)?;
                    self.bound(s)?
                }
                _ => return self.opaque(e),
            },
            Op::And => match self.p.cv(n.b).or(self.p.cv(n.a)) {
                Some(k) => {
                    let x = if self.p.cv(n.b).is_some() { n.a } else { n.b };
                    if k != 0 && k & (k + 1) == 0 && k < 1 << 120 {
                        let a = self.val(x)?;
                        self.div(x, a, k as i128 + 1, false)?.1
                    } else {
                        let inv = !k & mask(w);
                        if inv & (inv + 1) == 0 && inv < 1 << 120 {
                            let a = self.val(x)?;
                            let r = self.div(x, a.clone(), inv as i128 + 1, false)?.1;
                            let s = a.add(&r, -1)?;
                            self.bound(s)?
                        } else {
                            return self.opaque(e);
                        }
                    }
                }
                None => return self.opaque(e),
            },
            Op::Or | Op::Xor => {
                if n.op == Op::Xor && self.p.cv(n.b) == Some(mask(w)) {
                    let a = self.modl(n.a)?;
                    let s = Lin::konst(-1).add(&a, -1)?;
                    self.bound(s)?
                } else if n.op == Op::Xor && self.p.cv(n.b) == Some(1 << (w - 1)) && w < 127 {
                    let a = self.modl(n.a)?;
                    let s = a.add(&Lin::konst(1 << (w - 1)), 1)?;
                    self.bound(s)?
                } else {
                    let (a, b) = (self.val(n.a)?, self.val(n.b)?);
                    let (ta, tb) = (self.tz(n.a).min(126), self.tz(n.b).min(126));
                    if b.hi < 1 << ta || a.hi < 1 << tb {
                        let s = a.add(&b, 1)?;
                        self.bound(s)?
                    } else {
                        return self.opaque(e);
                    }
                }
            }
            Op::Ite => {
                let c = self.boolean(n.a)?;
                match self.defs_lit(&c) {
                    Some(true) => self.modl(n.b)?,
                    Some(false) => self.modl(n.c)?,
                    None => {
                        let (a, b) = (self.val(n.b)?, self.val(n.c)?);
                        self.choice(c, a, b)?
                    }
                }
            }
            _ => return self.opaque(e),
        };
        self.mods.insert(e, r.clone());
        Some(r)
    }

    fn choice(&mut self, c: F, a: Lin, b: Lin) -> O<Lin> {
        match self.defs_lit(&c) {
            Some(true) => return Some(a),
            Some(false) => return Some(b),
            None => {}
        }
        let v = self.atom(a.lo.min(b.lo), a.hi.max(b.hi));
        let da = v.add(&a, -1)?;
        let db = v.add(&b, -1)?;
        self.side.push(F::Or(vec![F::Not(Box::new(c.clone())), F::Eq(da.t, da.k)]));
        self.side.push(F::Or(vec![c, F::Eq(db.t, db.k)]));
        Some(v)
    }

    fn opaque(&mut self, e: E) -> O<Lin> {
        self.approx = true;
        let m = p2(self.p.w(e))?;
        let a = self.atom(0, m - 1);
        self.mods.insert(e, a.clone());
        Some(a)
    }

    fn defs_lit(&self, f: &F) -> O<bool> {
        match f {
            F::Lit(b) => Some(*b),
            F::Ref(i) => self.defs_lit(&self.defs[*i as usize]),
            _ => None,
        }
    }

    fn le(&self, l: Lin) -> O<F> {
        // l <= 0
        let l = self.bound(l)?;
        Some(if l.hi <= 0 {
            F::Lit(true)
        } else if l.lo > 0 {
            F::Lit(false)
        } else {
            F::Le(l.t, l.k)
        })
    }

    pub fn boolean(&mut self, e: E) -> O<F> {
        if let Some(i) = self.bools.get(&e) {
            return Some(F::Ref(*i));
        }
        self.fuel = self.fuel.checked_sub(1)?;
        let n = *self.p.n(e);
        let f = match n.op {
            Op::Const => F::Lit(n.k == 1),
            Op::And => F::And(vec![self.boolean(n.a)?, self.boolean(n.b)?]),
            Op::Or => F::Or(vec![self.boolean(n.a)?, self.boolean(n.b)?]),
            Op::Xor => {
                let (a, b) = (self.boolean(n.a)?, self.boolean(n.b)?);
                F::Not(Box::new(F::Iff(Box::new(a), Box::new(b))))
            }
            Op::Eq if self.p.w(n.a) == 1 => {
                let (a, b) = (self.boolean(n.a)?, self.boolean(n.b)?);
                F::Iff(Box::new(a), Box::new(b))
            }
            Op::Eq => {
                let w = self.p.w(n.a);
                let (a, b) = (self.modl(n.a)?, self.modl(n.b)?);
                let d = a.add(&b, -1).and_then(|d| self.norm(&d, w));
                match (d, p2(w)) {
                    (Some(d), Some(m)) if d.t.is_empty() => F::Lit(d.k.rem_euclid(m) == 0),
                    (Some(d), Some(m)) if d.lo > -m && d.hi < m => {
                        if d.lo > 0 || d.hi < 0 {
                            F::Lit(false)
                        } else {
                            F::Eq(d.t, d.k)
                        }
                    }
                    _ => {
                        let (a, b) = (self.val(n.a)?, self.val(n.b)?);
                        let d = a.add(&b, -1)?;
                        let d = self.bound(d)?;
                        if d.lo > 0 || d.hi < 0 {
                            F::Lit(false)
                        } else if d.t.is_empty() {
                            F::Lit(d.k == 0)
                        } else {
                            F::Eq(d.t, d.k)
                        }
                    }
                }
            }
            Op::Ult | Op::Slt => {
                let (a, b) = if n.op == Op::Ult { (self.val(n.a)?, self.val(n.b)?) } else { (self.sval(n.a)?, self.sval(n.b)?) };
                let mut d = a.add(&b, -1)?;
                d.k += 1;
                self.le(d)?
            }
            Op::Ite => {
                let (c, a, b) = (self.boolean(n.a)?, self.boolean(n.b)?, self.boolean(n.c)?);
                F::And(vec![
                    F::Or(vec![F::Not(Box::new(c.clone())), a]),
                    F::Or(vec![c, b]),
                ])
            }
            Op::Extract => {
                let a = self.val(n.a)?;
                let a = if n.k > 0 { self.div(n.a, a, p2(n.k as u32)?, false)?.0 } else { a };
                let m = self.reduce(&a, 1, 0)?;
                F::Eq(m.t, m.k - 1)
            }
            _ => {
                let a = self.opaque(e)?;
                F::Eq(a.t, a.k - 1)
            }
        };
        let f = if matches!(f, F::Lit(_)) {
            f
        } else {
            self.defs.push(f);
            F::Ref(self.defs.len() as u32 - 1)
        };
        if let F::Ref(i) = f {
            self.bools.insert(e, i);
        }
        Some(f)
    }
}

/// Whether the expressions multiply or divide by something that is no power of two.
pub fn arithmetic(p: &Pool, cs: &[E], seen: &mut FxMap<E, ()>) -> bool {
    let mut stack = cs.to_vec();
    while let Some(e) = stack.pop() {
        if seen.insert(e, ()).is_some() {
            continue;
        }
        let n = p.n(e);
        match n.op {
            Op::Const | Op::Var => {}
            Op::ZExt | Op::SExt | Op::Extract => stack.push(n.a),
            Op::Uf => return false,
            Op::Ite => stack.extend([n.a, n.b, n.c]),
            _ => {
                if matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && n.w > 8 {
                    match p.cv(n.b) {
                        Some(k) if !k.is_power_of_two() && k != mask(n.w as u32) => return true,
                        _ => {}
                    }
                }
                stack.extend([n.a, n.b]);
            }
        }
    }
    false
}
