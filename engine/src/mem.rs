//! Object memory with per-byte symbolic contents and copy-on-write pages.
use crate::expr::E;
use std::rc::Rc;

pub const PS: usize = 4096;

#[derive(Clone)]
pub struct Page {
    pub b: Box<[u8]>,
    pub s: Option<Box<[E]>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub pages: Vec<Rc<Page>>,
    pub constant: bool,
    pub stack: bool,
}

thread_local! {
    static FILL: [Rc<Page>; 2] = [
        Rc::new(Page { b: vec![0u8; PS].into_boxed_slice(), s: None }),
        Rc::new(Page { b: vec![0xAAu8; PS].into_boxed_slice(), s: None }),
    ];
}

impl Obj {
    pub fn new(size: u64, fill: u8, stack: bool) -> Obj {
        let n = size as usize;
        let mut pages = Vec::with_capacity(n / PS + 1);
        let full = n / PS;
        if full > 0 {
            let pg = FILL.with(|f| match fill {
                0 => f[0].clone(),
                0xAA => f[1].clone(),
                x => Rc::new(Page { b: vec![x; PS].into_boxed_slice(), s: None }),
            });
            for _ in 0..full {
                pages.push(pg.clone());
            }
        }
        if n % PS != 0 {
            pages.push(Rc::new(Page { b: vec![fill; n % PS].into_boxed_slice(), s: None }));
        }
        Obj { size, pages, constant: false, stack }
    }
    pub fn from_bytes(b: Vec<u8>, constant: bool) -> Obj {
        let mut pages = vec![];
        let size = b.len() as u64;
        for c in b.chunks(PS) {
            pages.push(Rc::new(Page { b: c.to_vec().into_boxed_slice(), s: None }));
        }
        Obj { size, pages, constant, stack: false }
    }
    #[inline]
    pub fn byte(&self, off: usize) -> (u8, E) {
        let p = &self.pages[off / PS];
        let o = off % PS;
        (p.b[o], p.s.as_ref().map_or(0, |s| s[o]))
    }
    /// little-endian concrete read, None if any byte is symbolic
    #[inline]
    pub fn read_c(&self, off: usize, n: usize) -> Option<u64> {
        let (pi, o) = (off / PS, off % PS);
        if o + n <= self.pages[pi].b.len() {
            let p = &self.pages[pi];
            if let Some(s) = &p.s {
                if s[o..o + n].iter().any(|&x| x != 0) {
                    return None;
                }
            }
            let mut buf = [0u8; 8];
            buf[..n].copy_from_slice(&p.b[o..o + n]);
            Some(u64::from_le_bytes(buf))
        } else {
            let mut v = 0u64;
            for i in 0..n {
                let (b, s) = self.byte(off + i);
                if s != 0 {
                    return None;
                }
                v |= (b as u64) << (8 * i);
            }
            Some(v)
        }
    }
    #[inline]
    pub fn write_c(&mut self, off: usize, n: usize, v: u64) {
        let (pi, o) = (off / PS, off % PS);
        let bytes = v.to_le_bytes();
        if o + n <= self.pages[pi].b.len() {
            let p = Rc::make_mut(&mut self.pages[pi]);
            p.b[o..o + n].copy_from_slice(&bytes[..n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
        } else {
            for i in 0..n {
                self.set(off + i, bytes[i], 0);
            }
        }
    }
    #[inline]
    pub fn set(&mut self, off: usize, b: u8, e: E) {
        let p = Rc::make_mut(&mut self.pages[off / PS]);
        let o = off % PS;
        p.b[o] = b;
        if e != 0 {
            let n = p.b.len();
            p.s.get_or_insert_with(|| vec![0; n].into_boxed_slice())[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
    }
    pub fn slice(&self, off: usize, n: usize) -> (Vec<u8>, Option<Vec<E>>) {
        let mut b = Vec::with_capacity(n);
        let mut s: Option<Vec<E>> = None;
        let mut i = 0;
        while i < n {
            let (pi, o) = ((off + i) / PS, (off + i) % PS);
            let p = &self.pages[pi];
            let k = (p.b.len() - o).min(n - i);
            b.extend_from_slice(&p.b[o..o + k]);
            if let Some(ps) = &p.s {
                if ps[o..o + k].iter().any(|&x| x != 0) {
                    let v = s.get_or_insert_with(|| vec![0; n]);
                    v[i..i + k].copy_from_slice(&ps[o..o + k]);
                }
            }
            i += k;
        }
        (b, s)
    }
    pub fn put(&mut self, off: usize, b: &[u8], s: Option<&[E]>) {
        let n = b.len();
        let mut i = 0;
        while i < n {
            let (pi, o) = ((off + i) / PS, (off + i) % PS);
            let pl = self.pages[pi].b.len();
            let k = (pl - o).min(n - i);
            let has = s.map_or(false, |s| s[i..i + k].iter().any(|&x| x != 0));
            let p = Rc::make_mut(&mut self.pages[pi]);
            p.b[o..o + k].copy_from_slice(&b[i..i + k]);
            if has {
                let ps = p.s.get_or_insert_with(|| vec![0; pl].into_boxed_slice());
                ps[o..o + k].copy_from_slice(&s.unwrap()[i..i + k]);
            } else if let Some(ps) = &mut p.s {
                ps[o..o + k].fill(0);
            }
            i += k;
        }
    }
    /// page-aligned copy sharing pages
    pub fn put_pages(&mut self, off: usize, src: &Obj, soff: usize, n: usize) -> bool {
        if off % PS != soff % PS || n < 4 * PS {
            return false;
        }
        let mut i = 0;
        while i < n {
            let o = (off + i) % PS;
            let k = (PS - o).min(n - i);
            if o == 0
                && k == PS
                && src.pages[(soff + i) / PS].b.len() == PS
                && self.pages[(off + i) / PS].b.len() == PS
            {
                self.pages[(off + i) / PS] = src.pages[(soff + i) / PS].clone();
            } else {
                let (b, s) = src.slice(soff + i, k);
                self.put(off + i, &b, s.as_deref());
            }
            i += k;
        }
        true
    }
    pub fn fill(&mut self, off: usize, n: usize, v: u8, e: E) {
        let mut i = 0;
        while i < n {
            let (pi, o) = ((off + i) / PS, (off + i) % PS);
            let pl = self.pages[pi].b.len();
            let k = (pl - o).min(n - i);
            if o == 0 && k == PS && e == 0 && v == 0 {
                self.pages[pi] = FILL.with(|f| f[0].clone());
            } else {
                let p = Rc::make_mut(&mut self.pages[pi]);
                p.b[o..o + k].fill(v);
                if e != 0 {
                    p.s.get_or_insert_with(|| vec![0; pl].into_boxed_slice())[o..o + k].fill(e);
                } else if let Some(s) = &mut p.s {
                    s[o..o + k].fill(0);
                }
            }
            i += k;
        }
    }
}
