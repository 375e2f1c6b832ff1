//! Hash-consed symbolic terms (fixed-width bit-vectors, width 1 = booleans).
use crate::fx::Map as HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, // only for widths > 64
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
}

pub type LinVec = Rc<[(i64, T)]>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    /// k + sum c_i * x_i modulo 2^w (w <= 64)
    Lin(i64, u32), // k, index into linvecs
    Bin(B, T, T),
    Ite(T, T, T),
    Concat(T, T), // high, low
    Extract(T, u8),
    Zext(T),
    Sext(T),
    /// integer sum + k <= 0, atoms taken as unsigned integers
    Le0(i128, u32),
    /// integer sum + k == 0
    Eq0(i128, u32),
    Not(T),
}

#[derive(Clone, Copy)]
pub struct Meta {
    pub w: u8,
    pub lo: u128,
    pub hi: u128,
}

pub struct VarInfo {
    pub lo: u64,
    pub hi: u64,
    pub w: u8,
}

pub struct Arena {
    pub nodes: Vec<N>,
    pub meta: Vec<Meta>,
    idx: HashMap<(N, u8), T>,
    pub linvecs: Vec<LinVec>,
    lin_idx: HashMap<LinVec, u32>,
    pub neg_lin: Vec<u32>, // linvec index of the negation (u32::MAX = not yet)
    pub vars: Vec<VarInfo>,
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn wrap_i64(v: i128, w: u8) -> i64 {
    // canonical signed representative modulo 2^w
    sx((v as u128) & mask(w), w) as i64
}

pub fn gcd(a: u128, b: u128) -> u128 {
    let (mut a, mut b) = (a, b);
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            meta: vec![],
            idx: HashMap::default(),
            linvecs: vec![],
            lin_idx: HashMap::default(),
            neg_lin: vec![],
            vars: vec![],
        };
        // T(0) = false, T(1) = true
        a.cst(0, 1);
        a.cst(1, 1);
        a
    }

    fn mk(&mut self, n: N, w: u8, lo: u128, hi: u128) -> T {
        let key = (n, w);
        if let Some(&t) = self.idx.get(&key) {
            return t;
        }
        let t = T(self.nodes.len() as u32);
        self.nodes.push(key.0.clone());
        self.meta.push(Meta { w, lo, hi });
        self.idx.insert(key, t);
        t
    }

    #[inline]
    pub fn w(&self, t: T) -> u8 {
        self.meta[t.0 as usize].w
    }
    #[inline]
    pub fn n(&self, t: T) -> &N {
        &self.nodes[t.0 as usize]
    }
    #[inline]
    pub fn rng(&self, t: T) -> (u128, u128) {
        let m = &self.meta[t.0 as usize];
        (m.lo, m.hi)
    }
    #[inline]
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.n(t) {
            N::Const(c) => Some(*c),
            _ => None,
        }
    }
    pub fn cst(&mut self, v: u128, w: u8) -> T {
        let v = v & mask(w);
        self.mk(N::Const(v), w, v, v)
    }
    pub fn tru(&self) -> T {
        T(1)
    }
    pub fn fls(&self) -> T {
        T(0)
    }
    pub fn boolc(&self, b: bool) -> T {
        if b {
            T(1)
        } else {
            T(0)
        }
    }
    /// A fresh variable of width w ranging over [lo, hi].
    pub fn fresh(&mut self, w: u8, lo: u64, hi: u64) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { lo, hi, w });
        self.mk(N::Var(id), w, lo as u128, hi as u128)
    }

    fn linvec(&mut self, v: Vec<(i64, T)>) -> u32 {
        let rc: LinVec = v.into();
        if let Some(&i) = self.lin_idx.get(&rc) {
            return i;
        }
        let i = self.linvecs.len() as u32;
        self.linvecs.push(rc.clone());
        self.neg_lin.push(u32::MAX);
        self.lin_idx.insert(rc, i);
        i
    }

    pub fn neg_linvec(&mut self, i: u32) -> u32 {
        if self.neg_lin[i as usize] != u32::MAX {
            return self.neg_lin[i as usize];
        }
        let v: Vec<_> = self.linvecs[i as usize].iter().map(|&(c, t)| (-c, t)).collect();
        let j = self.linvec(v);
        self.neg_lin[i as usize] = j;
        self.neg_lin[j as usize] = i;
        j
    }

    /// min and max of the integer value of sum of the linvec
    pub fn lin_bounds(&self, i: u32) -> (i128, i128) {
        let (mut lo, mut hi) = (0i128, 0i128);
        for &(c, t) in self.linvecs[i as usize].iter() {
            let (a, b) = self.rng(t);
            let (a, b) = (a as i128, b as i128);
            let c = c as i128;
            if c >= 0 {
                lo = lo.saturating_add(c.saturating_mul(a));
                hi = hi.saturating_add(c.saturating_mul(b));
            } else {
                lo = lo.saturating_add(c.saturating_mul(b));
                hi = hi.saturating_add(c.saturating_mul(a));
            }
        }
        (lo, hi)
    }

    /// k + terms, modular view of any term of width <= 64
    fn as_lin(&self, t: T, out: &mut Vec<(i64, T)>, coef: i64, k: &mut i128) {
        let w = self.w(t);
        match self.n(t) {
            N::Const(c) => *k = k.wrapping_add((coef as i128).wrapping_mul(sx(*c, w))),
            N::Lin(kk, v) => {
                *k = k.wrapping_add((coef as i128).wrapping_mul(*kk as i128));
                for &(c, x) in self.linvecs[*v as usize].iter() {
                    out.push((wrap_i64((coef as i128).wrapping_mul(c as i128), w), x));
                }
            }
            _ => out.push((coef, t)),
        }
    }

    fn norm(v: &mut Vec<(i64, T)>, w: u8) {
        v.sort_by_key(|x| x.1);
        let mut o: Vec<(i64, T)> = Vec::with_capacity(v.len());
        for &(c, t) in v.iter() {
            match o.last_mut() {
                Some(l) if l.1 == t => l.0 = wrap_i64(l.0 as i128 + c as i128, w),
                _ => o.push((wrap_i64(c as i128, w), t)),
            }
        }
        o.retain(|x| x.0 != 0);
        *v = o;
    }

    fn mk_lin(&mut self, mut v: Vec<(i64, T)>, k: i128, w: u8) -> T {
        Self::norm(&mut v, w);
        let k = wrap_i64(k, w);
        if v.is_empty() {
            return self.cst(k as i128 as u128, w);
        }
        if k == 0 && v.len() == 1 && v[0].0 == 1 {
            return v[0].1;
        }
        if v.len() == 1 && v[0].0 == 1 {
            // adding within the constant low part of a concatenation
            let x = v[0].1;
            let c = match *self.n(x) {
                N::Concat(h, l) => Some((h, l)),
                N::Zext(y) => match *self.n(y) {
                    N::Concat(h, l) => Some((h, l)),
                    _ => None,
                },
                _ => None,
            };
            if let Some((h, l)) = c {
                let lw = self.w(l);
                if let Some(lc) = self.as_const(l) {
                    if lw < 120 {
                        let n = lc as i128 + k as i128;
                        if n >= 0 && n <= mask(lw) as i128 {
                            let nl = self.cst(n as u128, lw);
                            let r = self.concat(h, nl);
                            return self.zext(r, w);
                        }
                    }
                }
            }
        }
        if v.len() == 1 && v[0].0 == -1 && w > 8 && self.pieces(v[0].1) {
            // constant minus a concatenation, no borrow between the pieces
            let x = v[0].1;
            let lw = match *self.n(x) {
                N::Concat(_, l) => self.w(l),
                N::Zext(y) => match *self.n(y) {
                    N::Concat(_, l) => self.w(l),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            };
            let ku = k as i128 as u128 & mask(w);
            let l = self.extract(x, 0, lw);
            if ku & mask(lw) >= self.rng(l).1 && lw <= 64 {
                let h = self.extract(x, lw, w - lw);
                let (kh, kl) = (self.cst(ku >> lw, w - lw), self.cst(ku & mask(lw), lw));
                let h = self.sub(kh, h);
                let l = self.sub(kl, l);
                return self.concat(h, l);
            }
        }
        let lv = self.linvec(v);
        let (lo, hi) = self.lin_bounds(lv);
        let (mut lo, mut hi) = (lo.saturating_add(k as i128), hi.saturating_add(k as i128));
        // k is the signed representative; a large unsigned constant may fit after shifting by 2^w
        if hi < 0 && lo >= -(1i128 << w) {
            lo += 1i128 << w;
            hi += 1i128 << w;
        }
        let (lo, hi) = if lo >= 0 && hi <= mask(w) as i128 { (lo as u128, hi as u128) } else { (0, mask(w)) };
        self.mk(N::Lin(k, lv), w, lo, hi)
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.bin(B::Xor, a, b);
        }
        if w > 64 {
            return self.bin_raw(B::Add, a, b);
        }
        let mut v = vec![];
        let mut k = 0;
        self.as_lin(a, &mut v, 1, &mut k);
        self.as_lin(b, &mut v, 1, &mut k);
        self.mk_lin(v, k, w)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.bin(B::Xor, a, b);
        }
        if w > 64 {
            return self.bin_raw(B::Sub, a, b);
        }
        let mut v = vec![];
        let mut k = 0;
        self.as_lin(a, &mut v, 1, &mut k);
        self.as_lin(b, &mut v, -1, &mut k);
        self.mk_lin(v, k, w)
    }
    pub fn mulc(&mut self, a: T, c: u128) -> T {
        let w = self.w(a);
        if w > 64 {
            let cc = self.cst(c, w);
            return self.bin_raw(B::Mul, a, cc);
        }
        if w == 1 {
            return if c & 1 == 1 { a } else { self.fls() };
        }
        let mut v = vec![];
        let mut k = 0;
        self.as_lin(a, &mut v, wrap_i64(c as i128, w), &mut k);
        self.mk_lin(v, k, w)
    }

    pub fn eval_bin(op: B, a: u128, b: u128, w: u8) -> u128 {
        let m = mask(w);
        let r = match op {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            B::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            B::SDiv => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            B::SRem => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            B::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            B::AShr => {
                let s = if b >= w as u128 { (w - 1) as u32 } else { b as u32 };
                (sx(a, w) >> s) as u128
            }
            B::Eq => return (a == b) as u128,
            B::Ult => return (a < b) as u128,
            B::Slt => return (sx(a, w) < sx(b, w)) as u128,
        };
        r & m
    }

    fn bits_of(hi: u128) -> u8 {
        (128 - hi.leading_zeros()) as u8
    }

    fn bin_raw(&mut self, op: B, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = Self::eval_bin(op, x, y, w);
            let rw = if matches!(op, B::Eq | B::Ult | B::Slt) { 1 } else { w };
            return self.cst(r, rw);
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        let m = mask(w);
        let (rw, lo, hi) = match op {
            B::Eq | B::Ult | B::Slt => (1, 0, 1),
            B::And => (w, 0, ah.min(bh)),
            B::Or => (w, al.max(bl), mask(Self::bits_of(ah | bh))),
            B::Xor => (w, 0, mask(Self::bits_of(ah | bh))),
            B::LShr => match self.as_const(b) {
                Some(s) if s < w as u128 => (w, al >> s, ah >> s),
                _ => (w, 0, ah),
            },
            B::Shl => match self.as_const(b) {
                Some(s) if s < w as u128 && ah.leading_zeros() as u128 > s && (ah << s) <= m => (w, al << s, ah << s),
                _ => (w, 0, m),
            },
            B::UDiv => (w, 0, if bl > 0 { ah / bl } else { m }),
            B::URem => (w, 0, if bl > 0 { ah.min(bh - 1) } else { ah }),
            B::Mul => match ah.checked_mul(bh) {
                Some(h) if h <= m => (w, al * bl, h),
                _ => (w, 0, m),
            },
            B::Add => match ah.checked_add(bh) {
                Some(h) if h <= m => (w, al + bl, h),
                _ => (w, 0, m),
            },
            _ => (w, 0, m),
        };
        self.mk(N::Bin(op, a, b), rw, lo, hi)
    }

    pub fn bin(&mut self, op: B, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = Self::eval_bin(op, x, y, w);
            let rw = if matches!(op, B::Eq | B::Ult | B::Slt) { 1 } else { w };
            return self.cst(r, rw);
        }
        match op {
            B::Add => return self.add(a, b),
            B::Sub => return self.sub(a, b),
            B::Mul => {
                if let Some(c) = self.as_const(b) {
                    return self.mulc(a, c);
                }
                if let Some(c) = self.as_const(a) {
                    return self.mulc(b, c);
                }
            }
            B::And => return self.and(a, b),
            B::Or => return self.or(a, b),
            B::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
                if let Some(c) = self.as_const(b) {
                    if c == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if let N::Bin(B::Xor, x, y) = *self.n(a) {
                        if let Some(d) = self.as_const(y) {
                            let e = self.cst(c ^ d, w);
                            return self.bin(B::Xor, x, e);
                        }
                    }
                }
                if let Some(r) = self.piecewise(B::Xor, a, b) {
                    return r;
                }
                return self.bin_raw(B::Xor, a, b);
            }
            B::Shl => {
                if let Some(s) = self.as_const(b) {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.cst(0, w);
                    }
                    if self.pieces(a) {
                        let h = self.extract(a, 0, w - s as u8);
                        let z = self.cst(0, s as u8);
                        return self.concat(h, z);
                    }
                    let (_, ah) = self.rng(a);
                    if (ah >> (w as u128 - s).min(127)) == 0 && w <= 64 && w > 1 {
                        // no bits lost: linear
                        if self.is_linish(a) {
                            return self.mulc(a, 1u128 << s);
                        }
                    }
                    if let N::Bin(B::Shl, x, y) = *self.n(a) {
                        if let Some(d) = self.as_const(y) {
                            let e = self.cst(s + d, w);
                            return self.bin(B::Shl, x, e);
                        }
                    }
                }
                if self.as_const(a) == Some(0) {
                    return a;
                }
            }
            B::LShr => {
                if let Some(s) = self.as_const(b) {
                    if s == 0 {
                        return a;
                    }
                    let (_, ah) = self.rng(a);
                    if s >= w as u128 || (ah >> s) == 0 {
                        return self.cst(0, w);
                    }
                    match *self.n(a) {
                        N::Concat(h, l) => {
                            let lw = self.w(l);
                            if s >= lw as u128 {
                                let z = self.zext(h, w);
                                let e = self.cst(s - lw as u128, w);
                                return self.bin(B::LShr, z, e);
                            }
                            let e = self.extract(a, s as u8, w - s as u8);
                            return self.zext(e, w);
                        }
                        N::Zext(x) => {
                            let xw = self.w(x);
                            let e = self.cst(s, xw);
                            let y = self.bin(B::LShr, x, e);
                            return self.zext(y, w);
                        }
                        _ => {}
                    }
                }
                if self.as_const(a) == Some(0) {
                    return a;
                }
            }
            B::AShr => {
                if let Some(s) = self.as_const(b) {
                    if s == 0 {
                        return a;
                    }
                }
                let (_, ah) = self.rng(a);
                if ah <= mask(w) >> 1 {
                    return self.bin(B::LShr, a, b);
                }
            }
            B::UDiv => {
                if let Some(c) = self.as_const(b) {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                }
            }
            B::URem => {
                if let Some(c) = self.as_const(b) {
                    if c == 1 {
                        return self.cst(0, w);
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(c - 1, w);
                        return self.bin(B::And, a, s);
                    }
                    if self.rng(a).1 < c {
                        return a;
                    }
                }
            }
            B::Eq => return self.eq(a, b),
            B::Ult => return self.ult(a, b),
            B::Slt => return self.slt(a, b),
            _ => {}
        }
        self.bin_raw(op, a, b)
    }

    /// built from pieces of bits
    fn pieces(&self, a: T) -> bool {
        match *self.n(a) {
            N::Concat(..) => true,
            N::Zext(x) => matches!(self.n(x), N::Concat(..)),
            _ => false,
        }
    }
    fn splits(&self, a: T) -> bool {
        match *self.n(a) {
            N::Const(_) | N::Concat(..) | N::Zext(_) => true,
            _ => false,
        }
    }
    /// a bitwise operation where one side is a concatenation
    fn piecewise(&mut self, op: B, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        if w == 1 || !(self.splits(a) && self.splits(b)) {
            return None;
        }
        for (x, y) in [(a, b), (b, a)] {
            let lw = match *self.n(x) {
                N::Concat(_, l) => self.w(l),
                _ => continue,
            };
            let (xh, xl) = (self.extract(x, lw, w - lw), self.extract(x, 0, lw));
            let (yh, yl) = (self.extract(y, lw, w - lw), self.extract(y, 0, lw));
            let h = self.bin(op, xh, yh);
            let l = self.bin(op, xl, yl);
            return Some(self.concat(h, l));
        }
        for (x, y) in [(a, b), (b, a)] {
            let iw = match *self.n(x) {
                N::Zext(i) if self.pieces(x) => self.w(i),
                _ => continue,
            };
            let (xh, xl) = (self.extract(x, iw, w - iw), self.extract(x, 0, iw));
            let (yh, yl) = (self.extract(y, iw, w - iw), self.extract(y, 0, iw));
            let h = self.bin(op, xh, yh);
            let l = self.bin(op, xl, yl);
            return Some(self.concat(h, l));
        }
        None
    }

    fn is_linish(&self, a: T) -> bool {
        matches!(self.n(a), N::Var(_) | N::Lin(..) | N::Zext(_) | N::Bin(..) | N::Extract(..) | N::Ite(..))
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return b;
            }
            let (_, ah) = self.rng(a);
            let cover = mask(Self::bits_of(ah));
            if c & cover == cover {
                return a;
            }
            if c & cover == 0 {
                return self.cst(0, w);
            }
            if w > 1 {
                // low mask => zext(extract)
                if (c & cover).wrapping_add(1).is_power_of_two() {
                    let bits = Self::bits_of(c & cover);
                    let e = self.extract(a, 0, bits);
                    return self.zext(e, w);
                }
                if let N::Bin(B::And, x, y) = *self.n(a) {
                    if let Some(d) = self.as_const(y) {
                        let e = self.cst(c & d, w);
                        return self.and(x, e);
                    }
                }
            }
        } else if w == 1 {
            if self.not(a) == b {
                return self.fls();
            }
        }
        if let Some(r) = self.piecewise(B::And, a, b) {
            return r;
        }
        self.bin_raw(B::And, a, b)
    }

    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
        } else if w == 1 {
            if self.not(a) == b {
                return self.tru();
            }
        }
        if w > 1 {
            // disjoint low/high parts => concat
            for (x, y) in [(a, b), (b, a)] {
                // x occupies low bits, y = shl(_, s) with s >= bits(x)
                let xb = Self::bits_of(self.rng(x).1);
                let tz = self.tz(y);
                if tz >= xb && xb > 0 && xb < w {
                    let hi = self.extract(y, xb, w - xb);
                    let lo = self.extract(x, 0, xb);
                    return self.concat(hi, lo);
                }
            }
        }
        if let Some(r) = self.piecewise(B::Or, a, b) {
            return r;
        }
        self.bin_raw(B::Or, a, b)
    }

    /// a lower bound on the number of trailing zero bits
    fn tz(&self, t: T) -> u8 {
        let w = self.w(t);
        match self.n(t) {
            N::Const(c) => {
                if *c == 0 {
                    w
                } else {
                    c.trailing_zeros() as u8
                }
            }
            N::Bin(B::Shl, x, s) => match self.as_const(*s) {
                Some(s) => (self.tz(*x) as u128 + s).min(w as u128) as u8,
                None => 0,
            },
            N::Bin(B::And, x, y) => self.tz(*x).max(self.tz(*y)),
            N::Bin(B::Or, x, y) => self.tz(*x).min(self.tz(*y)),
            N::Lin(k, v) => {
                let mut m = if *k == 0 { w } else { (k.trailing_zeros() as u8).min(w) };
                for &(c, x) in self.linvecs[*v as usize].iter() {
                    m = m.min((c.trailing_zeros() as u8).saturating_add(self.tz(x)).min(w));
                }
                m
            }
            N::Concat(h, l) => {
                let lw = self.w(*l);
                let t = self.tz(*l);
                if t >= lw {
                    lw + self.tz(*h)
                } else {
                    t
                }
            }
            N::Zext(x) => {
                let t = self.tz(*x);
                if t >= self.w(*x) {
                    w
                } else {
                    t
                }
            }
            _ => 0,
        }
    }

    pub fn not(&mut self, a: T) -> T {
        debug_assert_eq!(self.w(a), 1);
        match self.n(a).clone() {
            N::Const(c) => self.boolc(c == 0),
            N::Not(x) => x,
            N::Le0(k, v) => {
                // sum + k > 0  <=>  -sum - k + 1 <= 0
                let nv = self.neg_linvec(v);
                self.le0_raw(-k + 1, nv)
            }
            _ => self.mk(N::Not(a), 1, 0, 1),
        }
    }

    fn le0_raw(&mut self, k: i128, v: u32) -> T {
        let (lo, hi) = self.lin_bounds(v);
        if hi.saturating_add(k) <= 0 {
            return self.tru();
        }
        if lo.saturating_add(k) > 0 {
            return self.fls();
        }
        self.mk(N::Le0(k, v), 1, 0, 1)
    }

    /// terms (integer atoms) + k <= 0, normalised
    pub fn le0(&mut self, mut v: Vec<(i64, T)>, k: i128) -> T {
        if !self.norm_int(&mut v) {
            panic!("integer coefficient overflow");
        }
        if v.is_empty() {
            return self.boolc(k <= 0);
        }
        let mut g = 0u128;
        for &(c, _) in &v {
            g = gcd(g, c.unsigned_abs() as u128);
        }
        let g = g as i128;
        let mut k = k;
        if g > 1 {
            for x in v.iter_mut() {
                x.0 = (x.0 as i128 / g) as i64;
            }
            // sum*g <= -k  => sum <= floor(-k/g)  => k' = -floor(-k/g) = ceil(k/g)
            k = -((-k).div_euclid(g));
        }
        let lv = self.linvec(v);
        self.le0_raw(k, lv)
    }

    /// the term whose integer value an atom stands for
    fn atom(&self, mut t: T) -> T {
        loop {
            match *self.n(t) {
                N::Zext(x) if self.w(x) > 1 && !matches!(self.n(x), N::Lin(..)) => t = x,
                N::Extract(x, 0) if self.rng(x).1 <= mask(self.w(t)) && matches!(self.n(x), N::Var(_)) => t = x,
                _ => return t,
            }
        }
    }
    fn norm_int(&self, v: &mut Vec<(i64, T)>) -> bool {
        for x in v.iter_mut() {
            x.1 = self.atom(x.1);
        }
        v.sort_by_key(|x| x.1);
        let mut o: Vec<(i64, T)> = Vec::with_capacity(v.len());
        for &(c, t) in v.iter() {
            match o.last_mut() {
                Some(l) if l.1 == t => match l.0.checked_add(c) {
                    Some(s) => l.0 = s,
                    None => return false,
                },
                _ => o.push((c, t)),
            }
        }
        o.retain(|x| x.0 != 0);
        *v = o;
        true
    }

    pub fn eq0(&mut self, mut v: Vec<(i64, T)>, k: i128) -> T {
        self.norm_int(&mut v);
        if v.is_empty() {
            return self.boolc(k == 0);
        }
        let mut g = 0u128;
        for &(c, _) in &v {
            g = gcd(g, c.unsigned_abs() as u128);
        }
        let g = g as i128;
        let mut k = k;
        if k % g != 0 {
            return self.fls();
        }
        let s = if v[0].0 < 0 { -1 } else { 1 };
        if g > 1 || s < 0 {
            for x in v.iter_mut() {
                x.0 = (x.0 as i128 / g) as i64 * s as i64;
            }
            k = k / g * s;
        }
        let lv = self.linvec(v);
        let (lo, hi) = self.lin_bounds(lv);
        if lo + k > 0 || hi + k < 0 {
            return self.fls();
        }
        if lo == hi {
            return self.boolc(lo + k == 0);
        }
        self.mk(N::Eq0(k, lv), 1, 0, 1)
    }

    /// integer form of a term whose modular value equals the integer sum
    pub fn int_form(&self, t: T) -> Option<(Vec<(i64, T)>, i128)> {
        let w = self.w(t);
        match self.n(t) {
            N::Const(c) if *c <= u64::MAX as u128 => Some((vec![], *c as i128)),
            N::Lin(k, v) => {
                let (lo, hi) = self.lin_bounds(*v);
                let (mut k, mut lo, mut hi) = (*k as i128, lo, hi);
                lo += k;
                hi += k;
                if hi < 0 && lo >= -(1i128 << w) {
                    k += 1i128 << w;
                    lo += 1i128 << w;
                    hi += 1i128 << w;
                }
                if lo >= 0 && hi <= mask(w) as i128 {
                    Some((self.linvecs[*v as usize].to_vec(), k))
                } else {
                    None
                }
            }
            N::Zext(x) => {
                if matches!(self.n(*x), N::Lin(..)) {
                    if let Some(f) = self.int_form(*x) {
                        return Some(f);
                    }
                }
                Some((vec![(1, t)], 0))
            }
            N::Const(_) => None,
            _ if w <= 64 => Some((vec![(1, t)], 0)),
            _ => None,
        }
    }

    pub fn ult_forms(&mut self, a: (Vec<(i64, T)>, i128), b: (Vec<(i64, T)>, i128)) -> Option<T> {
        // a < b  <=> a - b + 1 <= 0
        let mut v = a.0;
        v.extend(b.0.iter().map(|&(c, t)| (-c, t)));
        if !self.norm_int(&mut v) {
            return None;
        }
        Some(self.le0(v, a.1 - b.1 + 1))
    }
    pub fn eq_forms(&mut self, a: (Vec<(i64, T)>, i128), b: (Vec<(i64, T)>, i128)) -> Option<T> {
        let mut v = a.0;
        v.extend(b.0.iter().map(|&(c, t)| (-c, t)));
        if !self.norm_int(&mut v) {
            return None;
        }
        Some(self.eq0(v, a.1 - b.1))
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fls();
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        if ah < bl {
            return self.tru();
        }
        if al >= bh {
            return self.fls();
        }
        if self.w(a) == 1 {
            // !a & b
            let n = self.not(a);
            return self.and(n, b);
        }
        if self.w(a) <= 64 {
            if let (Some(x), Some(y)) = (self.int_form(a), self.int_form(b)) {
                if let Some(t) = self.ult_forms(x, y) {
                    return t;
                }
            }
        }
        self.bin_raw(B::Ult, a, b)
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        if ah < bl || bh < al {
            return self.fls();
        }
        let w = self.w(a);
        if w == 1 {
            if let Some(c) = self.as_const(b) {
                return if c == 1 { a } else { self.not(a) };
            }
            if let Some(c) = self.as_const(a) {
                return if c == 1 { b } else { self.not(b) };
            }
            let x = self.bin_raw(B::Xor, a.min(b), a.max(b));
            return self.not(x);
        }
        // constants on the right
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if self.splits(a) && self.splits(b) {
            let lw = match (*self.n(a)).clone() {
                N::Concat(_, l) => Some(self.w(l)),
                _ => match *self.n(b) {
                    N::Concat(_, l) => Some(self.w(l)),
                    _ => None,
                },
            };
            if let Some(lw) = lw {
                let (al, bl) = (self.extract(a, 0, lw), self.extract(b, 0, lw));
                let l = self.eq(al, bl);
                if self.as_const(l) == Some(0) {
                    return l;
                }
                let (ah, bh) = (self.extract(a, lw, w - lw), self.extract(b, lw, w - lw));
                let h = self.eq(ah, bh);
                return self.and(h, l);
            }
        }
        if let Some(c) = self.as_const(b) {
            match *self.n(a) {
                N::Ite(cc, x, y) => {
                    if let (Some(p), Some(q)) = (self.as_const(x), self.as_const(y)) {
                        return match (p == c, q == c) {
                            (true, true) => self.tru(),
                            (true, false) => cc,
                            (false, true) => self.not(cc),
                            _ => self.fls(),
                        };
                    }
                }
                N::Zext(x) => {
                    let xw = self.w(x);
                    let e = self.cst(c, xw);
                    return self.eq(x, e);
                }
                _ => {}
            }
        }
        if w <= 64 {
            // modular equality: a == b <=> a - b == 0 modulo 2^w; an integer sum
            // with absolute value below 2^w is 0 modulo 2^w iff it is 0
            let mut v = vec![];
            let mut k = 0i128;
            self.as_lin(a, &mut v, 1, &mut k);
            self.as_lin(b, &mut v, -1, &mut k);
            Self::norm(&mut v, w);
            let k = wrap_i64(k, w) as i128;
            if v.is_empty() {
                return self.boolc(k == 0);
            }
            let lv = self.linvec(v.clone());
            let (lo, hi) = self.lin_bounds(lv);
            let m = 1i128 << w;
            for kk in [k, k + m, k - m] {
                let (lo, hi) = (lo + kk, hi + kk);
                if lo > -m && hi < m {
                    return self.eq0(v, kk);
                }
            }
        }
        let (a, b) = if self.as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.bin_raw(B::Eq, a, b)
    }

    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        let (_, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        let half = mask(w) >> 1;
        if ah <= half && bh <= half {
            return self.ult(a, b);
        }
        if ah <= half && bl > half {
            return self.fls();
        }
        if self.rng(a).0 > half && bh <= half {
            return self.tru();
        }
        if self.rng(a).0 > half && bl > half {
            return self.ult(a, b);
        }
        if w <= 64 {
            if let (Some(x), Some(y)) = (self.signed_form(a), self.signed_form(b)) {
                if let Some(t) = self.ult_forms(x, y) {
                    return t;
                }
            }
        }
        self.bin_raw(B::Slt, a, b)
    }

    /// integer form of a term whose signed value equals the integer sum
    pub fn signed_form(&self, t: T) -> Option<(Vec<(i64, T)>, i128)> {
        let w = self.w(t);
        let half = 1i128 << (w - 1);
        match self.n(t) {
            N::Const(c) => Some((vec![], sx(*c, w))),
            N::Lin(k, v) => {
                let (lo, hi) = self.lin_bounds(*v);
                if lo + *k as i128 >= -half && hi + (*k as i128) < half {
                    Some((self.linvecs[*v as usize].to_vec(), *k as i128))
                } else {
                    None
                }
            }
            _ if self.rng(t).1 < half as u128 => Some((vec![(1, t)], 0)),
            _ => None,
        }
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.as_const(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        if w == 1 {
            // (c & a) | (!c & b)
            let x = self.and(c, a);
            let nc = self.not(c);
            let y = self.and(nc, b);
            return self.or(x, y);
        }
        if let N::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        self.mk(N::Ite(c, a, b), w, al.min(bl), ah.max(bh))
    }

    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.cst(c >> lo, w);
        }
        let (al, ah) = self.rng(a);
        if lo as u32 >= 128 - ah.leading_zeros() {
            return self.cst(0, w);
        }
        match *self.n(a) {
            N::Extract(x, l2) => return self.extract(x, lo + l2, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let hp = self.extract(h, 0, lo + w - lw);
                let lp = self.extract(l, lo, lw - lo);
                return self.concat(hp, lp);
            }
            N::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.cst(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let e = self.extract(x, lo, xw - lo);
                return self.zext(e, w);
            }
            N::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            N::Bin(B::Shl, x, s) => {
                if let Some(s) = self.as_const(s) {
                    if s <= lo as u128 {
                        return self.extract(x, lo - s as u8, w);
                    }
                    if s >= (lo + w) as u128 {
                        return self.cst(0, w);
                    }
                    // straddles: low part zeros
                    let zeros = s as u8 - lo;
                    let h = self.extract(x, 0, w - zeros);
                    let z = self.cst(0, zeros);
                    return self.concat(h, z);
                }
            }
            N::Bin(B::LShr, x, s) => {
                if let Some(s) = self.as_const(s) {
                    if s + lo as u128 + w as u128 <= aw as u128 {
                        return self.extract(x, lo + s as u8, w);
                    }
                }
            }
            N::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() || lo > 0 {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            N::Lin(k, v) => {
                // truncation of a linear form is linear modulo the smaller width
                if lo == 0 && w > 1 && w <= 64 {
                    let terms: Vec<(i64, T)> = self.linvecs[v as usize].to_vec();
                    let mut nv = vec![];
                    let mut kk = k as i128;
                    for (c, x) in terms {
                        let e = self.extract(x, 0, w);
                        self.as_lin(e, &mut nv, wrap_i64(c as i128, w), &mut kk);
                    }
                    return self.mk_lin(nv, kk, w);
                }
            }
            _ => {}
        }
        let (l, h) = if lo == 0 && ah <= mask(w) { (al, ah) } else { (0, (ah >> lo).min(mask(w))) };
        self.mk(N::Extract(a, lo), w, l, h)
    }

    pub fn zext(&mut self, a: T, w: u8) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.cst(c, w);
        }
        let (al, ah) = self.rng(a);
        match *self.n(a) {
            N::Zext(x) => return self.zext(x, w),
            N::Extract(x, 0) if self.w(x) == w && self.rng(x).1 <= mask(aw) => return x,
            N::Extract(x, 0) if self.rng(x).1 <= mask(aw) && self.w(x) < w => return self.zext(x, w),
            N::Extract(x, 0) if self.rng(x).1 <= mask(aw) && self.w(x) > w => return self.extract(x, 0, w),
            N::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                return self.ite(c, p, q);
            }
            N::Lin(..) if w <= 64 => {
                if let Some((v, k)) = self.int_form(a) {
                    let mut nv = vec![];
                    let mut kk = k;
                    for (c, x) in v {
                        let e = self.zext(x, w);
                        // zext of an atom may itself be linear
                        if matches!(self.n(e), N::Lin(..)) && self.int_form(e).is_none() {
                            return self.mk(N::Zext(a), w, al, ah);
                        }
                        self.as_lin(e, &mut nv, c, &mut kk);
                    }
                    return self.mk_lin(nv, kk, w);
                }
            }
            _ => {}
        }
        self.mk(N::Zext(a), w, al, ah)
    }

    pub fn sext(&mut self, a: T, w: u8) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.cst(sx(c, aw) as u128, w);
        }
        if aw > 1 && self.rng(a).1 <= mask(aw) >> 1 {
            return self.zext(a, w);
        }
        if aw == 1 {
            let m = self.cst(mask(w), w);
            let z = self.cst(0, w);
            return self.ite(a, m, z);
        }
        self.mk(N::Sext(a), w, 0, mask(w))
    }

    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.cst((x << lw) | y, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts of the same term
        if let (N::Extract(x, hl), N::Extract(y, ll)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && hl == ll + lw {
                return self.extract(x, ll, w);
            }
        }
        // extract(x, lw..) ++ x[0..lw] where low part is a truncation
        if let N::Extract(x, hl) = *self.n(h) {
            if hl == lw {
                let lowp = self.extract(x, 0, lw);
                if lowp == l {
                    return self.extract(x, 0, w);
                }
            }
        }
        // h = concat(a,b): merge b with l when adjacent
        if let N::Concat(a, b) = *self.n(h) {
            if let (N::Extract(x, hl), N::Extract(y, ll)) = (self.n(b).clone(), self.n(l).clone()) {
                if x == y && hl == ll + lw {
                    let m = self.extract(x, ll, self.w(b) + lw);
                    return self.concat(a, m);
                }
            }
        }
        if let N::Zext(x) = *self.n(h) {
            // zext(x) ++ l = zext(x ++ l)
            let c = self.concat(x, l);
            return self.zext(c, w);
        }
        // h ++ (a ++ b) => (h ++ a) ++ b (left-assoc)
        if let N::Concat(a, b) = *self.n(l) {
            let ha = self.concat(h, a);
            return self.concat(ha, b);
        }
        let (hlo, hhi) = self.rng(h);
        let (llo, lhi) = self.rng(l);
        let (lo, hi) = ((hlo << lw) | llo, (hhi << lw) | lhi);
        self.mk(N::Concat(h, l), w, lo, hi)
    }

    /// value of a term under a model
    pub fn eval(&self, t: T, model: &[u64], memo: &mut HashMap<T, u128>) -> u128 {
        let w = self.w(t);
        match self.n(t) {
            N::Const(c) => return *c,
            N::Var(i) => return model.get(*i as usize).copied().unwrap_or(self.vars[*i as usize].lo) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&t) {
            return v;
        }
        let r = match self.n(t).clone() {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Lin(k, v) => {
                let mut s = k as i128;
                for &(c, x) in self.linvecs[v as usize].iter() {
                    s = s.wrapping_add((c as i128).wrapping_mul(self.eval(x, model, memo) as i128));
                }
                s as u128 & mask(w)
            }
            N::Bin(op, a, b) => {
                let aw = self.w(a);
                let (x, y) = (self.eval(a, model, memo), self.eval(b, model, memo));
                Self::eval_bin(op, x, y, aw)
            }
            N::Ite(c, a, b) => {
                if self.eval(c, model, memo) == 1 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            N::Concat(a, b) => (self.eval(a, model, memo) << self.w(b)) | self.eval(b, model, memo),
            N::Extract(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            N::Zext(a) => self.eval(a, model, memo),
            N::Sext(a) => sx(self.eval(a, model, memo), self.w(a)) as u128 & mask(w),
            N::Le0(k, v) => (self.eval_int(v, model, memo) + k <= 0) as u128,
            N::Eq0(k, v) => (self.eval_int(v, model, memo) + k == 0) as u128,
            N::Not(a) => 1 - self.eval(a, model, memo),
        };
        memo.insert(t, r);
        r
    }

    fn eval_int(&self, v: u32, model: &[u64], memo: &mut HashMap<T, u128>) -> i128 {
        let mut s = 0i128;
        for &(c, x) in self.linvecs[v as usize].iter() {
            s += (c as i128) * (self.eval(x, model, memo) as i128);
        }
        s
    }

    pub fn show(&self, t: T) -> String {
        match self.n(t).clone() {
            N::Const(c) => format!("{}", c),
            N::Var(i) => format!("v{}", i),
            N::Lin(k, v) => format!("({}{})", self.show_lin(v), if k != 0 { format!("{:+}", k) } else { String::new() }),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a), self.show(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c), self.show(a), self.show(b)),
            N::Concat(a, b) => format!("({}++{})", self.show(a), self.show(b)),
            N::Extract(a, l) => format!("{}[{}+{}]", self.show(a), l, self.w(t)),
            N::Zext(a) => format!("z{}({})", self.w(t), self.show(a)),
            N::Sext(a) => format!("s{}({})", self.w(t), self.show(a)),
            N::Le0(k, v) => format!("({}{:+} <= 0)", self.show_lin(v), k),
            N::Eq0(k, v) => format!("({}{:+} == 0)", self.show_lin(v), k),
            N::Not(a) => format!("!{}", self.show(a)),
        }
    }
    fn show_lin(&self, v: u32) -> String {
        self.linvecs[v as usize]
            .iter()
            .map(|&(c, t)| if c == 1 { format!("+{}", self.show(t)) } else { format!("{:+}*{}", c, self.show(t)) })
            .collect()
    }
}
