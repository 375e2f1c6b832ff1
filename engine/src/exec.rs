//! Symbolic execution of lowered LLVM IR.
use crate::fx::Map;
use crate::ir::*;
use crate::lower::*;
use crate::solver::{Res as SRes, Solver};
use crate::term::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const GBASE: u64 = 1 << 32;
pub const FBASE: u64 = 2 << 32;
pub const SLOT0: u64 = 16;

#[derive(Clone, Debug)]
pub struct Sym {
    pub off: u32,
    pub len: u8,
    pub t: T,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Vec<Sym>,
    pub align: u32,
    pub heap: bool,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Slot {
    pub gen: u16,
    pub obj: Option<Rc<Obj>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<RFunc>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub dst: u32,
    pub next: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct ShaCall {
    pub inp: Vec<V>, // 8 state words and 64*n block bytes
    pub out: Vec<T>,
}

#[derive(Clone)]
pub struct St {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub slots: Vec<Slot>,
    pub free: Vec<u32>,
    pub globals: Rc<Vec<Rc<Obj>>>,
    pub pc: Vec<T>,
    pub known: Map<T, bool>,
    pub ub: Map<u32, i128>,
    pub alias: Map<T, T>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Vec<V>,
    pub obs: Vec<V>,
    pub covers: u64,
    pub expect_panic: bool,
    pub ite: bool,
    pub steps: u64,
    pub sha: Vec<Rc<ShaCall>>,
    pub conc: (u64, u32),
    pub nvar: u32,
    pub limit: u64,
    pub live: i64,
}

pub enum Stop {
    Infeasible,
    Bad(String, String), // kind, message
    Incomplete(String),
}
pub type R<X> = Result<X, Stop>;

pub enum End {
    Done,
    ExpectedPanic,
    Infeasible,
    Bad(String, String),
    Incomplete(String),
}

#[derive(Default, Clone)]
pub struct Cnt {
    pub forks: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub checks_trivial: u64,
    pub decisions: u64,
    pub implied: u64,
    pub unknown: u64,
    pub steps: u64,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
}

pub struct Ex<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub so: Solver,
    pub funcs: Vec<Option<Rc<RFunc>>>,
    pub fidx: Map<String, u32>,
    pub kinds: Vec<Option<Kind>>,
    pub gaddr: Map<String, u64>,
    pub gtab: Vec<(u64, u64)>,
    pub work: Vec<St>,
    pub st: St,
    pub cnt: Cnt,
    pub varkeys: Map<(u32, u8, u64, u64), T>,
    pub aliases: Map<(T, u32), T>,
    pub ginit: Rc<Vec<Rc<Obj>>>,
    pub pending: Vec<Violation>,
    pub max_steps: u64,
    pub max_conc: u32,
    dbg: u32,
    trace_nl: bool,
    shavars: u32,
}

fn bad<X>(k: &str, m: impl Into<String>) -> R<X> {
    Err(Stop::Bad(k.to_string(), m.into()))
}

#[inline]
fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

fn s64(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

enum Where {
    Heap(usize),
    Glob(usize),
}

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module) -> Self {
        let mut ar = Arena::new();
        let mut fidx = Map::default();
        for (i, n) in m.func_order.iter().enumerate() {
            fidx.insert(n.clone(), i as u32);
        }
        // global layout
        let mut gaddr = Map::default();
        let mut gtab = vec![];
        let mut p = GBASE + 4096;
        for n in &m.global_order {
            let g = &m.globals[n];
            let sz = g.ty.alloc_size();
            gaddr.insert(n.clone(), p);
            gtab.push((p, sz));
            p = (p + sz + 64 + 63) / 64 * 64;
        }
        let dummy = Rc::new(RFunc { id: 0, name: String::new(), nregs: 0, nparams: 0, dbg: 0, blocks: vec![], seen: RefCell::new(vec![]) });
        let nf = m.func_order.len();
        let _ = &mut ar;
        let st = St {
            top: Frame { f: dummy, regs: vec![], blk: 0, ip: 0, dst: u32::MAX, next: None, allocas: vec![] },
            stack: vec![],
            slots: vec![],
            free: vec![],
            globals: Rc::new(vec![]),
            pc: vec![],
            known: Map::default(),
            ub: Map::default(),
            alias: Map::default(),
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            covers: 0,
            expect_panic: false,
            ite: false,
            steps: 0,
            sha: vec![],
            conc: (0, 0),
            nvar: 0,
            limit: 1 << 22,
            live: 0,
        };
        let mut ex = Ex {
            m,
            ar,
            so: Solver::new(),
            funcs: vec![None; nf],
            fidx,
            kinds: vec![None; nf],
            gaddr,
            gtab,
            work: vec![],
            st,
            cnt: Cnt::default(),
            varkeys: Map::default(),
            aliases: Map::default(),
            ginit: Rc::new(vec![]),
            pending: vec![],
            max_steps: 400_000_000,
            max_conc: 256,
            dbg: 0,
            trace_nl: std::env::var("SYMEX_NL").is_ok(),
            shavars: 0,
        };
        let mut gs = vec![];
        for n in &m.global_order {
            let g = &m.globals[n];
            let sz = g.ty.alloc_size() as usize;
            let mut b = vec![0u8; sz];
            if let Some(c) = &g.init {
                ex.ginit_write(&mut b, 0, &g.ty, c);
            }
            gs.push(Rc::new(Obj { bytes: b, sym: vec![], align: 1, heap: false, ro: g.constant }));
        }
        ex.ginit = Rc::new(gs);
        ex
    }

    fn ginit_write(&mut self, b: &mut [u8], off: usize, ty: &Ty, c: &C) {
        match c {
            C::Zero | C::Undef => {}
            C::Str(s) => b[off..off + s.len()].copy_from_slice(s),
            C::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let (o, _) = ty.field(i as u64);
                    self.ginit_write(b, off + o as usize, t, x);
                }
            }
            C::Splat(x) => {
                for i in 0..ty.nfields() {
                    let (o, _) = ty.field(i);
                    self.ginit_write(b, off + o as usize, &x.0, &x.1);
                }
            }
            _ => {
                let n = ty.store_size() as usize;
                let v = self.constv(c, ty);
                let x: u128 = match v {
                    V::C(x) => x as u128,
                    V::T(t) => self.ar.as_const(t).unwrap(),
                    V::A(_) => panic!("agg const"),
                };
                b[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }

    pub fn constv(&mut self, c: &C, ty: &Ty) -> V {
        match c {
            C::Int(v) => {
                let w = ty.scalar_w();
                if w > 64 {
                    V::T(self.ar.cst(*v, w))
                } else {
                    V::C(*v as u64 & m64(w.max(1)))
                }
            }
            C::Undef | C::Zero => zero(ty, &mut self.ar),
            C::Glob(g) => V::C(self.glob_addr(g)),
            C::Str(s) => V::A(Rc::new(s.iter().map(|&b| V::C(b as u64)).collect())),
            C::Agg(v) => V::A(Rc::new(v.iter().map(|(t, x)| self.constv(x, t)).collect())),
            C::Splat(b) => {
                let v = self.constv(&b.1, &b.0);
                V::A(Rc::new(vec![v; ty.nfields() as usize]))
            }
            C::Gep(bt, p, ix) => {
                let V::C(mut a) = self.constv(&p.1, &p.0) else { panic!("gep const") };
                let mut cur = bt.clone();
                for (i, (t, x)) in ix.iter().enumerate() {
                    let V::C(iv) = self.constv(x, t) else { panic!("gep const") };
                    let iv = s64(iv, t.scalar_w());
                    if i == 0 {
                        a = a.wrapping_add((iv as u64).wrapping_mul(bt.alloc_size()));
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                let (o, f) = cur.field(iv as u64);
                                a = a.wrapping_add(o);
                                cur = f;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                a = a.wrapping_add((iv as u64).wrapping_mul(e.alloc_size()));
                                cur = (*e).clone();
                            }
                            _ => panic!("gep const"),
                        }
                    }
                }
                V::C(a)
            }
            C::Cast(k, t, c, t2) => {
                let v = self.constv(c, t);
                match v {
                    V::C(x) => {
                        let w = t.scalar_w();
                        let w2 = t2.scalar_w();
                        match k {
                            Cast::Sext => V::C(s64(x, w) as u64 & m64(w2)),
                            _ => V::C(x & m64(w2)),
                        }
                    }
                    o => o,
                }
            }
            C::Bin(b, t, x, y) => {
                let (V::C(x), V::C(y)) = (self.constv(x, t), self.constv(y, t)) else { panic!("bin const") };
                let w = t.scalar_w();
                V::C(match b {
                    Bop::Add => x.wrapping_add(y),
                    Bop::Sub => x.wrapping_sub(y),
                    Bop::Mul => x.wrapping_mul(y),
                    Bop::Xor => x ^ y,
                    Bop::Shl => x << y,
                    _ => panic!("bin const"),
                } & m64(w))
            }
        }
    }

    fn glob_addr(&mut self, g: &str) -> u64 {
        let mut n = g.to_string();
        for _ in 0..8 {
            if let Some(a) = self.gaddr.get(&n) {
                return *a;
            }
            if let Some(i) = self.fidx.get(&n) {
                return FBASE + (*i as u64) * 16;
            }
            match self.m.aliases.get(&n) {
                Some(x) => n = x.clone(),
                None => break,
            }
        }
        // unknown external symbol: an address that cannot be dereferenced
        3 << 32
    }

    fn kind(&mut self, id: u32) -> Kind {
        if let Some(k) = &self.kinds[id as usize] {
            return k.clone();
        }
        let name = self.m.func_order[id as usize].clone();
        let m = self.m;
        let nr = || m.func_pos.contains_key(&name) && m.header_noreturn(&name);
        let k = classify(&name, m, nr);
        self.kinds[id as usize] = Some(k.clone());
        k
    }

    pub fn func(&mut self, id: u32) -> R<Rc<RFunc>> {
        if let Some(f) = &self.funcs[id as usize] {
            return Ok(f.clone());
        }
        let name = self.m.func_order[id as usize].clone();
        let f = match self.m.parse_func(&name) {
            Ok(f) => f,
            Err(e) => return Err(Stop::Incomplete(format!("parse {}: {}", name, e))),
        };
        let nb = f.blocks.len();
        let mut blocks = vec![];
        for b in f.blocks {
            let phis = b
                .phis
                .into_iter()
                .map(|(d, _, inc)| (d, inc.into_iter().map(|(p, o)| (p, self.op(&o))).collect()))
                .collect();
            let ins = b.ins.into_iter().map(|i| RIns { d: i.d, dbg: i.dbg, i: self.lower(i.i) }).collect();
            blocks.push(RBlock { phis, ins });
        }
        let rf = Rc::new(RFunc { id, name, nregs: f.nregs, nparams: f.params.len() as u32, dbg: f.dbg, blocks, seen: RefCell::new(vec![false; nb]) });
        self.funcs[id as usize] = Some(rf.clone());
        Ok(rf)
    }

    fn op(&mut self, o: &O) -> Op {
        match o {
            O::R(r) => Op::R(*r),
            O::K(k) => Op::K(self.constv(&k.1, &k.0)),
        }
    }

    fn sh(t: &Ty) -> Sh {
        match t {
            Ty::Vec(n, e) => Sh::L(*n, e.scalar_w()),
            _ => Sh::S(t.scalar_w()),
        }
    }

    fn lower(&mut self, i: I) -> RI {
        match i {
            I::Bin(b, t, a, c) => {
                if t.scalar_w() as u32 != t.bits() && !matches!(t, Ty::Vec(..)) {
                    return RI::Unsupported("wide int".into());
                }
                RI::Bin(b, Self::sh(&t), self.op(&a), self.op(&c))
            }
            I::Icmp(p, t, a, b) => RI::Icmp(p, Self::sh(&t), self.op(&a), self.op(&b)),
            I::Fcmp(p, t, a, b) => RI::Fcmp(p, t, self.op(&a), self.op(&b)),
            I::Fneg(t, a) => RI::Fneg(t, self.op(&a)),
            I::Cast(c, t, a, t2) => RI::Cast(c, t, self.op(&a), t2),
            I::Gep(p, o, dy) => RI::Gep(self.op(&p), o, dy.iter().map(|(o, w, s)| (self.op(o), *w, *s)).collect()),
            I::Load(t, p) => RI::Load(t, self.op(&p)),
            I::Store(t, v, p) => RI::Store(t, self.op(&v), self.op(&p)),
            I::Alloca(s, c) => RI::Alloca(s, c.map(|(o, w)| (self.op(&o), w))),
            I::Select(ct, c, t, a, b) => RI::Select(matches!(ct, Ty::Vec(..)), t, self.op(&c), self.op(&a), self.op(&b)),
            I::Call { f, args, ret, next } => {
                let k = match f {
                    Callee::F(n) => {
                        let mut n = n;
                        while !self.fidx.contains_key(&n) && self.m.aliases.contains_key(&n) {
                            n = self.m.aliases[&n].clone();
                        }
                        match self.fidx.get(&n) {
                            Some(i) => CallK::Fn(*i),
                            None => return RI::Unsupported(format!("callee {}", n)),
                        }
                    }
                    Callee::P(o) => CallK::Ptr(self.op(&o)),
                    Callee::Asm(s) => CallK::Asm(s),
                };
                let mut a = vec![];
                let mut t = vec![];
                for (ty, o) in &args {
                    a.push(self.op(o));
                    t.push(ty.clone());
                }
                RI::Call { f: k, args: a, tys: t, ret, next }
            }
            I::ExtractValue(a, ix) => RI::ExtractValue(self.op(&a), ix),
            I::InsertValue(_, a, _, b, ix) => RI::InsertValue(self.op(&a), self.op(&b), ix),
            I::ExtractElement(_, a, i) => RI::ExtractElement(self.op(&a), self.op(&i)),
            I::InsertElement(_, a, b, i) => RI::InsertElement(self.op(&a), self.op(&b), self.op(&i)),
            I::Shuffle(t, a, b, m) => {
                let Ty::Vec(n, e) = &t else { return RI::Unsupported("shuffle".into()) };
                RI::Shuffle(*n, self.op(&a), self.op(&b), m, (**e).clone())
            }
            I::AtomicRmw(o, t, p, v) => RI::Rmw(o, t.scalar_w(), self.op(&p), self.op(&v)),
            I::CmpXchg(t, p, a, b) => RI::CmpXchg(t.scalar_w(), self.op(&p), self.op(&a), self.op(&b)),
            I::Freeze(a) => RI::Freeze(self.op(&a)),
            I::Nop => RI::Nop,
            I::Br(b) => RI::Br(b),
            I::CondBr(c, a, b) => RI::CondBr(self.op(&c), a, b),
            I::Switch(t, v, d, cs) => RI::Switch(t.scalar_w(), self.op(&v), d, cs),
            I::Ret(_, v) => RI::Ret(v.map(|v| self.op(&v))),
            I::Unreachable => RI::Unreachable,
            I::Resume => RI::Unsupported("resume".into()),
            I::Unsupported(s) => RI::Unsupported(s),
        }
    }

    // ---------------------------------------------------------------- values

    pub fn t(&mut self, v: &V, w: u8) -> T {
        match v {
            V::C(x) => self.ar.cst(*x as u128, w),
            V::T(t) => *t,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    pub fn v(&self, t: T) -> V {
        match self.ar.as_const(t) {
            Some(c) if self.ar.w(t) <= 64 => V::C(c as u64),
            _ => V::T(t),
        }
    }
    #[inline]
    fn val(&self, o: &Op) -> V {
        match o {
            Op::R(r) => self.st.top.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    pub fn eval(&self, t: T) -> u128 {
        let mut memo = Map::default();
        self.ar.eval(t, &self.st.model, &mut memo)
    }
    pub fn evalv(&self, v: &V) -> u64 {
        match v {
            V::C(c) => *c,
            V::T(t) => self.eval(*t) as u64,
            V::A(_) => 0,
        }
    }

    fn note(&mut self, c: T, val: bool) {
        let (c, val) = match self.ar.n(c) {
            N::Not(x) => (*x, !val),
            _ => (c, val),
        };
        if self.st.known.insert(c, val).is_some() {
            return;
        }
        match self.ar.n(c).clone() {
            N::Le0(k, v) => {
                let (lv, k) = if val { (v, k) } else { (self.ar.neg_linvec(v), -k + 1) };
                // sum(lv) <= -k
                let e = self.st.ub.entry(lv).or_insert(i128::MAX);
                if -k < *e {
                    *e = -k;
                }
            }
            N::Eq0(k, v) if val => {
                let nv = self.ar.neg_linvec(v);
                self.st.ub.insert(v, -k);
                self.st.ub.insert(nv, k);
            }
            N::Bin(B::And, a, b) if val && self.ar.w(a) == 1 => {
                self.note(a, true);
                self.note(b, true);
            }
            N::Bin(B::Or, a, b) if !val && self.ar.w(a) == 1 => {
                self.note(a, false);
                self.note(b, false);
            }
            _ => {}
        }
    }

    fn quick(&mut self, c: T) -> Option<bool> {
        if let Some(x) = self.ar.as_const(c) {
            return Some(x == 1);
        }
        if let Some(&b) = self.st.known.get(&c) {
            return Some(b);
        }
        match self.ar.n(c).clone() {
            N::Not(x) => self.quick(x).map(|b| !b),
            N::Le0(k, v) => {
                if let Some(&u) = self.st.ub.get(&v) {
                    if u.saturating_add(k) <= 0 {
                        return Some(true);
                    }
                }
                let nv = self.ar.neg_linvec(v);
                if let Some(&u) = self.st.ub.get(&nv) {
                    // -sum <= u  => sum >= -u
                    if u != i128::MAX && -u + k > 0 {
                        return Some(false);
                    }
                }
                None
            }
            N::Eq0(k, v) => {
                let nv = self.ar.neg_linvec(v);
                let hi = self.st.ub.get(&v).copied().unwrap_or(i128::MAX);
                let lo = self.st.ub.get(&nv).copied().unwrap_or(i128::MAX);
                if hi != i128::MAX && hi + k < 0 {
                    return Some(false);
                }
                if lo != i128::MAX && -lo + k > 0 {
                    return Some(false);
                }
                if hi != i128::MAX && lo != i128::MAX && hi == -lo && hi + k == 0 {
                    return Some(true);
                }
                None
            }
            N::Bin(B::And, a, b) if self.ar.w(a) == 1 => match (self.quick(a), self.quick(b)) {
                (Some(true), Some(true)) => Some(true),
                (Some(false), _) | (_, Some(false)) => Some(false),
                _ => None,
            },
            N::Bin(B::Or, a, b) if self.ar.w(a) == 1 => match (self.quick(a), self.quick(b)) {
                (Some(false), Some(false)) => Some(false),
                (Some(true), _) | (_, Some(true)) => Some(true),
                _ => None,
            },
            _ => None,
        }
    }

    /// Splits the current path on an undecided condition. The current state
    /// continues with the side its model takes, the other side (if feasible)
    /// is queued and re-executes the current instruction.
    pub fn decide(&mut self, c: T) -> R<bool> {
        if let Some(b) = self.quick(c) {
            return Ok(b);
        }
        self.cnt.decisions += 1;
        if self.trace_nl {
            let s = self.ar.show(c);
            if s.contains('[') {
                eprintln!("NL {} dbg {} in {:?}", s.chars().take(300).collect::<String>(), self.dbg, self.backtrace());
            }
        }
        let m = self.eval(c) == 1;
        let other = if m { self.ar.not(c) } else { c };
        let mine = if m { c } else { self.ar.not(c) };
        match self.so.check(&self.ar, &self.st.pc, other, &self.st.model) {
            SRes::Unsat => {
                self.cnt.implied += 1;
                self.note(c, m);
                Ok(m)
            }
            SRes::Sat(model2) => {
                self.cnt.forks += 1;
                let mut o = self.st.clone();
                o.pc.push(other);
                o.model = Rc::new(model2);
                std::mem::swap(&mut self.st, &mut o);
                self.note(c, !m);
                debug_assert!(self.eval(other) == 1, "model does not satisfy {}", self.ar.show(other));
                std::mem::swap(&mut self.st, &mut o);
                self.work.push(o);
                self.st.pc.push(mine);
                self.note(c, m);
                Ok(m)
            }
            SRes::Unknown => {
                self.cnt.unknown += 1;
                self.st.pc.push(mine);
                self.note(c, m);
                Ok(m)
            }
        }
    }

    pub fn decide_v(&mut self, v: &V) -> R<bool> {
        match v {
            V::C(c) => Ok(c & 1 == 1),
            V::T(t) => {
                let t = *t;
                let t = if self.ar.w(t) == 1 { t } else { self.ar.extract(t, 0, 1) };
                self.decide(t)
            }
            V::A(_) => panic!("decide aggregate"),
        }
    }

    pub fn concretize(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::A(_) => panic!("concretize aggregate"),
            V::T(t) => {
                let t = *t;
                if let Some(c) = self.ar.as_const(t) {
                    return Ok(c as u64);
                }
                let site = ((self.st.top.f.id as u64) << 40) | ((self.st.top.blk as u64) << 16) | self.st.top.ip as u64;
                if self.st.conc.0 == site {
                    self.st.conc.1 += 1;
                    if self.st.conc.1 > self.max_conc {
                        let f = self.st.top.f.name.clone();
                        return Err(Stop::Incomplete(format!("too many values at {} ({}) [{}]", f, self.dbg, self.ar.show(t))));
                    }
                } else {
                    self.st.conc = (site, 0);
                }
                let mv = self.eval(t);
                let w = self.ar.w(t);
                let c = self.ar.cst(mv, w);
                let e = self.ar.eq(t, c);
                if !self.decide(e)? {
                    return Err(Stop::Incomplete("concretize".into()));
                }
                self.st.conc = (0, 0);
                Ok(mv as u64)
            }
        }
    }

    pub fn assume(&mut self, v: &V) -> R<()> {
        let c = match v {
            V::C(c) => return if c & 1 == 1 { Ok(()) } else { Err(Stop::Infeasible) },
            V::T(t) => {
                if self.ar.w(*t) == 1 {
                    *t
                } else {
                    self.ar.extract(*t, 0, 1)
                }
            }
            _ => panic!(),
        };
        match self.quick(c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Infeasible),
            None => {}
        }
        if self.eval(c) == 1 {
            self.st.pc.push(c);
            self.note(c, true);
            return Ok(());
        }
        match self.so.check(&self.ar, &self.st.pc, c, &self.st.model) {
            SRes::Sat(m) => {
                self.st.model = Rc::new(m);
                self.st.pc.push(c);
                self.note(c, true);
                Ok(())
            }
            SRes::Unsat => Err(Stop::Infeasible),
            SRes::Unknown => {
                self.cnt.unknown += 1;
                Err(Stop::Incomplete("solver gave up on an assumption".into()))
            }
        }
    }

    /// An assertion: ask the solver for a violation under the path condition.
    pub fn check(&mut self, v: &V, kind: &str, msg: &str) -> R<()> {
        self.cnt.checks += 1;
        let c = match v {
            V::C(c) => {
                if c & 1 == 1 {
                    self.cnt.checks_trivial += 1;
                    return Ok(());
                }
                return bad(kind, msg);
            }
            V::T(t) => {
                if self.ar.w(*t) == 1 {
                    *t
                } else {
                    self.ar.extract(*t, 0, 1)
                }
            }
            _ => panic!(),
        };
        match self.quick(c) {
            Some(true) => {
                self.cnt.checks_trivial += 1;
                return Ok(());
            }
            Some(false) => return bad(kind, msg),
            None => {}
        }
        self.cnt.checks_solver += 1;
        let n = self.ar.not(c);
        match self.so.check(&self.ar, &self.st.pc, n, &self.st.model) {
            SRes::Unsat => {
                self.note(c, true);
                Ok(())
            }
            SRes::Sat(m) => {
                let inputs = self.inputs_under(&m);
                let trace = self.backtrace();
                self.pending.push(Violation { kind: kind.into(), msg: msg.into(), inputs, trace });
                self.assume(&V::T(c))
            }
            SRes::Unknown => {
                self.cnt.unknown += 1;
                self.assume(&V::T(c))
            }
        }
    }

    pub fn inputs_under(&self, model: &[u64]) -> Vec<u64> {
        let mut memo = Map::default();
        self.st
            .inputs
            .iter()
            .map(|v| match v {
                V::C(c) => *c,
                V::T(t) => self.ar.eval(*t, model, &mut memo) as u64,
                V::A(_) => 0,
            })
            .collect()
    }

    pub fn backtrace(&self) -> Vec<String> {
        let mut v = vec![self.st.top.f.name.clone()];
        for f in self.st.stack.iter().rev() {
            v.push(f.f.name.clone());
        }
        v.truncate(12);
        v
    }

    // ------------------------------------------------------- integer forms

    /// integer linear form of t with its value placed in [low, low + 2^w)
    fn norm_form(&mut self, t: T, low: i128) -> R<Option<(Vec<(i64, T)>, i128)>> {
        let w = self.ar.w(t);
        if w > 64 {
            return Ok(None);
        }
        let m = 1i128 << w;
        let (v, k, lo, hi) = match self.ar.n(t).clone() {
            N::Const(c) => {
                let c = c as i128;
                let c = if c >= low + m { c - m } else { c };
                return Ok(Some((vec![], c)));
            }
            N::Lin(k, lv) => {
                let (lo, hi) = self.ar.lin_bounds(lv);
                (self.ar.linvecs[lv as usize].to_vec(), k as i128, lo.saturating_add(k as i128), hi.saturating_add(k as i128))
            }
            N::Zext(x) if matches!(self.ar.n(x), N::Lin(..)) => match self.ar.int_form(x) {
                Some((v, k)) => {
                    let (lo, hi) = self.ar.rng(t);
                    (v, k, lo as i128, hi as i128)
                }
                None => {
                    let (lo, hi) = self.ar.rng(t);
                    (vec![(1, t)], 0, lo as i128, hi as i128)
                }
            },
            _ => {
                let (lo, hi) = self.ar.rng(t);
                (vec![(1, t)], 0, lo as i128, hi as i128)
            }
        };
        let qmin = (lo - low).div_euclid(m);
        let qmax = (hi - low).div_euclid(m);
        if qmax - qmin > 6 {
            return Ok(None);
        }
        for q in qmin..qmax {
            let c = self.ar.le0(v.clone(), k - (low + (q + 1) * m) + 1);
            if self.decide(c)? {
                return Ok(Some((v, k - q * m)));
            }
        }
        Ok(Some((v, k - qmax * m)))
    }

    fn lin_only(&self, t: T) -> bool {
        match self.ar.n(t) {
            N::Const(_) | N::Var(_) => true,
            N::Lin(_, lv) => self.ar.linvecs[*lv as usize].iter().all(|&(_, x)| matches!(self.ar.n(x), N::Var(_) | N::Zext(_))),
            N::Zext(_) => true,
            _ => false,
        }
    }

    fn ult(&mut self, a: T, b: T) -> R<T> {
        let w = self.ar.w(a);
        if !self.st.ite && w > 1 && w <= 64 && a != b && (self.lin_only(a) && self.lin_only(b)) {
            if self.ar.int_form(a).is_none() || self.ar.int_form(b).is_none() {
                let x = self.norm_form(a, 0)?;
                let y = self.norm_form(b, 0)?;
                if let (Some(x), Some(y)) = (x, y) {
                    if let Some(t) = self.ar.ult_forms(x, y) {
                        return Ok(t);
                    }
                }
            }
        }
        Ok(self.ar.ult(a, b))
    }
    fn slt(&mut self, a: T, b: T) -> R<T> {
        let w = self.ar.w(a);
        if !self.st.ite && w > 1 && w <= 64 && a != b && (self.lin_only(a) && self.lin_only(b)) {
            let h = -(1i128 << (w - 1));
            let x = self.norm_form(a, h)?;
            let y = self.norm_form(b, h)?;
            if let (Some(x), Some(y)) = (x, y) {
                if let Some(t) = self.ar.ult_forms(x, y) {
                    return Ok(t);
                }
            }
        }
        Ok(self.ar.slt(a, b))
    }
    fn eq(&mut self, a: T, b: T) -> R<T> {
        let e = self.ar.eq(a, b);
        if !self.st.ite && matches!(self.ar.n(e), N::Bin(B::Eq, ..)) {
            let w = self.ar.w(a);
            if w > 1 && w <= 64 && self.lin_only(a) && self.lin_only(b) {
                let x = self.norm_form(a, 0)?;
                let y = self.norm_form(b, 0)?;
                if let (Some(x), Some(y)) = (x, y) {
                    if let Some(t) = self.ar.eq_forms(x, y) {
                        return Ok(t);
                    }
                }
            }
        }
        Ok(e)
    }

    fn icmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s64(x, w) > s64(y, w),
                Pred::Sge => s64(x, w) >= s64(y, w),
                Pred::Slt => s64(x, w) < s64(y, w),
                Pred::Sle => s64(x, w) <= s64(y, w),
            };
            return Ok(V::C(r as u64));
        }
        let x = self.t(a, w);
        let y = self.t(b, w);
        let r = match p {
            Pred::Eq => self.eq(x, y)?,
            Pred::Ne => {
                let e = self.eq(x, y)?;
                self.ar.not(e)
            }
            Pred::Ult => self.ult(x, y)?,
            Pred::Ugt => self.ult(y, x)?,
            Pred::Uge => {
                let e = self.ult(x, y)?;
                self.ar.not(e)
            }
            Pred::Ule => {
                let e = self.ult(y, x)?;
                self.ar.not(e)
            }
            Pred::Slt => self.slt(x, y)?,
            Pred::Sgt => self.slt(y, x)?,
            Pred::Sge => {
                let e = self.slt(x, y)?;
                self.ar.not(e)
            }
            Pred::Sle => {
                let e = self.slt(y, x)?;
                self.ar.not(e)
            }
        };
        Ok(self.v(r))
    }

    fn bin(&mut self, op: Bop, w: u8, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem if y == 0 => return bad("ub", "division by zero"),
                Bop::UDiv => x / y,
                Bop::URem => x % y,
                Bop::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                Bop::SRem => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                Bop::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bop::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bop::AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem => {
                    let f = |a: f64, b: f64| match op {
                        Bop::FAdd => a + b,
                        Bop::FSub => a - b,
                        Bop::FMul => a * b,
                        Bop::FDiv => a / b,
                        _ => a % b,
                    };
                    if w == 32 {
                        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        let r = match op {
                            Bop::FAdd => a + b,
                            Bop::FSub => a - b,
                            Bop::FMul => a * b,
                            Bop::FDiv => a / b,
                            _ => a % b,
                        };
                        r.to_bits() as u64
                    } else {
                        f(f64::from_bits(x), f64::from_bits(y)).to_bits()
                    }
                }
            };
            return Ok(V::C(r & m64(w)));
        }
        let mut x = self.t(a, w);
        let mut y = self.t(b, w);
        if !self.st.ite && w > 1 {
            // keep arithmetic linear: decide embedded booleans
            x = self.unbool(x)?;
            y = self.unbool(y)?;
        }
        let o = match op {
            Bop::Add => B::Add,
            Bop::Sub => B::Sub,
            Bop::Mul => B::Mul,
            Bop::UDiv => B::UDiv,
            Bop::URem => B::URem,
            Bop::SDiv => B::SDiv,
            Bop::SRem => B::SRem,
            Bop::Shl => B::Shl,
            Bop::LShr => B::LShr,
            Bop::AShr => B::AShr,
            Bop::And => B::And,
            Bop::Or => B::Or,
            Bop::Xor => B::Xor,
            _ => return Err(Stop::Incomplete("symbolic float".into())),
        };
        if matches!(o, B::And | B::Or | B::Xor | B::Shl | B::LShr) {
            x = self.tight(x)?;
            y = self.tight(y)?;
        }
        if matches!(o, B::UDiv | B::URem | B::SDiv | B::SRem) && self.ar.as_const(y).is_none() && !self.st.ite {
            let c = self.concretize(&V::T(y))?;
            y = self.ar.cst(c as u128, w);
        }
        let r = self.ar.bin(o, x, y);
        Ok(self.v(r))
    }

    /// An operand of a bit operation: if the path condition bounds it tighter
    /// than its term does, a variable of that range stands for it from here on.
    fn tight(&mut self, t: T) -> R<T> {
        let w = self.ar.w(t);
        if w <= 8 || w > 64 || !matches!(self.ar.n(t), N::Lin(..) | N::Var(_)) {
            return Ok(t);
        }
        if let Some(&x) = self.st.alias.get(&t) {
            return Ok(x);
        }
        let (_, hi) = self.ar.rng(t);
        let Some((v, k)) = self.norm_form(t, 0)? else { return Ok(t) };
        let mut r = t;
        for b in [7u32, 14, 21, 28, 42] {
            let m = (1i128 << b) - 1;
            if hi as i128 <= m {
                break;
            }
            let c = self.ar.le0(v.clone(), k - m);
            let ok = match self.quick(c) {
                Some(x) => x,
                None => {
                    self.eval(c) == 1 && {
                        let n = self.ar.not(c);
                        matches!(self.so.check(&self.ar, &self.st.pc, n, &self.st.model), SRes::Unsat)
                    }
                }
            };
            if ok {
                self.note(c, true);
                let key = (t, b);
                let x = match self.aliases.get(&key) {
                    Some(x) => *x,
                    None => {
                        let x = self.ar.fresh(w, 0, m as u64);
                        self.aliases.insert(key, x);
                        x
                    }
                };
                let N::Var(vi) = *self.ar.n(x) else { unreachable!() };
                let val = self.eval(t) as u64;
                let mut mo = (*self.st.model).clone();
                while mo.len() <= vi as usize {
                    let i = mo.len();
                    mo.push(self.ar.vars[i].lo);
                }
                mo[vi as usize] = val;
                self.st.model = Rc::new(mo);
                let e = self.ar.eq_forms((v, k), (vec![(1, x)], 0)).unwrap();
                self.st.pc.push(e);
                self.note(e, true);
                r = x;
                break;
            }
        }
        self.st.alias.insert(t, r);
        Ok(r)
    }

    fn unbool(&mut self, t: T) -> R<T> {
        let w = self.ar.w(t);
        if w <= 8 {
            return Ok(t);
        }
        match *self.ar.n(t) {
            N::Zext(x) if self.ar.w(x) == 1 => {
                let b = self.decide(x)?;
                Ok(self.ar.cst(b as u128, w))
            }
            N::Ite(c, a, b) => {
                let d = self.decide(c)?;
                let r = if d { a } else { b };
                self.unbool(r)
            }
            _ => Ok(t),
        }
    }

    // --------------------------------------------------------------- memory

    pub fn alloc(&mut self, size: u64, align: u64, zero: bool, heap: bool) -> u64 {
        let fill = if zero { 0 } else { 0xA5 };
        let o = Rc::new(Obj { bytes: vec![fill; size as usize], sym: vec![], align: align as u32, heap, ro: false });
        let i = match self.st.free.pop() {
            Some(i) => i,
            None => {
                self.st.slots.push(Slot { gen: 0, obj: None });
                (self.st.slots.len() - 1) as u32
            }
        };
        let s = &mut self.st.slots[i as usize];
        s.gen = (s.gen + 1) & 0x7ff;
        s.obj = Some(o);
        if heap {
            self.st.live += 1;
        }
        ((s.gen as u64) << 52) | ((i as u64 + SLOT0) << 32)
    }

    fn loc(&self, a: u64, n: u64) -> R<(Where, usize)> {
        let hi = a >> 32;
        if hi == 1 {
            let i = self.gtab.partition_point(|g| g.0 <= a);
            if i > 0 {
                let (s, sz) = self.gtab[i - 1];
                if a - s + n <= sz {
                    return Ok((Where::Glob(i - 1), (a - s) as usize));
                }
            }
            return bad("ub", format!("access of {} bytes outside a static at {:#x}", n, a));
        }
        let id = hi & 0xfffff;
        let gen = (a >> 52) as u16;
        if id < SLOT0 || (id - SLOT0) as usize >= self.st.slots.len() {
            return bad("ub", format!("access of {} bytes at invalid address {:#x}", n, a));
        }
        let i = (id - SLOT0) as usize;
        let s = &self.st.slots[i];
        match &s.obj {
            Some(o) if s.gen == gen => {
                let off = a & 0xffff_ffff;
                if off + n > o.bytes.len() as u64 {
                    return bad("ub", format!("out of bounds access: {} bytes at offset {} of an object of {} bytes", n, off as u32 as i32, o.bytes.len()));
                }
                Ok((Where::Heap(i), off as usize))
            }
            _ => bad("ub", format!("use of freed memory at {:#x}", a)),
        }
    }
    fn obj(&self, w: &Where) -> &Rc<Obj> {
        match w {
            Where::Heap(i) => self.st.slots[*i].obj.as_ref().unwrap(),
            Where::Glob(i) => &self.st.globals[*i],
        }
    }
    fn obj_mut(&mut self, w: &Where) -> R<&mut Obj> {
        match w {
            Where::Heap(i) => Ok(Rc::make_mut(self.st.slots[*i].obj.as_mut().unwrap())),
            Where::Glob(i) => {
                if self.st.globals[*i].ro {
                    return bad("ub", "write to constant memory");
                }
                let g = Rc::make_mut(&mut self.st.globals);
                Ok(Rc::make_mut(&mut g[*i]))
            }
        }
    }

    fn load_int(&mut self, a: u64, n: usize) -> R<V> {
        let (w, off) = self.loc(a, n as u64)?;
        let o = self.obj(&w);
        let end = (off + n) as u32;
        let p = o.sym.partition_point(|e| e.off + e.len as u32 <= off as u32);
        if p >= o.sym.len() || o.sym[p].off >= end {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.bytes[off..off + n]);
                return Ok(V::C(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            let x = u128::from_le_bytes(b);
            return Ok(V::T(self.ar.cst(x, n as u8 * 8)));
        }
        if o.sym[p].off == off as u32 && o.sym[p].len as usize == n {
            return Ok(V::T(o.sym[p].t));
        }
        let o = o.clone();
        let mut acc: Option<T> = None;
        let mut i = n;
        while i > 0 {
            i -= 1;
            let pos = (off + i) as u32;
            let q = o.sym.partition_point(|e| e.off + e.len as u32 <= pos);
            let b = if q < o.sym.len() && o.sym[q].off <= pos {
                let e = &o.sym[q];
                self.ar.extract(e.t, ((pos - e.off) * 8) as u8, 8)
            } else {
                self.ar.cst(o.bytes[pos as usize] as u128, 8)
            };
            acc = Some(match acc {
                None => b,
                Some(h) => self.ar.concat(h, b),
            });
        }
        let r = acc.unwrap();
        Ok(self.v(r))
    }

    fn clear_sym(&mut self, w: &Where, off: usize, n: usize) -> R<()> {
        let (s, e) = (off as u32, (off + n) as u32);
        let o = self.obj(w);
        let p = o.sym.partition_point(|x| x.off + x.len as u32 <= s);
        if p >= o.sym.len() || o.sym[p].off >= e {
            return Ok(());
        }
        let o = o.clone();
        let mut add = vec![];
        let mut q = p;
        while q < o.sym.len() && o.sym[q].off < e {
            let x = &o.sym[q];
            let xe = x.off + x.len as u32;
            if x.off < s {
                let l = (s - x.off) as u8;
                let t = self.ar.extract(x.t, 0, l * 8);
                add.push(Sym { off: x.off, len: l, t });
            }
            if xe > e {
                let k = (e - x.off) as u8;
                let t = self.ar.extract(x.t, k * 8, (xe - e) as u8 * 8);
                add.push(Sym { off: e, len: (xe - e) as u8, t });
            }
            q += 1;
        }
        let om = self.obj_mut(w)?;
        om.sym.splice(p..q, add);
        Ok(())
    }

    fn store_int(&mut self, a: u64, n: usize, v: &V) -> R<()> {
        let (w, off) = self.loc(a, n as u64)?;
        self.clear_sym(&w, off, n)?;
        match v {
            V::C(x) => {
                let o = self.obj_mut(&w)?;
                let b = x.to_le_bytes();
                if n <= 8 {
                    o.bytes[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.bytes[off..off + 8].copy_from_slice(&b);
                    o.bytes[off + 8..off + n].fill(0);
                }
            }
            V::T(t) => {
                let t = self.ar.zext(*t, n as u8 * 8);
                if let Some(c) = self.ar.as_const(t) {
                    let o = self.obj_mut(&w)?;
                    o.bytes[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                } else {
                    let o = self.obj_mut(&w)?;
                    let p = o.sym.partition_point(|x| x.off < off as u32);
                    o.sym.insert(p, Sym { off: off as u32, len: n as u8, t });
                }
            }
            V::A(_) => panic!("store aggregate as int"),
        }
        Ok(())
    }

    pub fn load(&mut self, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                let v = self.load_int(a, n)?;
                if *w as usize == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    V::C(x) => V::C(x & m64(*w as u8)),
                    V::T(t) => {
                        let e = self.ar.extract(t, 0, *w as u8);
                        self.v(e)
                    }
                    V::A(_) => unreachable!(),
                })
            }
            Ty::Ptr | Ty::F64 => self.load_int(a, 8),
            Ty::F32 => self.load_int(a, 4),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, e) = ty {
                    if e.bits() % 8 != 0 {
                        return Err(Stop::Incomplete("load of bit vector".into()));
                    }
                }
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    let (o, t) = ty.field(i);
                    v.push(self.load(a.wrapping_add(o), &t)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Incomplete("load type".into())),
        }
    }

    pub fn store(&mut self, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_int(a, ((*w + 7) / 8) as usize, v),
            Ty::Ptr | Ty::F64 => self.store_int(a, 8, v),
            Ty::F32 => self.store_int(a, 4, v),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, e) = ty {
                    if e.bits() % 8 != 0 {
                        return Err(Stop::Incomplete("store of bit vector".into()));
                    }
                }
                let V::A(x) = v else { panic!("store agg") };
                for i in 0..ty.nfields() {
                    let (o, t) = ty.field(i);
                    self.store(a.wrapping_add(o), &t, &x[i as usize])?;
                }
                Ok(())
            }
            _ => Err(Stop::Incomplete("store type".into())),
        }
    }

    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (ws, os) = self.loc(s, n)?;
        let (wd, od) = self.loc(d, n)?;
        let n = n as usize;
        let so = self.obj(&ws).clone();
        let mut syms = vec![];
        let p = so.sym.partition_point(|x| x.off + x.len as u32 <= os as u32);
        let (lo, hi) = (os as u32, (os + n) as u32);
        for x in &so.sym[p..] {
            if x.off >= hi {
                break;
            }
            let xs = x.off.max(lo);
            let xe = (x.off + x.len as u32).min(hi);
            let t = if xs == x.off && xe == x.off + x.len as u32 { x.t } else { self.ar.extract(x.t, ((xs - x.off) * 8) as u8, ((xe - xs) * 8) as u8) };
            syms.push(Sym { off: xs - lo + od as u32, len: (xe - xs) as u8, t });
        }
        self.clear_sym(&wd, od, n)?;
        drop(so);
        if let (Where::Heap(a), Where::Heap(b)) = (&ws, &wd) {
            if a == b {
                let o = self.obj_mut(&wd)?;
                o.bytes.copy_within(os..os + n, od);
                if !syms.is_empty() {
                    let p = o.sym.partition_point(|x| x.off < od as u32);
                    o.sym.splice(p..p, syms);
                }
                return Ok(());
            }
        }
        let so = self.obj(&ws).clone();
        let o = self.obj_mut(&wd)?;
        o.bytes[od..od + n].copy_from_slice(&so.bytes[os..os + n]);
        if !syms.is_empty() {
            let p = o.sym.partition_point(|x| x.off < od as u32);
            o.sym.splice(p..p, syms);
        }
        Ok(())
    }

    fn memset(&mut self, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (w, o) = self.loc(d, n)?;
        self.clear_sym(&w, o, n as usize)?;
        match v {
            V::C(b) => {
                let ob = self.obj_mut(&w)?;
                ob.bytes[o..o + n as usize].fill(*b as u8);
            }
            _ => {
                for i in 0..n {
                    self.store_int(d + i, 1, v)?;
                }
            }
        }
        Ok(())
    }

    fn dealloc(&mut self, a: u64, size: Option<u64>) -> R<()> {
        let (w, off) = self.loc(a, 0)?;
        let Where::Heap(i) = w else { return bad("ub", "free of static memory") };
        let o = self.st.slots[i].obj.as_ref().unwrap();
        if off != 0 || !o.heap {
            return bad("ub", "free of a pointer that was not allocated");
        }
        if let Some(s) = size {
            if s != o.bytes.len() as u64 {
                return bad("ub", format!("dealloc with size {} of an allocation of {} bytes", s, o.bytes.len()));
            }
        }
        let s = &mut self.st.slots[i];
        s.obj = None;
        self.st.free.push(i as u32);
        self.st.live -= 1;
        Ok(())
    }

    fn do_alloc(&mut self, size: &V, align: u64, zero: bool) -> R<u64> {
        if let V::T(t) = size {
            let l = self.ar.cst(self.st.limit as u128 + 1, 64);
            let t = *t;
            let c = self.ult(t, l)?;
            let cv = self.v(c);
            self.check(&cv, "huge", "allocation larger than the limit")?;
        }
        let n = self.concretize(size)?;
        if n > self.st.limit {
            return bad("huge", format!("allocation of {} bytes", n));
        }
        Ok(self.alloc(n, align, zero, true))
    }

    // ------------------------------------------------------------ execution

    pub fn start(&mut self, name: &str) -> R<()> {
        let id = *self.fidx.get(name).ok_or(Stop::Incomplete(format!("no scenario {}", name)))?;
        let f = self.func(id)?;
        let s = &mut self.st;
        s.stack.clear();
        s.slots.clear();
        s.free.clear();
        s.globals = self.ginit.clone();
        s.pc.clear();
        s.known.clear();
        s.ub.clear();
        s.model = Rc::new(vec![]);
        s.inputs.clear();
        s.obs.clear();
        s.covers = 0;
        s.expect_panic = false;
        s.ite = false;
        s.steps = 0;
        s.sha.clear();
        s.conc = (0, 0);
        s.nvar = 0;
        s.limit = 1 << 22;
        s.live = 0;
        s.top = Frame { regs: vec![V::C(0); f.nregs as usize], f, blk: 0, ip: 0, dst: u32::MAX, next: None, allocas: vec![] };
        self.work.clear();
        Ok(())
    }

    pub fn run(&mut self) -> End {
        let s0 = self.st.steps;
        let r = self.run0();
        self.cnt.steps += self.st.steps - s0;
        match r {
            Ok(()) => End::Done,
            Err(Stop::Infeasible) => End::Infeasible,
            Err(Stop::Bad(k, m)) => {
                if k == "panic" && self.st.expect_panic {
                    End::ExpectedPanic
                } else {
                    End::Bad(k, m)
                }
            }
            Err(Stop::Incomplete(m)) => End::Incomplete(m),
        }
    }

    fn jump(&mut self, to: u32) {
        let f = self.st.top.f.clone();
        let b = &f.blocks[to as usize];
        f.seen.borrow_mut()[to as usize] = true;
        if !b.phis.is_empty() {
            let from = self.st.top.blk;
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = self.val(o);
                self.st.top.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                    vals.push((*d, self.val(o)));
                }
                for (d, v) in vals {
                    self.st.top.regs[d as usize] = v;
                }
            }
        }
        self.st.top.blk = to;
        self.st.top.ip = 0;
    }

    #[inline]
    fn set(&mut self, d: u32, v: V) {
        if d != u32::MAX {
            self.st.top.regs[d as usize] = v;
        }
    }

    fn run0(&mut self) -> R<()> {
        self.st.top.f.seen.borrow_mut()[0] = true;
        loop {
            let f = self.st.top.f.clone();
            let depth = self.st.stack.len();
            let fid = f.id;
            let mut blk = self.st.top.blk;
            let mut b = &f.blocks[blk as usize];
            loop {
                self.st.steps += 1;
                if self.st.steps > self.max_steps {
                    return bad("hang", "step limit");
                }
                let ins = &b.ins[self.st.top.ip as usize];
                self.dbg = ins.dbg;
                match &ins.i {
                    RI::Br(t) => {
                        self.jump(*t);
                        blk = *t;
                        b = &f.blocks[blk as usize];
                        continue;
                    }
                    RI::CondBr(c, x, y) => {
                        let v = self.val(c);
                        let t = if self.decide_v(&v)? { *x } else { *y };
                        self.jump(t);
                        blk = t;
                        b = &f.blocks[blk as usize];
                        continue;
                    }
                    RI::Switch(w, v, d, cs) => {
                        let v = self.val(v);
                        let mut to = *d;
                        match &v {
                            V::C(c) => {
                                for (k, t) in cs {
                                    if *k as u64 == *c {
                                        to = *t;
                                        break;
                                    }
                                }
                            }
                            V::T(t) => {
                                for (k, l) in cs {
                                    let kc = self.ar.cst(*k, *w);
                                    let e = self.eq(*t, kc)?;
                                    if self.decide(e)? {
                                        to = *l;
                                        break;
                                    }
                                }
                            }
                            _ => panic!(),
                        }
                        self.jump(to);
                        blk = to;
                        b = &f.blocks[blk as usize];
                        continue;
                    }
                    RI::Ret(v) => {
                        let r = v.as_ref().map(|v| self.val(v));
                        let al = std::mem::take(&mut self.st.top.allocas);
                        for i in al.into_iter().rev() {
                            self.st.slots[i as usize].obj = None;
                            self.st.free.push(i);
                        }
                        let dst = self.st.top.dst;
                        let next = self.st.top.next;
                        match self.st.stack.pop() {
                            None => return Ok(()),
                            Some(fr) => {
                                self.st.top = Rc::try_unwrap(fr).unwrap_or_else(|x| (*x).clone());
                                if let Some(v) = r {
                                    self.set(dst, v);
                                }
                                match next {
                                    Some(n) => self.jump(n),
                                    None => self.st.top.ip += 1,
                                }
                            }
                        }
                        break;
                    }
                    RI::Call { f: k, args, tys, ret, next } => {
                        self.call(k, args, tys, ret, ins.d, *next)?;
                        if self.st.stack.len() != depth || self.st.top.f.id != fid {
                            break;
                        }
                        if self.st.top.blk != blk {
                            blk = self.st.top.blk;
                            b = &f.blocks[blk as usize];
                        }
                        continue;
                    }
                    RI::Unreachable => return bad("ub", format!("unreachable code reached in {}", f.name)),
                    i => {
                        let v = self.simple(i)?;
                        self.set(ins.d, v);
                        self.st.top.ip += 1;
                    }
                }
            }
        }
    }

    fn lanes(&self, v: &V) -> Rc<Vec<V>> {
        match v {
            V::A(x) => x.clone(),
            _ => panic!("lanes of scalar"),
        }
    }

    fn simple(&mut self, i: &RI) -> R<V> {
        Ok(match i {
            RI::Bin(op, Sh::S(w), a, b) => {
                let (a, b) = (self.val(a), self.val(b));
                self.bin(*op, *w, &a, &b)?
            }
            RI::Bin(op, Sh::L(_, w), a, b) => {
                let (a, b) = (self.val(a), self.val(b));
                let (a, b) = (self.lanes(&a), self.lanes(&b));
                let mut o = Vec::with_capacity(a.len());
                for j in 0..a.len() {
                    o.push(self.bin(*op, *w, &a[j], &b[j])?);
                }
                V::A(Rc::new(o))
            }
            RI::Icmp(p, Sh::S(w), a, b) => {
                let (a, b) = (self.val(a), self.val(b));
                self.icmp(*p, *w, &a, &b)?
            }
            RI::Icmp(p, Sh::L(_, w), a, b) => {
                let (a, b) = (self.val(a), self.val(b));
                let (a, b) = (self.lanes(&a), self.lanes(&b));
                let mut o = Vec::with_capacity(a.len());
                for j in 0..a.len() {
                    o.push(self.icmp(*p, *w, &a[j], &b[j])?);
                }
                V::A(Rc::new(o))
            }
            RI::Gep(p, off, dy) => {
                let p = self.val(p);
                let mut acc = match &p {
                    V::C(a) => V::C(a.wrapping_add(*off as u64)),
                    _ => {
                        let o = V::C(*off as u64);
                        self.bin(Bop::Add, 64, &p, &o)?
                    }
                };
                for (o, w, s) in dy {
                    let x = self.val(o);
                    let x = match x {
                        V::C(c) => V::C((s64(c, *w) as u64).wrapping_mul(*s as u64)),
                        V::T(t) => {
                            let e = self.ar.sext(t, 64);
                            let e = self.ar.mulc(e, *s as i128 as u128);
                            self.v(e)
                        }
                        _ => panic!(),
                    };
                    acc = self.bin(Bop::Add, 64, &acc, &x)?;
                }
                acc
            }
            RI::Load(t, p) => {
                let p = self.val(p);
                if let V::T(pt) = &p {
                    if self.st.ite {
                        if let Some(v) = self.load_sym(*pt, t)? {
                            return Ok(v);
                        }
                    }
                }
                let a = self.concretize(&p)?;
                self.load(a, t)?
            }
            RI::Store(t, v, p) => {
                let p = self.val(p);
                let v = self.val(v);
                let a = self.concretize(&p)?;
                self.store(a, t, &v)?;
                V::C(0)
            }
            RI::Alloca(s, c) => {
                let mut n = *s;
                if let Some((o, _)) = c {
                    let v = self.val(o);
                    n *= self.concretize(&v)?;
                }
                let a = self.alloc(n, 16, false, false);
                let i = ((a >> 32) & 0xfffff) - SLOT0;
                self.st.top.allocas.push(i as u32);
                V::C(a)
            }
            RI::Select(vec, t, c, a, b) => {
                let c = self.val(c);
                if *vec {
                    let (c, a, b) = (self.lanes(&c), self.val(a), self.val(b));
                    let (a, b) = (self.lanes(&a), self.lanes(&b));
                    let mut o = vec![];
                    let et = match t {
                        Ty::Vec(_, e) => (**e).clone(),
                        _ => panic!(),
                    };
                    for j in 0..c.len() {
                        let x = self.select(&c[j], &et, a[j].clone(), b[j].clone())?;
                        o.push(x);
                    }
                    V::A(Rc::new(o))
                } else {
                    let (a, b) = (self.val(a), self.val(b));
                    self.select(&c, t, a, b)?
                }
            }
            RI::Cast(k, t, a, t2) => {
                let a = self.val(a);
                self.cast(*k, t, &a, t2)?
            }
            RI::ExtractValue(a, ix) => {
                let mut v = self.val(a);
                for i in ix {
                    let V::A(x) = &v else { panic!("extractvalue") };
                    let y = x[*i as usize].clone();
                    v = y;
                }
                v
            }
            RI::InsertValue(a, b, ix) => {
                let v = self.val(a);
                let b = self.val(b);
                fn ins(v: &V, b: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return b;
                    }
                    let V::A(x) = v else { panic!("insertvalue") };
                    let mut y = (**x).clone();
                    y[ix[0] as usize] = ins(&y[ix[0] as usize], b, &ix[1..]);
                    V::A(Rc::new(y))
                }
                ins(&v, b, ix)
            }
            RI::ExtractElement(a, i) => {
                let (a, i) = (self.val(a), self.val(i));
                let i = self.concretize(&i)?;
                let l = self.lanes(&a);
                l[i as usize % l.len()].clone()
            }
            RI::InsertElement(a, b, i) => {
                let (a, b, i) = (self.val(a), self.val(b), self.val(i));
                let i = self.concretize(&i)?;
                let mut l = (*self.lanes(&a)).clone();
                let n = l.len();
                l[i as usize % n] = b;
                V::A(Rc::new(l))
            }
            RI::Shuffle(n, a, b, m, t) => {
                let (a, b) = (self.val(a), self.val(b));
                let (a, b) = (self.lanes(&a), self.lanes(&b));
                let z = zero(t, &mut self.ar);
                V::A(Rc::new(
                    m.iter()
                        .map(|&i| {
                            if i < 0 {
                                z.clone()
                            } else if (i as u32) < *n {
                                a[i as usize].clone()
                            } else {
                                b[i as usize - *n as usize].clone()
                            }
                        })
                        .collect(),
                ))
            }
            RI::Rmw(op, w, p, v) => {
                let (p, v) = (self.val(p), self.val(v));
                let a = self.concretize(&p)?;
                let n = (*w as usize + 7) / 8;
                let old = self.load_int(a, n)?;
                let new = match op.as_str() {
                    "add" => self.bin(Bop::Add, *w, &old, &v)?,
                    "sub" => self.bin(Bop::Sub, *w, &old, &v)?,
                    "or" => self.bin(Bop::Or, *w, &old, &v)?,
                    "and" => self.bin(Bop::And, *w, &old, &v)?,
                    "xor" => self.bin(Bop::Xor, *w, &old, &v)?,
                    "xchg" => v,
                    _ => return Err(Stop::Incomplete("atomicrmw".into())),
                };
                self.store_int(a, n, &new)?;
                old
            }
            RI::CmpXchg(w, p, e, n) => {
                let (p, e, nv) = (self.val(p), self.val(e), self.val(n));
                let a = self.concretize(&p)?;
                let n = (*w as usize + 7) / 8;
                let old = self.load_int(a, n)?;
                let c = self.icmp(Pred::Eq, *w, &old, &e)?;
                let ok = self.decide_v(&c)?;
                if ok {
                    self.store_int(a, n, &nv)?;
                }
                V::A(Rc::new(vec![old, V::C(ok as u64)]))
            }
            RI::Freeze(a) => self.val(a),
            RI::Nop => V::C(0),
            RI::Fcmp(p, t, a, b) => {
                let (a, b) = (self.val(a), self.val(b));
                let (V::C(x), V::C(y)) = (a, b) else { return Err(Stop::Incomplete("symbolic float".into())) };
                let (x, y) = if *t == Ty::F32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    "true" => true,
                    _ => false,
                };
                V::C(r as u64)
            }
            RI::Fneg(t, a) => {
                let V::C(x) = self.val(a) else { return Err(Stop::Incomplete("symbolic float".into())) };
                V::C(x ^ (1u64 << (t.scalar_w() - 1)))
            }
            RI::Unsupported(s) => return Err(Stop::Incomplete(format!("unsupported: {}", s))),
            _ => unreachable!(),
        })
    }

    fn select(&mut self, c: &V, t: &Ty, a: V, b: V) -> R<V> {
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            V::T(ct) => {
                let ct = *ct;
                if let Some(x) = self.quick(ct) {
                    return Ok(if x { a } else { b });
                }
                let w = t.scalar_w();
                if w == 1 || (self.st.ite && w > 0) {
                    let x = self.t(&a, w);
                    let y = self.t(&b, w);
                    if w > 1 && *t == Ty::Ptr {
                        return Ok(if self.decide(ct)? { a } else { b });
                    }
                    let r = self.ar.ite(ct, x, y);
                    return Ok(self.v(r));
                }
                Ok(if self.decide(ct)? { a } else { b })
            }
            _ => panic!(),
        }
    }

    /// table lookup through a symbolic index (ite mode): all feasible addresses
    fn load_sym(&mut self, p: T, ty: &Ty) -> R<Option<V>> {
        let w = ty.scalar_w();
        if w == 0 || w > 64 {
            return Ok(None);
        }
        let N::Lin(k, lv) = *self.ar.n(p) else { return Ok(None) };
        let v = self.ar.linvecs[lv as usize].to_vec();
        let (lo, hi) = self.ar.lin_bounds(lv);
        let (lo, hi) = (lo + k as i128, hi + k as i128);
        let mut g = 0u128;
        for &(c, _) in &v {
            g = gcd(g, c.unsigned_abs() as u128);
        }
        if g == 0 || lo < 0 || (hi - lo) / (g as i128) > 256 {
            return Ok(None);
        }
        let mut acc: Option<T> = None;
        let mut a = lo;
        while a <= hi {
            if let Ok(x) = self.load(a as u64, ty) {
                let x = self.t(&x, w);
                acc = Some(match acc {
                    None => x,
                    Some(r) => {
                        let ac = self.ar.cst(a as u128, 64);
                        let e = self.ar.eq(p, ac);
                        self.ar.ite(e, x, r)
                    }
                });
            } else {
                return Ok(None);
            }
            a += g as i128;
        }
        Ok(acc.map(|t| self.v(t)))
    }

    fn flat(&mut self, ty: &Ty, v: &V) -> T {
        match v {
            V::A(x) => {
                let Ty::Vec(_, e) = ty else { panic!("flat") };
                let ew = e.scalar_w();
                let mut acc: Option<T> = None;
                for y in x.iter().rev() {
                    let t = self.t(y, ew);
                    acc = Some(match acc {
                        None => t,
                        Some(h) => self.ar.concat(h, t),
                    });
                }
                acc.unwrap()
            }
            _ => self.t(v, ty.scalar_w()),
        }
    }
    fn unflat(&mut self, ty: &Ty, t: T) -> V {
        match ty {
            Ty::Vec(n, e) => {
                let ew = e.scalar_w();
                let mut o = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(t, (i * ew as u32) as u8, ew);
                    o.push(self.v(x));
                }
                V::A(Rc::new(o))
            }
            _ => self.v(t),
        }
    }

    fn cast(&mut self, k: Cast, t: &Ty, a: &V, t2: &Ty) -> R<V> {
        if k == Cast::Bitcast {
            if t.bits() == t2.bits() && t.bits() <= 128 && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                let f = self.flat(t, a);
                return Ok(self.unflat(t2, f));
            }
            if t.scalar_w() != t2.scalar_w() {
                // ptrtoint to a different width
                let (w, w2) = (t.scalar_w(), t2.scalar_w());
                let x = self.t(a, w);
                let r = if w2 < w { self.ar.extract(x, 0, w2) } else { self.ar.zext(x, w2) };
                return Ok(self.v(r));
            }
            return Ok(a.clone());
        }
        if let (Ty::Vec(_, e), Ty::Vec(_, e2)) = (t, t2) {
            let l = self.lanes(a);
            let mut o = vec![];
            for x in l.iter() {
                o.push(self.cast(k, e, x, e2)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let (w, w2) = (t.scalar_w(), t2.scalar_w());
        if let V::C(x) = a {
            let x = *x;
            match k {
                Cast::Trunc => return Ok(V::C(x & m64(w2))),
                Cast::Zext if w2 <= 64 => return Ok(V::C(x)),
                Cast::Sext if w2 <= 64 => return Ok(V::C(s64(x, w) as u64 & m64(w2))),
                Cast::UiToFp => return Ok(V::C(if *t2 == Ty::F32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() })),
                Cast::SiToFp => return Ok(V::C(if *t2 == Ty::F32 { (s64(x, w) as f32).to_bits() as u64 } else { (s64(x, w) as f64).to_bits() })),
                Cast::FpToUi => {
                    let f = if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    return Ok(V::C(f as u64 & m64(w2)));
                }
                Cast::FpExt => return Ok(V::C((f32::from_bits(x as u32) as f64).to_bits())),
                Cast::FpTrunc => return Ok(V::C((f64::from_bits(x) as f32).to_bits() as u64)),
                Cast::FpToSi => {
                    let f = if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                    return Ok(V::C(f as i64 as u64 & m64(w2)));
                }
                _ => {}
            }
        }
        let x = self.t(a, w);
        let x = if k == Cast::Trunc && w2 > 1 { self.tight(x)? } else { x };
        let r = match k {
            Cast::Trunc => self.ar.extract(x, 0, w2),
            Cast::Zext => self.ar.zext(x, w2),
            Cast::Sext => self.ar.sext(x, w2),
            _ => return Err(Stop::Incomplete("symbolic float".into())),
        };
        if !self.st.ite && w2 > 8 && w2 <= 64 {
            let r = self.unbool(r)?;
            return Ok(self.v(r));
        }
        Ok(self.v(r))
    }

    fn location(&self, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::C(a) = a {
                if a >> 32 == 1 {
                    let i = self.gtab.partition_point(|g| g.0 <= *a);
                    if i > 0 && self.gtab[i - 1].0 == *a && self.gtab[i - 1].1 == 24 {
                        let b = &self.ginit[i - 1].bytes;
                        let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
                        let n = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                        let l = u32::from_le_bytes(b[16..20].try_into().unwrap());
                        let j = self.gtab.partition_point(|g| g.0 <= p);
                        if j > 0 {
                            let o = (p - self.gtab[j - 1].0) as usize;
                            let g = &self.ginit[j - 1].bytes;
                            let e = (o + n).min(g.len());
                            if o <= e {
                                let s = String::from_utf8_lossy(&g[o..e]).trim_end_matches('\0').to_string();
                                return format!("{}:{}", s, l);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn call(&mut self, k: &CallK, args: &[Op], tys: &[Ty], ret: &Ty, d: u32, next: Option<u32>) -> R<()> {
        let id = match k {
            CallK::Fn(i) => *i,
            CallK::Ptr(o) => {
                let p = self.val(o);
                let a = self.concretize(&p)?;
                if a >> 32 != 2 || (a - FBASE) % 16 != 0 || ((a - FBASE) / 16) as usize >= self.funcs.len() {
                    return bad("ub", format!("call through invalid function pointer {:#x}", a));
                }
                ((a - FBASE) / 16) as u32
            }
            CallK::Asm(s) => {
                if s.trim().is_empty() {
                    // optimisation barrier
                    if d != u32::MAX {
                        let v = match args.first() {
                            Some(a) => self.val(a),
                            None => V::C(0),
                        };
                        self.set(d, v);
                    }
                    self.st.top.ip += 1;
                    return Ok(());
                }
                return Err(Stop::Incomplete("inline asm".into()));
            }
        };
        let kind = match &self.kinds[id as usize] {
            Some(Kind::Body) => Kind::Body,
            _ => self.kind(id),
        };
        if kind == Kind::Body {
            let f = self.func(id)?;
            if self.st.stack.len() > 4000 {
                return bad("hang", "stack overflow");
            }
            let mut regs = Vec::with_capacity(f.nregs as usize);
            for a in args.iter().take(f.nparams as usize) {
                regs.push(self.val(a));
            }
            regs.resize(f.nregs as usize, V::C(0));
            f.seen.borrow_mut()[0] = true;
            let fr = Frame { f, regs, blk: 0, ip: 0, dst: d, next, allocas: vec![] };
            let old = std::mem::replace(&mut self.st.top, fr);
            self.st.stack.push(Rc::new(old));
            return Ok(());
        }
        let av: Vec<V> = args.iter().map(|a| self.val(a)).collect();
        let r = self.builtin(id, kind, &av, tys, ret, d)?;
        if let Some(v) = r {
            self.set(d, v);
        }
        match next {
            Some(n) => self.jump(n),
            None => self.st.top.ip += 1,
        }
        Ok(())
    }

    fn map2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u8, &V, &V) -> R<V>) -> R<V> {
        match ty {
            Ty::Vec(_, e) => {
                let (x, y) = (self.lanes(a), self.lanes(b));
                let w = e.scalar_w();
                let mut o = vec![];
                for i in 0..x.len() {
                    o.push(f(self, w, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => f(self, ty.scalar_w(), a, b),
        }
    }
    fn map1(&mut self, ty: &Ty, a: &V, f: &mut dyn FnMut(&mut Self, u8, &V) -> R<V>) -> R<V> {
        match ty {
            Ty::Vec(_, e) => {
                let x = self.lanes(a);
                let w = e.scalar_w();
                let mut o = vec![];
                for i in 0..x.len() {
                    o.push(f(self, w, &x[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => f(self, ty.scalar_w(), a),
        }
    }

    /// a*b (or a+b, a-b) overflows width w
    fn overflow(&mut self, op: Bop, signed: bool, w: u8, a: &V, b: &V) -> R<(V, V)> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = if signed { (s64(*x, w) as i128, s64(*y, w) as i128) } else { (*x as i128, *y as i128) };
            let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, m64(w) as i128) };
            let r = match op {
                Bop::Add => x + y,
                Bop::Sub => x - y,
                _ => {
                    if let Some(r) = x.checked_mul(y) {
                        r
                    } else {
                        let r = (x as u128).wrapping_mul(y as u128);
                        return Ok((V::C(r as u64 & m64(w)), V::C(1)));
                    }
                }
            };
            return Ok((V::C(r as u64 & m64(w)), V::C((r < lo || r > hi) as u64)));
        }
        let val = self.bin(op, w, a, b)?;
        let (x, y) = (self.t(a, w), self.t(b, w));
        if w > 64 {
            return Err(Stop::Incomplete("wide overflow".into()));
        }
        let low = if signed { -(1i128 << (w - 1)) } else { 0 };
        let m = 1i128 << w;
        // integer forms
        let mut forms = None;
        if !self.st.ite && self.lin_only(x) && self.lin_only(y) {
            let p = self.norm_form(x, low)?;
            let q = self.norm_form(y, low)?;
            if let (Some(p), Some(q)) = (p, q) {
                forms = Some((p, q));
            }
        } else if !signed {
            if let (Some(p), Some(q)) = (self.ar.int_form(x), self.ar.int_form(y)) {
                forms = Some((p, q));
            }
        }
        if let Some((p, q)) = forms {
            let r: Option<(Vec<(i64, T)>, i128)> = match op {
                Bop::Add | Bop::Sub => {
                    let s = if op == Bop::Add { 1 } else { -1 };
                    let mut v = p.0.clone();
                    v.extend(q.0.iter().map(|&(c, t)| (c * s, t)));
                    Some((v, p.1 + q.1 * s as i128))
                }
                _ => {
                    let (v, k) = if q.0.is_empty() {
                        (Some(p.clone()), q.1)
                    } else if p.0.is_empty() {
                        (Some(q.clone()), p.1)
                    } else {
                        (None, 0)
                    };
                    match v {
                        Some((v, k0)) if k.unsigned_abs() < 1 << 40 && v.iter().all(|x| x.0.unsigned_abs() < 1 << 20) => {
                            Some((v.iter().map(|&(c, t)| (c * k as i64, t)).collect(), k0 * k))
                        }
                        _ => None,
                    }
                }
            };
            if let Some((v, k)) = r {
                // v + k >= low + m  or v + k < low
                let nv: Vec<(i64, T)> = v.iter().map(|&(c, t)| (-c, t)).collect();
                let big = self.ar.le0(nv, low + m - k);
                let small = self.ar.le0(v, k - low + 1);
                let o = self.ar.or(big, small);
                return Ok((val, self.v(o)));
            }
        }
        // bit-vector form at double width
        let dw = if op == Bop::Mul { 2 * w } else { w + 1 };
        let dw = if dw > 64 && dw < 128 { 128 } else { dw };
        let (xe, ye) = if signed { (self.ar.sext(x, dw), self.ar.sext(y, dw)) } else { (self.ar.zext(x, dw), self.ar.zext(y, dw)) };
        let b = match op {
            Bop::Add => B::Add,
            Bop::Sub => B::Sub,
            _ => B::Mul,
        };
        let r = self.ar.bin(b, xe, ye);
        let back = self.ar.extract(r, 0, w);
        let back = if signed { self.ar.sext(back, dw) } else { self.ar.zext(back, dw) };
        let e = self.ar.eq(r, back);
        let o = self.ar.not(e);
        Ok((val, self.v(o)))
    }

    fn builtin(&mut self, id: u32, kind: Kind, a: &[V], tys: &[Ty], ret: &Ty, d: u32) -> R<Option<V>> {
        let _ = d;
        Ok(match kind {
            Kind::Body => unreachable!(),
            Kind::Nop => {
                if ret != &Ty::Void {
                    Some(zero(ret, &mut self.ar))
                } else {
                    None
                }
            }
            Kind::Assume => {
                // violating an assumption made by the compiled code is undefined behaviour
                match &a[0] {
                    V::C(1) => {}
                    V::C(_) => return bad("ub", "llvm.assume(false): compiler assumption violated"),
                    v => {
                        let v = v.clone();
                        self.check(&v, "ub", "llvm.assume: compiler assumption violated")?
                    }
                }
                None
            }
            Kind::Memcpy => {
                let n = self.concretize(&a[2])?;
                let x = self.concretize(&a[0])?;
                let y = self.concretize(&a[1])?;
                self.memcpy(x, y, n)?;
                if ret == &Ty::Void {
                    None
                } else {
                    Some(a[0].clone())
                }
            }
            Kind::Memset => {
                let n = self.concretize(&a[2])?;
                let x = self.concretize(&a[0])?;
                self.memset(x, &a[1], n)?;
                None
            }
            Kind::AddO(s) | Kind::SubO(s) | Kind::MulO(s) => {
                let op = match kind {
                    Kind::AddO(_) => Bop::Add,
                    Kind::SubO(_) => Bop::Sub,
                    _ => Bop::Mul,
                };
                let (v, o) = self.overflow(op, s, tys[0].scalar_w(), &a[0], &a[1])?;
                Some(V::A(Rc::new(vec![v, o])))
            }
            Kind::AddSat(s) | Kind::SubSat(s) => {
                if s {
                    return Err(Stop::Incomplete("signed saturating".into()));
                }
                let op = if matches!(kind, Kind::AddSat(_)) { Bop::Add } else { Bop::Sub };
                let r = self.map2(&tys[0], &a[0], &a[1], &mut |me, w, x, y| {
                    let (v, o) = me.overflow(op, false, w, x, y)?;
                    let sat = V::C(if op == Bop::Add { m64(w) } else { 0 });
                    me.select(&o, &Ty::Int(w as u32), sat, v)
                })?;
                Some(r)
            }
            Kind::MinMax(s, max) => {
                let r = self.map2(&tys[0], &a[0], &a[1], &mut |me, w, x, y| {
                    let c = me.icmp(if s { Pred::Slt } else { Pred::Ult }, w, x, y)?;
                    let (p, q) = if max { (y.clone(), x.clone()) } else { (x.clone(), y.clone()) };
                    me.select(&c, &Ty::Int(w as u32), p, q)
                })?;
                Some(r)
            }
            Kind::Cmp3(s) => {
                let w = tys[0].scalar_w();
                let rw = ret.scalar_w();
                let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1])?;
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1])?;
                if self.st.ite {
                    let (lt, eq) = (self.t(&lt, 1), self.t(&eq, 1));
                    let (m1, z, o) = (self.ar.cst(m64(rw) as u128, rw), self.ar.cst(0, rw), self.ar.cst(1, rw));
                    let r = self.ar.ite(eq, z, o);
                    let r = self.ar.ite(lt, m1, r);
                    Some(self.v(r))
                } else if self.decide_v(&lt)? {
                    Some(V::C(m64(rw)))
                } else if self.decide_v(&eq)? {
                    Some(V::C(0))
                } else {
                    Some(V::C(1))
                }
            }
            Kind::Ctpop => Some(self.map1(&tys[0], &a[0], &mut |me, w, x| match x {
                V::C(c) => Ok(V::C(c.count_ones() as u64)),
                x => {
                    let t = me.t(x, w);
                    let mut acc = me.ar.cst(0, w);
                    for i in 0..w {
                        let b = me.ar.extract(t, i, 1);
                        let z = me.ar.zext(b, w);
                        acc = me.ar.add(acc, z);
                    }
                    Ok(me.v(acc))
                }
            })?),
            Kind::Ctlz => Some(self.map1(&tys[0], &a[0], &mut |me, w, x| match x {
                V::C(c) => Ok(V::C((c.leading_zeros() - (64 - w as u32)) as u64)),
                x => {
                    let t = me.t(x, w);
                    // number of significant bits
                    let (lo, hi) = me.ar.rng(t);
                    let bits = |v: u128| (128 - v.leading_zeros()) as u64;
                    if bits(lo) == bits(hi) {
                        return Ok(V::C(w as u64 - bits(lo)));
                    }
                    if me.st.ite {
                        let mut r = me.ar.cst(w as u128 - bits(hi) as u128, w);
                        for n in (bits(lo)..bits(hi)).rev() {
                            // t < 2^n => at most n bits
                            let lim = me.ar.cst(1u128 << n, w);
                            let c = me.ar.ult(t, lim);
                            let v = me.ar.cst(w as u128 - n as u128, w);
                            r = me.ar.ite(c, v, r);
                        }
                        return Ok(me.v(r));
                    }
                    for n in bits(lo)..bits(hi) {
                        let lim = me.ar.cst(1u128 << n, w);
                        let c = me.ult(t, lim)?;
                        if me.decide(c)? {
                            return Ok(V::C(w as u64 - n));
                        }
                    }
                    Ok(V::C(w as u64 - bits(hi)))
                }
            })?),
            Kind::Cttz => Some(self.map1(&tys[0], &a[0], &mut |me, w, x| match x {
                V::C(c) => Ok(V::C((c.trailing_zeros()).min(w as u32) as u64)),
                x => {
                    let t = me.t(x, w);
                    if me.st.ite {
                        let mut r = me.ar.cst(w as u128, w);
                        for n in (0..w).rev() {
                            let b = me.ar.extract(t, n, 1);
                            let v = me.ar.cst(n as u128, w);
                            r = me.ar.ite(b, v, r);
                        }
                        return Ok(me.v(r));
                    }
                    for n in 0..w {
                        let b = me.ar.extract(t, n, 1);
                        if me.decide(b)? {
                            return Ok(V::C(n as u64));
                        }
                    }
                    Ok(V::C(w as u64))
                }
            })?),
            Kind::Bswap => Some(self.map1(&tys[0], &a[0], &mut |me, w, x| match x {
                V::C(c) => Ok(V::C(c.swap_bytes() >> (64 - w as u32))),
                x => {
                    let t = me.t(x, w);
                    let mut acc = me.ar.extract(t, 0, 8);
                    for i in 1..w / 8 {
                        let b = me.ar.extract(t, i * 8, 8);
                        acc = me.ar.concat(acc, b);
                    }
                    Ok(me.v(acc))
                }
            })?),
            Kind::Bitrev => Some(self.map1(&tys[0], &a[0], &mut |me, w, x| match x {
                V::C(c) => Ok(V::C(c.reverse_bits() >> (64 - w as u32))),
                x => {
                    let t = me.t(x, w);
                    let mut acc = me.ar.extract(t, 0, 1);
                    for i in 1..w {
                        let b = me.ar.extract(t, i, 1);
                        acc = me.ar.concat(acc, b);
                    }
                    Ok(me.v(acc))
                }
            })?),
            Kind::Fsh(left) => {
                let w = tys[0].scalar_w();
                let V::C(s) = &a[2] else { return Err(Stop::Incomplete("symbolic funnel shift".into())) };
                let s = (*s % w as u64) as u8;
                if w > 64 || matches!(tys[0], Ty::Vec(..)) {
                    return Err(Stop::Incomplete("funnel shift".into()));
                }
                match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => {
                        let c = ((*x as u128) << w) | *y as u128;
                        let r = if left { (c << s) >> w } else { c >> s };
                        Some(V::C(r as u64 & m64(w)))
                    }
                    _ => {
                        let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                        let c = self.ar.concat(x, y);
                        let r = if left { self.ar.extract(c, w - s, w) } else { self.ar.extract(c, s, w) };
                        Some(self.v(r))
                    }
                }
            }
            Kind::Abs => {
                let w = tys[0].scalar_w();
                let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0))?;
                let n = self.bin(Bop::Sub, w, &V::C(0), &a[0])?;
                Some(self.select(&c, &tys[0], n, a[0].clone())?)
            }
            Kind::First => Some(a[0].clone()),
            Kind::IsConst => Some(V::C(0)),
            Kind::Abort => return bad("panic", "abort"),
            Kind::Panic => {
                let l = self.location(a);
                return bad("panic", format!("panic at {} ({})", l, self.m.func_order[id as usize]));
            }
            Kind::LoadRel => {
                let p = self.concretize(&a[0])?;
                let o = self.concretize(&a[1])?;
                let v = self.load_int(p.wrapping_add(o), 4)?;
                let V::C(x) = v else { return Err(Stop::Incomplete("load.relative".into())) };
                Some(V::C(p.wrapping_add(s64(x, 32) as u64)))
            }
            Kind::Reduce(op) => {
                let Ty::Vec(_, e) = &tys[0] else { return Err(Stop::Incomplete("reduce".into())) };
                let w = e.scalar_w();
                let l = self.lanes(&a[0]);
                let mut acc = l[0].clone();
                let o = match op.as_str() {
                    "add" => Bop::Add,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "mul" => Bop::Mul,
                    _ => return Err(Stop::Incomplete("reduce".into())),
                };
                for x in l[1..].iter() {
                    acc = self.bin(o, w, &acc, x)?;
                }
                Some(acc)
            }
            Kind::Bcmp | Kind::Memcmp => {
                let n = self.concretize(&a[2])?;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let x = self.concretize(&a[0])?;
                let y = self.concretize(&a[1])?;
                self.loc(x, n)?;
                self.loc(y, n)?;
                if kind == Kind::Bcmp {
                    let mut acc = self.ar.tru();
                    for i in 0..n {
                        let (p, q) = (self.load_int(x + i, 1)?, self.load_int(y + i, 1)?);
                        let e = self.icmp(Pred::Eq, 8, &p, &q)?;
                        let e = self.t(&e, 1);
                        acc = self.ar.and(acc, e);
                        if self.ar.as_const(acc) == Some(0) {
                            break;
                        }
                    }
                    let nz = self.ar.not(acc);
                    let r = self.ar.zext(nz, 32);
                    Some(self.v(r))
                } else {
                    for i in 0..n {
                        let (p, q) = (self.load_int(x + i, 1)?, self.load_int(y + i, 1)?);
                        let e = self.icmp(Pred::Eq, 8, &p, &q)?;
                        if !self.decide_v(&e)? {
                            let l = self.icmp(Pred::Ult, 8, &p, &q)?;
                            return Ok(Some(V::C(if self.decide_v(&l)? { 0xffff_ffff } else { 1 })));
                        }
                    }
                    Some(V::C(0))
                }
            }
            Kind::Malloc => Some(V::C(self.do_alloc(&a[0], 16, false)?)),
            Kind::Calloc => {
                let n = self.bin(Bop::Mul, 64, &a[0], &a[1])?;
                Some(V::C(self.do_alloc(&n, 16, true)?))
            }
            Kind::Realloc => {
                let p = self.concretize(&a[0])?;
                Some(V::C(self.do_realloc(p, None, &a[1])?))
            }
            Kind::PosixMemalign => {
                let al = self.concretize(&a[1])?;
                let p = self.do_alloc(&a[2], al, false)?;
                let o = self.concretize(&a[0])?;
                self.store_int(o, 8, &V::C(p))?;
                Some(V::C(0))
            }
            Kind::Free => {
                let p = self.concretize(&a[0])?;
                if p != 0 {
                    self.dealloc(p, None)?;
                }
                None
            }
            Kind::Vf(n) => return self.vf(&n, a, tys),
            Kind::Sha => {
                self.sha(a)?;
                None
            }
            Kind::Unsup(n) => return Err(Stop::Incomplete(format!("external function {}", n))),
        })
    }

    fn do_realloc(&mut self, p: u64, old: Option<u64>, new: &V) -> R<u64> {
        let (w, _) = self.loc(p, 0)?;
        let n0 = self.obj(&w).bytes.len() as u64;
        if let Some(o) = old {
            if o != n0 {
                return bad("ub", "realloc with a wrong size");
            }
        }
        let al = self.obj(&w).align as u64;
        let q = self.do_alloc(new, al, false)?;
        let (wq, _) = self.loc(q, 0)?;
        let n1 = self.obj(&wq).bytes.len() as u64;
        self.memcpy(q, p, n0.min(n1))?;
        self.dealloc(p, old)?;
        Ok(q)
    }

    pub fn sym_var(&mut self, w: u8, lo: u64, hi: u64) -> T {
        if lo == hi {
            return self.ar.cst(lo as u128, w);
        }
        let key = (self.st.nvar, w, lo, hi);
        self.st.nvar += 1;
        match self.varkeys.get(&key) {
            Some(t) => *t,
            None => {
                let t = self.ar.fresh(w, lo, hi);
                self.varkeys.insert(key, t);
                t
            }
        }
    }

    fn vf(&mut self, n: &str, a: &[V], _tys: &[Ty]) -> R<Option<V>> {
        Ok(match n {
            "vf_u64" => {
                let lo = self.concretize(&a[0])?;
                let hi = self.concretize(&a[1])?;
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                let t = self.sym_var(64, lo, hi);
                let v = self.v(t);
                self.st.inputs.push(v.clone());
                Some(v)
            }
            "vf_byte" => {
                let t = self.sym_var(8, 0, 255);
                let z = self.ar.zext(t, 64);
                self.st.inputs.push(V::T(z));
                Some(V::T(t))
            }
            "vf_choose" => {
                let n = self.concretize(&a[0])?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                // the current call instruction's destination
                let d = {
                    let f = self.st.top.f.clone();
                    f.blocks[self.st.top.blk as usize].ins[self.st.top.ip as usize].d
                };
                for i in (1..n).rev() {
                    let mut o = self.st.clone();
                    o.inputs.push(V::C(i));
                    if d != u32::MAX {
                        o.top.regs[d as usize] = V::C(i);
                    }
                    o.top.ip += 1;
                    self.work.push(o);
                    self.cnt.forks += 1;
                }
                self.st.inputs.push(V::C(0));
                Some(V::C(0))
            }
            "vf_assume" => {
                let v = a[0].clone();
                self.assume(&v)?;
                None
            }
            "vf_check" => {
                let V::C(code) = a[1] else { return Err(Stop::Incomplete("check code".into())) };
                let v = a[0].clone();
                self.check(&v, "check", &format!("check {} failed", code))?;
                None
            }
            "vf_expect_panic" => {
                let v = a[0].clone();
                self.st.expect_panic = self.decide_v(&v)?;
                None
            }
            "vf_observe" => {
                self.st.obs.push(a[0].clone());
                None
            }
            "vf_cover" => {
                if let V::C(i) = a[0] {
                    self.st.covers |= 1 << (i & 63);
                }
                None
            }
            "vf_ite" => {
                self.st.ite = matches!(a[0], V::C(x) if x & 1 == 1);
                None
            }
            "vf_limit" => {
                if let V::C(i) = a[0] {
                    self.st.limit = i;
                }
                None
            }
            "vf_live" => Some(V::C(self.st.live as u64)),
            "vf_concrete" => {
                let x = self.concretize(&a[0])?;
                Some(V::C(x))
            }
            "vf_symbolic" => Some(V::C(1)),
            "vf_alloc" | "vf_alloc_zeroed" => {
                let al = self.concretize(&a[1])?;
                Some(V::C(self.do_alloc(&a[0], al, n == "vf_alloc_zeroed")?))
            }
            "vf_dealloc" => {
                let p = self.concretize(&a[0])?;
                let s = self.concretize(&a[1])?;
                self.dealloc(p, Some(s))?;
                None
            }
            "vf_realloc" => {
                let p = self.concretize(&a[0])?;
                let s = self.concretize(&a[1])?;
                Some(V::C(self.do_realloc(p, Some(s), &a[3])?))
            }
            _ => return Err(Stop::Incomplete(format!("unknown hook {}", n))),
        })
    }

    /// SHA-256 compression. Concrete inputs are computed; symbolic ones give
    /// fresh outputs related by: equal outputs iff equal inputs.
    fn sha(&mut self, a: &[V]) -> R<()> {
        let (V::C(sp), V::C(bp), V::C(n)) = (&a[0], &a[1], &a[2]) else { return Err(Stop::Incomplete("sha args".into())) };
        let (sp, bp, n) = (*sp, *bp, *n);
        for blk in 0..n {
            let mut inp = vec![];
            let mut conc = true;
            for i in 0..8 {
                let v = self.load_int(sp + 4 * i, 4)?;
                conc &= matches!(v, V::C(_));
                inp.push(v);
            }
            for i in 0..64 {
                let v = self.load_int(bp + blk * 64 + i, 1)?;
                conc &= matches!(v, V::C(_));
                inp.push(v);
            }
            let out: Vec<T>;
            if conc {
                let mut st = [0u32; 8];
                for i in 0..8 {
                    st[i] = self.evalv(&inp[i]) as u32;
                }
                let mut b = [0u8; 64];
                for i in 0..64 {
                    b[i] = self.evalv(&inp[8 + i]) as u8;
                }
                sha256_block(&mut st, &b);
                out = st.iter().map(|x| self.ar.cst(*x as u128, 32)).collect();
                let call = ShaCall { inp: inp.clone(), out: out.clone() };
                self.sha_relate(&call)?;
                self.st.sha.push(Rc::new(call));
            } else {
                // an earlier identical call?
                let mut found = None;
                for c in &self.st.sha {
                    if c.inp.iter().zip(&inp).all(|(x, y)| match (x, y) {
                        (V::C(p), V::C(q)) => p == q,
                        (V::T(p), V::T(q)) => p == q,
                        _ => false,
                    }) {
                        found = Some(c.out.clone());
                    }
                }
                if let Some(o) = found {
                    out = o;
                } else {
                    let mut o = vec![];
                    for _ in 0..8 {
                        let k = 1_000_000 + self.shavars;
                        let _ = k;
                        let t = self.sym_var(32, 0, u32::MAX as u64);
                        o.push(t);
                    }
                    out = o;
                    let call = ShaCall { inp: inp.clone(), out: out.clone() };
                    self.sha_relate(&call)?;
                    self.st.sha.push(Rc::new(call));
                }
            }
            for i in 0..8 {
                let v = self.v(out[i as usize]);
                self.store_int(sp + 4 * i, 4, &v)?;
            }
        }
        Ok(())
    }

    fn sha_relate(&mut self, c: &ShaCall) -> R<()> {
        let calls = self.st.sha.clone();
        for o in calls.iter() {
            let mut ie = self.ar.tru();
            for i in 0..72 {
                let w = if i < 8 { 32 } else { 8 };
                let (p, q) = (self.t(&o.inp[i], w), self.t(&c.inp[i], w));
                let e = self.ar.eq(p, q);
                ie = self.ar.and(ie, e);
            }
            let mut oe = self.ar.tru();
            for i in 0..8 {
                let e = self.ar.eq(o.out[i], c.out[i]);
                oe = self.ar.and(oe, e);
            }
            let e = self.ar.eq(ie, oe);
            let v = self.v(e);
            self.assume(&v)?;
        }
        Ok(())
    }
}

const K256: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
    0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
    0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
    0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
    0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

fn sha256_block(st: &mut [u32; 8], b: &[u8; 64]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let [mut a, mut bb, mut c, mut d, mut e, mut f, mut g, mut h] = *st;
    for i in 0..64 {
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = h.wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let mj = (a & bb) ^ (a & c) ^ (bb & c);
        let t2 = s0.wrapping_add(mj);
        h = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = bb;
        bb = a;
        a = t1.wrapping_add(t2);
    }
    for (x, y) in st.iter_mut().zip([a, bb, c, d, e, f, g, h]) {
        *x = x.wrapping_add(y);
    }
}
