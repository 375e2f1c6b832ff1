//! Thin FFI binding to libz3 and the translation of terms.
use crate::term::*;
use crate::fx::Map as HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Bv,
    Lia,
}

pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
}

pub struct Solver {
    c: P,
    bv: P,
    lia: P,
    bv_stack: Vec<T>,
    lia_stack: Vec<T>,
    bv_cache: HashMap<(T, u8), P>, // (term, mode) mode 0 = bv
    lia_cache: HashMap<T, Option<P>>,
    bv_vars: Vec<P>,
    int_vars: Vec<P>,
    nvars_bv: usize,
    nvars_int: usize,
    int_sort: P,
    pub stats: Stats,
    slow: u64,
    vars_cache: HashMap<T, Rc<[u32]>>,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            Z3_global_param_set(cs("smt.random_seed").as_ptr(), cs("1").as_ptr());
            Z3_global_param_set(cs("sat.random_seed").as_ptr(), cs("1").as_ptr());
            Z3_global_param_set(cs("rlimit").as_ptr(), cs("200000000").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |l: &str| {
                let s = if l == "simple" {
                    Z3_mk_simple_solver(c)
                } else {
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs(l).as_ptr()))
                };
                Z3_solver_inc_ref(c, s);
                s
            };
            let bvl = std::env::var("SYMEX_BV").unwrap_or("QF_BV".into());
            let lial = std::env::var("SYMEX_LIA").unwrap_or("simple".into());
            let bv = mk(&bvl);
            let lia = mk(&lial);
            let int_sort = Z3_mk_int_sort(c);
            Z3_inc_ref(c, int_sort);
            Solver {
                c,
                bv,
                lia,
                bv_stack: vec![],
                lia_stack: vec![],
                bv_cache: HashMap::default(),
                lia_cache: HashMap::default(),
                bv_vars: vec![],
                int_vars: vec![],
                nvars_bv: 0,
                nvars_int: 0,
                int_sort,
                stats: Stats::default(),
                vars_cache: HashMap::default(),
                slow: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
            }
        }
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn bvsort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = self.keep(self.bvsort(w));
            let r = Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s);
            Z3_inc_ref(self.c, r);
            Z3_dec_ref(self.c, s);
            r
        }
    }

    /// declare missing variables; the range constraints are asserted at the bottom of the stack
    fn sync_vars_bv(&mut self, ar: &Arena) {
        if self.nvars_bv == ar.vars.len() {
            return;
        }
        unsafe {
            Z3_solver_pop(self.c, self.bv, self.bv_stack.len() as c_uint);
            self.bv_stack.clear();
            for i in self.nvars_bv..ar.vars.len() {
                let v = &ar.vars[i];
                let k = (64 - v.hi.leading_zeros()).max(1).min(v.w as u32);
                let s = self.keep(self.bvsort(k));
                let name = Z3_mk_string_symbol(self.c, cs(&format!("v{}", i)).as_ptr());
                let x = self.keep(Z3_mk_const(self.c, name, s));
                if v.lo > 0 {
                    let lo = self.num(v.lo as u128, k);
                    let b = self.keep(Z3_mk_not(self.c, Z3_mk_bvult(self.c, x, lo)));
                    Z3_solver_assert(self.c, self.bv, b);
                }
                if k < 64 && v.hi != (1u64 << k) - 1 || k == 64 && v.hi != u64::MAX {
                    let hi = self.num(v.hi as u128, k);
                    let b = self.keep(Z3_mk_not(self.c, Z3_mk_bvult(self.c, hi, x)));
                    Z3_solver_assert(self.c, self.bv, b);
                }
                self.bv_vars.push(x);
            }
        }
        self.nvars_bv = ar.vars.len();
    }
    fn sync_vars_int(&mut self, ar: &Arena) {
        if self.nvars_int == ar.vars.len() {
            return;
        }
        unsafe {
            Z3_solver_pop(self.c, self.lia, self.lia_stack.len() as c_uint);
            self.lia_stack.clear();
            for i in self.nvars_int..ar.vars.len() {
                let v = &ar.vars[i];
                let name = Z3_mk_string_symbol(self.c, cs(&format!("i{}", i)).as_ptr());
                let x = self.keep(Z3_mk_const(self.c, name, self.int_sort));
                let lo = self.keep(Z3_mk_numeral(self.c, cs(&v.lo.to_string()).as_ptr(), self.int_sort));
                let hi = self.keep(Z3_mk_numeral(self.c, cs(&v.hi.to_string()).as_ptr(), self.int_sort));
                let a = self.keep(Z3_mk_le(self.c, lo, x));
                let b = self.keep(Z3_mk_le(self.c, x, hi));
                Z3_solver_assert(self.c, self.lia, a);
                Z3_solver_assert(self.c, self.lia, b);
                self.int_vars.push(x);
            }
        }
        self.nvars_int = ar.vars.len();
    }

    fn lia(&mut self, ar: &Arena, t: T) -> Option<P> {
        if let Some(x) = self.lia_cache.get(&t) {
            return *x;
        }
        let r = self.lia0(ar, t);
        self.lia_cache.insert(t, r);
        r
    }

    fn lia0(&mut self, ar: &Arena, t: T) -> Option<P> {
        unsafe {
            let r = match ar.n(t).clone() {
                N::Const(c) => {
                    if c == 1 {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_false(self.c)
                    }
                }
                N::Le0(k, v) | N::Eq0(k, v) => {
                    let mut parts = vec![];
                    for &(c, x) in ar.linvecs[v as usize].iter() {
                        let N::Var(i) = *ar.n(x) else { return None };
                        let xv = self.int_vars[i as usize];
                        if c == 1 {
                            parts.push(xv);
                        } else {
                            let n = self.keep(Z3_mk_numeral(self.c, cs(&c.to_string()).as_ptr(), self.int_sort));
                            let a = [n, xv];
                            parts.push(self.keep(Z3_mk_mul(self.c, 2, a.as_ptr())));
                        }
                    }
                    let s = if parts.len() == 1 {
                        parts[0]
                    } else {
                        self.keep(Z3_mk_add(self.c, parts.len() as c_uint, parts.as_ptr()))
                    };
                    let kk = self.keep(Z3_mk_numeral(self.c, cs(&(-k).to_string()).as_ptr(), self.int_sort));
                    if matches!(ar.n(t), N::Le0(..)) {
                        Z3_mk_le(self.c, s, kk)
                    } else {
                        Z3_mk_eq(self.c, s, kk)
                    }
                }
                N::Not(a) => {
                    let x = self.lia(ar, a)?;
                    Z3_mk_not(self.c, x)
                }
                N::Bin(op, a, b) if ar.w(a) == 1 => {
                    let x = self.lia(ar, a)?;
                    let y = self.lia(ar, b)?;
                    let v = [x, y];
                    match op {
                        B::And => Z3_mk_and(self.c, 2, v.as_ptr()),
                        B::Or => Z3_mk_or(self.c, 2, v.as_ptr()),
                        B::Xor => Z3_mk_xor(self.c, x, y),
                        _ => return None,
                    }
                }
                _ => return None,
            };
            Some(self.keep(r))
        }
    }

    fn bvw(&mut self, ar: &Arena, t: T, w: u32) -> P {
        // translation of an integer atom resized to w bits (value known to fit)
        let tw = ar.w(t) as u32;
        let x = self.bv(ar, t);
        unsafe {
            if tw == w {
                x
            } else if tw < w {
                self.keep(Z3_mk_zero_ext(self.c, w - tw, x))
            } else {
                self.keep(Z3_mk_extract(self.c, w - 1, 0, x))
            }
        }
    }

    fn bv(&mut self, ar: &Arena, t: T) -> P {
        if let Some(&x) = self.bv_cache.get(&(t, 0)) {
            return x;
        }
        let r = self.bv0(ar, t);
        let r = self.keep(r);
        self.bv_cache.insert((t, 0), r);
        r
    }

    fn bool_to_bv(&mut self, x: P) -> P {
        unsafe {
            let o = self.num(1, 1);
            let z = self.num(0, 1);
            self.keep(Z3_mk_ite(self.c, x, o, z))
        }
    }

    fn bvx(&mut self, ar: &Arena, t: T) -> P {
        // bit-vector view, also of booleans
        let x = self.bv(ar, t);
        if ar.w(t) == 1 {
            self.bool_to_bv(x)
        } else {
            x
        }
    }

    fn bv0(&mut self, ar: &Arena, t: T) -> P {
        let w = ar.w(t) as u32;
        let c = self.c;
        unsafe {
            match ar.n(t).clone() {
                N::Const(v) => {
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(v, w)
                    }
                }
                N::Var(i) => {
                    let v = &ar.vars[i as usize];
                    let k = (64 - v.hi.leading_zeros()).max(1).min(v.w as u32);
                    let x = self.bv_vars[i as usize];
                    if w == 1 {
                        let o = self.num(1, 1);
                        Z3_mk_eq(c, x, o)
                    } else if k < w {
                        Z3_mk_zero_ext(c, w - k, x)
                    } else {
                        x
                    }
                }
                N::Lin(k, v) => {
                    let mut acc = self.num(k as i128 as u128 & mask(w as u8), w);
                    for &(cf, x) in ar.linvecs[v as usize].iter() {
                        let xv = self.bv(ar, x);
                        if cf == 1 {
                            acc = self.keep(Z3_mk_bvadd(c, acc, xv));
                        } else if cf == -1 {
                            acc = self.keep(Z3_mk_bvsub(c, acc, xv));
                        } else {
                            let n = self.num(cf as i128 as u128 & mask(w as u8), w);
                            let m = self.keep(Z3_mk_bvmul(c, n, xv));
                            acc = self.keep(Z3_mk_bvadd(c, acc, m));
                        }
                    }
                    acc
                }
                N::Le0(k, v) | N::Eq0(k, v) => {
                    let mut mag = k.unsigned_abs();
                    for &(cf, x) in ar.linvecs[v as usize].iter() {
                        mag += (cf.unsigned_abs() as u128) * ar.rng(x).1;
                    }
                    let b = (128 - mag.leading_zeros() + 2).max(4);
                    let mut acc = self.num(k as u128 & mask(b.min(128) as u8), b.min(128));
                    let b = b.min(128);
                    for &(cf, x) in ar.linvecs[v as usize].iter() {
                        let xv = self.bvw(ar, x, b);
                        if cf == 1 {
                            acc = self.keep(Z3_mk_bvadd(c, acc, xv));
                        } else if cf == -1 {
                            acc = self.keep(Z3_mk_bvsub(c, acc, xv));
                        } else {
                            let n = self.num(cf as i128 as u128 & mask(b as u8), b);
                            let m = self.keep(Z3_mk_bvmul(c, n, xv));
                            acc = self.keep(Z3_mk_bvadd(c, acc, m));
                        }
                    }
                    let z = self.num(0, b);
                    if matches!(ar.n(t), N::Le0(..)) {
                        Z3_mk_bvsle(c, acc, z)
                    } else {
                        Z3_mk_eq(c, acc, z)
                    }
                }
                N::Not(a) => {
                    let x = self.bv(ar, a);
                    Z3_mk_not(c, x)
                }
                N::Ite(cc, a, b) => {
                    let x = self.bv(ar, cc);
                    let y = self.bv(ar, a);
                    let z = self.bv(ar, b);
                    Z3_mk_ite(c, x, y, z)
                }
                N::Concat(a, b) => {
                    let x = self.bvx(ar, a);
                    let y = self.bvx(ar, b);
                    Z3_mk_concat(c, x, y)
                }
                N::Extract(a, lo) => {
                    let x = self.bv(ar, a);
                    let e = self.keep(Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x));
                    if w == 1 {
                        let o = self.num(1, 1);
                        Z3_mk_eq(c, e, o)
                    } else {
                        e
                    }
                }
                N::Zext(a) => {
                    let x = self.bvx(ar, a);
                    Z3_mk_zero_ext(c, w - ar.w(a) as u32, x)
                }
                N::Sext(a) => {
                    let x = self.bvx(ar, a);
                    Z3_mk_sign_ext(c, w - ar.w(a) as u32, x)
                }
                N::Bin(op, a, b) => {
                    let aw = ar.w(a);
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    if aw == 1 {
                        let v = [x, y];
                        return match op {
                            B::And => Z3_mk_and(c, 2, v.as_ptr()),
                            B::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            B::Xor => Z3_mk_xor(c, x, y),
                            B::Eq => Z3_mk_eq(c, x, y),
                            _ => panic!("boolean op {:?}", op),
                        };
                    }
                    match op {
                        B::Add => Z3_mk_bvadd(c, x, y),
                        B::Sub => Z3_mk_bvsub(c, x, y),
                        B::Mul => Z3_mk_bvmul(c, x, y),
                        B::UDiv => Z3_mk_bvudiv(c, x, y),
                        B::URem => Z3_mk_bvurem(c, x, y),
                        B::SDiv => Z3_mk_bvsdiv(c, x, y),
                        B::SRem => Z3_mk_bvsrem(c, x, y),
                        B::And => Z3_mk_bvand(c, x, y),
                        B::Or => Z3_mk_bvor(c, x, y),
                        B::Xor => Z3_mk_bvxor(c, x, y),
                        B::Shl => Z3_mk_bvshl(c, x, y),
                        B::LShr => Z3_mk_bvlshr(c, x, y),
                        B::AShr => Z3_mk_bvashr(c, x, y),
                        B::Eq => Z3_mk_eq(c, x, y),
                        B::Ult => Z3_mk_bvult(c, x, y),
                        B::Slt => Z3_mk_bvslt(c, x, y),
                    }
                }
            }
        }
    }

    /// is pc /\ extra satisfiable?
    fn vars_of(&mut self, ar: &Arena, t: T) -> Rc<[u32]> {
        if let Some(x) = self.vars_cache.get(&t) {
            return x.clone();
        }
        let mut v: Vec<u32> = vec![];
        let mut kids: Vec<T> = vec![];
        match ar.n(t) {
            N::Const(_) => {}
            N::Var(i) => v.push(*i),
            N::Lin(_, l) | N::Le0(_, l) | N::Eq0(_, l) => kids.extend(ar.linvecs[*l as usize].iter().map(|x| x.1)),
            N::Bin(_, a, b) | N::Concat(a, b) => kids.extend([*a, *b]),
            N::Ite(a, b, c) => kids.extend([*a, *b, *c]),
            N::Extract(a, _) | N::Zext(a) | N::Sext(a) | N::Not(a) => kids.push(*a),
        }
        for k in kids {
            v.extend(self.vars_of(ar, k).iter());
        }
        v.sort();
        v.dedup();
        let r: Rc<[u32]> = v.into();
        self.vars_cache.insert(t, r.clone());
        r
    }

    pub fn check(&mut self, ar: &Arena, pc: &[T], extra: T, model: &[u64]) -> Res {
        let t0 = Instant::now();
        let r = self.check0(ar, pc, extra, model);
        if self.slow > 0 && t0.elapsed().as_millis() as u64 > self.slow {
            eprintln!("SLOW {:?} extra {}", t0.elapsed(), ar.show(extra));
            for &p in pc {
                if self.lia(ar, p).is_none() {
                    eprintln!("   pc {}", ar.show(p).chars().take(300).collect::<String>());
                }
            }
        }
        self.stats.queries += 1;
        self.stats.nanos += t0.elapsed().as_nanos() as u64;
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }

    fn check0(&mut self, ar: &Arena, pc0: &[T], extra: T, model: &[u64]) -> Res {
        self.sync_vars_int(ar);
        let mut all_lia = self.lia(ar, extra).is_some();
        if all_lia {
            for &p in pc0 {
                if self.lia(ar, p).is_none() {
                    all_lia = false;
                    break;
                }
            }
        }
        // conjuncts outside linear arithmetic that have no variable in common
        // with the question (transitively) do not matter: the current model
        // satisfies them
        let sliced;
        let mut pc = pc0;
        let mut keep_old: Vec<bool> = vec![];
        if !all_lia && self.lia(ar, extra).is_some() {
            let mut taint = vec![false; ar.vars.len()];
            let sets: Vec<Rc<[u32]>> = pc0.iter().map(|&p| self.vars_of(ar, p)).collect();
            let mut out = vec![false; pc0.len()];
            for i in 0..pc0.len() {
                if self.lia(ar, pc0[i]).is_none() {
                    out[i] = true;
                    sets[i].iter().for_each(|&v| taint[v as usize] = true);
                }
            }
            loop {
                let mut more = false;
                for i in 0..pc0.len() {
                    if !out[i] && sets[i].iter().any(|&v| taint[v as usize]) {
                        out[i] = true;
                        more = true;
                        sets[i].iter().for_each(|&v| taint[v as usize] = true);
                    }
                }
                if !more {
                    break;
                }
            }
            if !self.vars_of(ar, extra).iter().any(|&v| taint[v as usize]) {
                sliced = (0..pc0.len()).filter(|&i| !out[i]).map(|i| pc0[i]).collect::<Vec<T>>();
                pc = &sliced;
                all_lia = true;
                keep_old = taint;
            }
        }
        let sliced2;
        if !all_lia {
            // likewise for questions outside linear arithmetic
            let mut rel = vec![false; ar.vars.len()];
            self.vars_of(ar, extra).iter().for_each(|&v| rel[v as usize] = true);
            let sets: Vec<Rc<[u32]>> = pc0.iter().map(|&p| self.vars_of(ar, p)).collect();
            let mut inn = vec![false; pc0.len()];
            loop {
                let mut more = false;
                for i in 0..pc0.len() {
                    if !inn[i] && sets[i].iter().any(|&v| rel[v as usize]) {
                        inn[i] = true;
                        more = true;
                        sets[i].iter().for_each(|&v| rel[v as usize] = true);
                    }
                }
                if !more {
                    break;
                }
            }
            if inn.iter().any(|x| !x) {
                sliced2 = (0..pc0.len()).filter(|&i| inn[i]).map(|i| pc0[i]).collect::<Vec<T>>();
                pc = &sliced2;
                keep_old = rel.iter().map(|x| !x).collect();
            }
        }
        unsafe {
            if all_lia {
                let mut stack = std::mem::take(&mut self.lia_stack);
                let common = stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
                Z3_solver_pop(self.c, self.lia, (stack.len() - common) as c_uint);
                stack.truncate(common);
                for &p in &pc[common..] {
                    let e = self.lia(ar, p).unwrap();
                    Z3_solver_push(self.c, self.lia);
                    Z3_solver_assert(self.c, self.lia, e);
                    stack.push(p);
                }
                self.lia_stack = stack;
                let e = self.lia(ar, extra).unwrap();
                Z3_solver_push(self.c, self.lia);
                Z3_solver_assert(self.c, self.lia, e);
                let r = Z3_solver_check(self.c, self.lia);
                let res = if r == 1 {
                    let mut m = self.model(ar, self.lia, Mode::Lia);
                    if let Res::Sat(m) = &mut m {
                        for (i, k) in keep_old.iter().enumerate() {
                            if *k {
                                m[i] = model.get(i).copied().unwrap_or(ar.vars[i].lo);
                            }
                        }
                    }
                    m
                } else if r == -1 {
                    Res::Unsat
                } else {
                    Res::Unknown
                };
                Z3_solver_pop(self.c, self.lia, 1);
                res
            } else {
                self.sync_vars_bv(ar);
                let mut stack = std::mem::take(&mut self.bv_stack);
                let common = stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
                Z3_solver_pop(self.c, self.bv, (stack.len() - common) as c_uint);
                stack.truncate(common);
                for &p in &pc[common..] {
                    let e = self.bv(ar, p);
                    Z3_solver_push(self.c, self.bv);
                    Z3_solver_assert(self.c, self.bv, e);
                    stack.push(p);
                }
                self.bv_stack = stack;
                let e = self.bv(ar, extra);
                Z3_solver_push(self.c, self.bv);
                Z3_solver_assert(self.c, self.bv, e);
                let r = Z3_solver_check(self.c, self.bv);
                let res = if r == 1 {
                    {
                        let mut m = self.model(ar, self.bv, Mode::Bv);
                        if let Res::Sat(m) = &mut m {
                            for (i, k) in keep_old.iter().enumerate() {
                                if *k {
                                    m[i] = model.get(i).copied().unwrap_or(ar.vars[i].lo);
                                }
                            }
                        }
                        m
                    }
                } else if r == -1 {
                    Res::Unsat
                } else {
                    Res::Unknown
                };
                Z3_solver_pop(self.c, self.bv, 1);
                res
            }
        }
    }

    fn model(&mut self, ar: &Arena, s: P, mode: Mode) -> Res {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            let mut out = Vec::with_capacity(ar.vars.len());
            for i in 0..ar.vars.len() {
                let v = match mode {
                    Mode::Bv => self.bv_vars[i],
                    Mode::Lia => self.int_vars[i],
                };
                let mut r: P = std::ptr::null_mut();
                let mut n = 0u64;
                if Z3_model_eval(self.c, m, v, true, &mut r) && !r.is_null() {
                    Z3_inc_ref(self.c, r);
                    Z3_get_numeral_uint64(self.c, r, &mut n);
                    Z3_dec_ref(self.c, r);
                }
                // unconstrained variables may come back outside their range
                let vi = &ar.vars[i];
                if n < vi.lo || n > vi.hi {
                    n = vi.lo;
                }
                out.push(n);
            }
            Z3_model_dec_ref(self.c, m);
            Res::Sat(out)
        }
    }
}
