//! Lowering of parsed functions to the runtime form (constants resolved, callees classified).
use crate::ir::*;
use crate::term::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    T(T),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sh {
    S(u8),
    L(u32, u8),
}

#[derive(Clone, Debug)]
pub enum CallK {
    Fn(u32),
    Ptr(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum RI {
    Bin(Bop, Sh, Op, Op),
    Icmp(Pred, Sh, Op, Op),
    Fcmp(String, Ty, Op, Op),
    Fneg(Ty, Op),
    Cast(Cast, Ty, Op, Ty),
    Gep(Op, i64, Vec<(Op, u8, i64)>),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u64, Option<(Op, u8)>),
    Select(bool, Ty, Op, Op, Op),
    Call { f: CallK, args: Vec<Op>, tys: Vec<Ty>, ret: Ty, next: Option<u32> },
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i32>, Ty),
    Rmw(String, u8, Op, Op),
    CmpXchg(u8, Op, Op, Op),
    Freeze(Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u8, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

pub struct RIns {
    pub d: u32,
    pub dbg: u32,
    pub i: RI,
}
pub struct RBlock {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<RIns>,
}
pub struct RFunc {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub dbg: u32,
    pub blocks: Vec<RBlock>,
    pub seen: RefCell<Vec<bool>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Body,
    Nop,
    Assume,
    Memcpy,
    Memset,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    MinMax(bool, bool), // (signed, max)
    Cmp3(bool),
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fsh(bool), // left?
    Abs,
    First, // returns its first argument
    IsConst,
    Abort,
    Panic,
    LoadRel,
    Reduce(String),
    Bcmp,
    Memcmp,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    Vf(String),
    Sha,
    Unsup(String),
}

pub fn zero(ty: &Ty, ar: &mut Arena) -> V {
    match ty {
        Ty::Int(w) if *w > 64 => V::T(ar.cst(0, *w as u8)),
        Ty::Arr(n, t) => {
            let z = zero(t, ar);
            V::A(Rc::new(vec![z; *n as usize]))
        }
        Ty::Vec(n, t) => {
            let z = zero(t, ar);
            V::A(Rc::new(vec![z; *n as usize]))
        }
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| zero(t, ar)).collect())),
        _ => V::C(0),
    }
}

pub fn classify(name: &str, m: &Module, noreturn: impl Fn() -> bool) -> Kind {
    if let Some(n) = name.strip_prefix("llvm.") {
        let mut p = n.split('.');
        let a = p.next().unwrap_or("");
        let b = p.next().unwrap_or("");
        let c = p.next().unwrap_or("");
        return match (a, b, c) {
            ("lifetime", ..) | ("dbg", ..) | ("experimental", "noalias", _) | ("prefetch", ..) | ("invariant", ..) | ("pseudoprobe", ..) => Kind::Nop,
            ("x86", "sse2", "pause") => Kind::Nop,
            ("assume", ..) => Kind::Assume,
            ("memcpy", ..) | ("memmove", ..) => Kind::Memcpy,
            ("memset", ..) => Kind::Memset,
            ("uadd", "with", _) => Kind::AddO(false),
            ("sadd", "with", _) => Kind::AddO(true),
            ("usub", "with", _) => Kind::SubO(false),
            ("ssub", "with", _) => Kind::SubO(true),
            ("umul", "with", _) => Kind::MulO(false),
            ("smul", "with", _) => Kind::MulO(true),
            ("uadd", "sat", _) => Kind::AddSat(false),
            ("sadd", "sat", _) => Kind::AddSat(true),
            ("usub", "sat", _) => Kind::SubSat(false),
            ("ssub", "sat", _) => Kind::SubSat(true),
            ("umin", ..) => Kind::MinMax(false, false),
            ("umax", ..) => Kind::MinMax(false, true),
            ("smin", ..) => Kind::MinMax(true, false),
            ("smax", ..) => Kind::MinMax(true, true),
            ("ucmp", ..) => Kind::Cmp3(false),
            ("scmp", ..) => Kind::Cmp3(true),
            ("ctpop", ..) => Kind::Ctpop,
            ("ctlz", ..) => Kind::Ctlz,
            ("cttz", ..) => Kind::Cttz,
            ("bswap", ..) => Kind::Bswap,
            ("bitreverse", ..) => Kind::Bitrev,
            ("fshl", ..) => Kind::Fsh(true),
            ("fshr", ..) => Kind::Fsh(false),
            ("abs", ..) => Kind::Abs,
            ("expect", ..) | ("threadlocal", ..) | ("launder", ..) | ("strip", ..) | ("ptrmask", ..) => Kind::First,
            ("is", "constant", _) => Kind::IsConst,
            ("trap", ..) | ("ubsantrap", ..) => Kind::Abort,
            ("load", "relative", _) => Kind::LoadRel,
            ("vector", "reduce", _) => Kind::Reduce(c.to_string()),
            _ => Kind::Unsup(name.to_string()),
        };
    }
    if name.starts_with("vf_") {
        return Kind::Vf(name.to_string());
    }
    match name {
        "bcmp" => return Kind::Bcmp,
        "memcmp" => return Kind::Memcmp,
        "malloc" => return Kind::Malloc,
        "calloc" => return Kind::Calloc,
        "realloc" => return Kind::Realloc,
        "posix_memalign" => return Kind::PosixMemalign,
        "free" => return Kind::Free,
        "abort" => return Kind::Abort,
        "memcpy" | "memmove" => return Kind::Memcpy,
        _ => {}
    }
    if name.contains("__rust_no_alloc_shim") {
        return Kind::Nop;
    }
    if name.contains("4sha2") && name.contains("11compress256") {
        return Kind::Sha;
    }
    // numbers in messages print as nothing
    if name.contains("4core3fmt3num3imp") && name.contains("3fmt") && !noreturn() {
        return Kind::IsConst;
    }
    if let Some(i) = name.find("_4core3fmtR") {
        let b = &name.as_bytes()[i + 11..];
        if b.len() > 3 && b"htmyjaslxi".contains(&b[0]) && &b[1..3] == b"Nt" && name.contains("7Display3fmt") {
            return Kind::IsConst;
        }
    }
    if (name.contains("9panicking") || name.contains("18handle_alloc_error")) && noreturn() {
        return Kind::Panic;
    }
    if m.func_pos.contains_key(name) {
        return Kind::Body;
    }
    Kind::Unsup(name.to_string())
}
