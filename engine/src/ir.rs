//! Parser for textual LLVM IR (the subset rustc emits), functions parsed on demand.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

fn al(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        o = al(o, t.align());
                    }
                    o += t.alloc_size();
                }
                if *p {
                    o
                } else {
                    al(o, self.align())
                }
            }
            Ty::Vec(n, t) => {
                let b = t.bits() as u64 * *n as u64;
                (b + 7) / 8
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        match self {
            Ty::Struct(..) | Ty::Arr(..) => self.store_size(),
            _ => al(self.store_size(), self.align()),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.alloc_size(), (**t).clone()),
            Ty::Vec(_, t) => (i * (t.bits() as u64 / 8), (**t).clone()),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        o = al(o, t.align());
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.alloc_size();
                }
                panic!("field index")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n as u64,
            Ty::Struct(f, _) => f.len() as u64,
            _ => 0,
        }
    }
    pub fn scalar_w(&self) -> u8 {
        match self {
            Ty::Int(w) => *w as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Undef,
    Zero,
    Glob(String),
    Str(Rc<Vec<u8>>),
    Agg(Vec<(Ty, C)>),
    Splat(Box<(Ty, C)>),
    Gep(Ty, Box<(Ty, C)>, Vec<(Ty, C)>),
    Cast(Cast, Ty, Box<C>, Ty),
    Bin(Bop, Ty, Box<C>, Box<C>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bitcast, // also ptrtoint / inttoptr
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(Rc<(Ty, C)>),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, Ty, O, O),
    Icmp(Pred, Ty, O, O),
    Fcmp(String, Ty, O, O),
    Fneg(Ty, O),
    Cast(Cast, Ty, O, Ty),
    Gep(O, i64, Vec<(O, u8, i64)>),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(u64, Option<(O, u8)>),
    Select(Ty, O, Ty, O, O),
    Call { f: Callee, args: Vec<(Ty, O)>, ret: Ty, next: Option<u32> },
    ExtractValue(O, Vec<u32>),
    InsertValue(Ty, O, Ty, O, Vec<u32>),
    ExtractElement(Ty, O, O),
    InsertElement(Ty, O, O, O),
    Shuffle(Ty, O, O, Vec<i32>),
    AtomicRmw(String, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Freeze(O),
    Nop,
    // terminators
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<O>),
    Unreachable,
    Resume,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(String),
    P(O),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub d: u32, // u32::MAX = none
    pub i: I,
    pub dbg: u32,
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, O)>)>,
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub noreturn: bool,
    pub dbg: u32,
    pub regs: Vec<String>,
}

pub struct Global {
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub text: Rc<String>,
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, Global>,
    pub global_order: Vec<String>,
    pub func_pos: HashMap<String, (usize, usize)>,
    pub func_order: Vec<String>,
    pub declared: HashMap<String, ()>,
    pub aliases: HashMap<String, String>,
    pub attrs_noreturn: HashMap<u32, bool>,
    pub meta: HashMap<u32, (usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Local(String),
    Glob(String),
    Int(u128),
    Fl(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    W(String),
    P(char),
    Meta(String),
    Attr(u32),
    Ell,
    End,
}

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    tok: K,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unhex(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), p: 0, tok: K::End };
        l.adv();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let st = self.p;
        while self.s[self.p] != b'"' {
            self.p += 1;
        }
        let r = unhex(&self.s[st..self.p]);
        self.p += 1;
        r
    }
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && idch(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    pub fn adv(&mut self) -> K {
        let nt = self.next();
        std::mem::replace(&mut self.tok, nt)
    }
    fn next(&mut self) -> K {
        loop {
            if self.p >= self.s.len() {
                return K::End;
            }
            let c = self.s[self.p];
            if c.is_ascii_whitespace() {
                self.p += 1;
                continue;
            }
            if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                K::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                K::Glob(self.name())
            }
            b'!' => {
                self.p += 1;
                K::Meta(self.name())
            }
            b'#' => {
                self.p += 1;
                let n = self.name();
                K::Attr(n.parse().unwrap_or(u32::MAX))
            }
            b'"' => K::Str(self.quoted()),
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                K::Ell
            }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                if c == b'0' && self.p < self.s.len() && self.s[self.p] == b'x' {
                    while self.p < self.s.len() && self.s[self.p].is_ascii_alphanumeric() {
                        self.p += 1;
                    }
                    return K::Fl(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                let mut fl = false;
                while self.p < self.s.len() {
                    let d = self.s[self.p];
                    if d.is_ascii_digit() {
                    } else if d == b'.' && !self.s[self.p..].starts_with(b"..") || ((d == b'e' || d == b'E') && fl) || (fl && (d == b'+' || d == b'-')) {
                        fl = true;
                    } else {
                        break;
                    }
                    self.p += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.p]).unwrap();
                if fl {
                    return K::Fl(t.to_string());
                }
                if let Some(x) = t.strip_prefix('-') {
                    match x.parse::<u128>() {
                        Ok(v) => K::Int((v as i128).wrapping_neg() as u128),
                        Err(_) => K::W(t.to_string()),
                    }
                } else {
                    match t.parse::<u128>() {
                        Ok(v) => K::Int(v),
                        Err(_) => K::W(t.to_string()),
                    }
                }
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                K::CStr(self.quoted())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.p;
                while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_' || self.s[self.p] == b'.') {
                    self.p += 1;
                }
                K::W(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
            _ => {
                self.p += 1;
                K::P(c as char)
            }
        }
    }
    pub fn is(&self, c: char) -> bool {
        self.tok == K::P(c)
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(&self.tok, K::W(x) if x == w)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?} near {:?}", c, self.tok, String::from_utf8_lossy(&self.s[self.p.saturating_sub(60)..(self.p + 40).min(self.s.len())])))
        }
    }
    fn int(&mut self) -> Result<u128, String> {
        match self.adv() {
            K::Int(v) => Ok(v),
            t => Err(format!("expected int got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match &self.tok {
                K::P('(') => d += 1,
                K::P(')') => {
                    d -= 1;
                    if d == 0 {
                        self.adv();
                        return;
                    }
                }
                K::End => return,
                _ => {}
            }
            self.adv();
        }
    }
}

fn ty_word(w: &str) -> Option<Ty> {
    Some(match w {
        "void" => Ty::Void,
        "ptr" => Ty::Ptr,
        "float" => Ty::F32,
        "double" => Ty::F64,
        "half" | "fp128" | "x86_fp80" | "bfloat" | "label" | "metadata" | "token" => Ty::Other,
        _ => {
            let r = w.strip_prefix('i')?;
            if r.is_empty() || !r.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            Ty::Int(r.parse().ok()?)
        }
    })
}

const CONSTW: &[&str] = &[
    "null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "splat", "trunc", "sub", "add", "xor", "mul",
    "shl", "bitcast", "addrspacecast", "zext", "sext", "none", "blockaddress", "dso_local_equivalent", "no_cfi", "asm", "ptrtoaddr",
];

pub struct Fp<'a, 'm> {
    l: Lex<'a>,
    m: &'m Module,
    regs: HashMap<String, u32>,
    regn: Vec<String>,
    blocks: HashMap<String, u32>,
}

fn parse_ty(l: &mut Lex, m: &HashMap<String, Ty>) -> Result<Ty, String> {
    let t = match l.adv() {
        K::W(w) => ty_word(&w).ok_or_else(|| format!("type? {}", w))?,
        K::P('[') => {
            let n = l.int()? as u64;
            if !l.eatw("x") {
                return Err("x".into());
            }
            let t = parse_ty(l, m)?;
            l.exp(']')?;
            Ty::Arr(n, Rc::new(t))
        }
        K::P('{') => {
            let mut v = vec![];
            if !l.is('}') {
                loop {
                    v.push(parse_ty(l, m)?);
                    if !l.eat(',') {
                        break;
                    }
                }
            }
            l.exp('}')?;
            Ty::Struct(Rc::new(v), false)
        }
        K::P('<') => {
            if l.eat('{') {
                let mut v = vec![];
                if !l.is('}') {
                    loop {
                        v.push(parse_ty(l, m)?);
                        if !l.eat(',') {
                            break;
                        }
                    }
                }
                l.exp('}')?;
                l.exp('>')?;
                Ty::Struct(Rc::new(v), true)
            } else {
                let n = l.int()? as u32;
                if !l.eatw("x") {
                    return Err("x".into());
                }
                let t = parse_ty(l, m)?;
                l.exp('>')?;
                Ty::Vec(n, Rc::new(t))
            }
        }
        K::Local(n) => m.get(&n).cloned().unwrap_or(Ty::Other),
        t => return Err(format!("type? {:?}", t)),
    };
    // function types: "ty (args)" / "ty (args)*"
    if l.is('(') {
        // only in callee position: the caller handles it
    }
    Ok(t)
}

fn cast_of(w: &str) -> Option<Cast> {
    Some(match w {
        "trunc" => Cast::Trunc,
        "zext" => Cast::Zext,
        "sext" => Cast::Sext,
        "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Cast::Bitcast,
        "fptoui" => Cast::FpToUi,
        "fptosi" => Cast::FpToSi,
        "uitofp" => Cast::UiToFp,
        "sitofp" => Cast::SiToFp,
        "fptrunc" => Cast::FpTrunc,
        "fpext" => Cast::FpExt,
        _ => return None,
    })
}
fn bop_of(w: &str) -> Option<Bop> {
    Some(match w {
        "add" => Bop::Add,
        "sub" => Bop::Sub,
        "mul" => Bop::Mul,
        "udiv" => Bop::UDiv,
        "sdiv" => Bop::SDiv,
        "urem" => Bop::URem,
        "srem" => Bop::SRem,
        "shl" => Bop::Shl,
        "lshr" => Bop::LShr,
        "ashr" => Bop::AShr,
        "and" => Bop::And,
        "or" => Bop::Or,
        "xor" => Bop::Xor,
        "fadd" => Bop::FAdd,
        "fsub" => Bop::FSub,
        "fmul" => Bop::FMul,
        "fdiv" => Bop::FDiv,
        "frem" => Bop::FRem,
        _ => return None,
    })
}

fn fl_bits(s: &str, ty: &Ty) -> u128 {
    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
    } else {
        s.parse().unwrap_or(0.0)
    };
    match ty {
        Ty::F32 => (d as f32).to_bits() as u128,
        _ => d.to_bits() as u128,
    }
}

fn parse_const(l: &mut Lex, m: &HashMap<String, Ty>, ty: &Ty) -> Result<C, String> {
    match l.adv() {
        K::Int(v) => Ok(C::Int(match ty {
            Ty::Int(w) => v & crate::term::mask((*w).min(128) as u8),
            _ => v,
        })),
        K::Fl(s) => Ok(C::Int(fl_bits(&s, ty))),
        K::Glob(g) => Ok(C::Glob(g)),
        K::CStr(s) => Ok(C::Str(Rc::new(s))),
        K::P('[') => {
            let v = parse_clist(l, m, ']')?;
            Ok(C::Agg(v))
        }
        K::P('{') => {
            let v = parse_clist(l, m, '}')?;
            Ok(C::Agg(v))
        }
        K::P('<') => {
            if l.eat('{') {
                let v = parse_clist(l, m, '}')?;
                l.exp('>')?;
                Ok(C::Agg(v))
            } else {
                let v = parse_clist(l, m, '>')?;
                Ok(C::Agg(v))
            }
        }
        K::W(w) => match w.as_str() {
            "null" | "none" => Ok(C::Int(0)),
            "true" => Ok(C::Int(1)),
            "false" => Ok(C::Int(0)),
            "undef" | "poison" => Ok(C::Undef),
            "zeroinitializer" => Ok(C::Zero),
            "splat" => {
                l.exp('(')?;
                let t = parse_ty(l, m)?;
                let c = parse_const(l, m, &t)?;
                l.exp(')')?;
                Ok(C::Splat(Box::new((t, c))))
            }
            "getelementptr" => {
                while matches!(&l.tok, K::W(x) if x == "inbounds" || x == "nuw" || x == "nusw" || x == "inrange") {
                    if l.isw("inrange") {
                        l.adv();
                        if l.is('(') {
                            l.skip_parens();
                        }
                        continue;
                    }
                    l.adv();
                }
                l.exp('(')?;
                let bt = parse_ty(l, m)?;
                l.exp(',')?;
                let pt = parse_ty(l, m)?;
                let pc = parse_const(l, m, &pt)?;
                let mut ix = vec![];
                while l.eat(',') {
                    let t = parse_ty(l, m)?;
                    let c = parse_const(l, m, &t)?;
                    ix.push((t, c));
                }
                l.exp(')')?;
                Ok(C::Gep(bt, Box::new((pt, pc)), ix))
            }
            _ => {
                if let Some(k) = cast_of(&w) {
                    while matches!(&l.tok, K::W(x) if x == "nuw" || x == "nsw" || x == "nneg") {
                        l.adv();
                    }
                    l.exp('(')?;
                    let t = parse_ty(l, m)?;
                    let c = parse_const(l, m, &t)?;
                    l.eatw("to");
                    let t2 = parse_ty(l, m)?;
                    l.exp(')')?;
                    return Ok(C::Cast(k, t, Box::new(c), t2));
                }
                if let Some(b) = bop_of(&w) {
                    while matches!(&l.tok, K::W(x) if x == "nuw" || x == "nsw") {
                        l.adv();
                    }
                    l.exp('(')?;
                    let t = parse_ty(l, m)?;
                    let c = parse_const(l, m, &t)?;
                    l.exp(',')?;
                    let t2 = parse_ty(l, m)?;
                    let c2 = parse_const(l, m, &t2)?;
                    l.exp(')')?;
                    return Ok(C::Bin(b, t, Box::new(c), Box::new(c2)));
                }
                Err(format!("const? {}", w))
            }
        },
        t => Err(format!("const? {:?}", t)),
    }
}

fn parse_clist(l: &mut Lex, m: &HashMap<String, Ty>, end: char) -> Result<Vec<(Ty, C)>, String> {
    let mut v = vec![];
    if !l.is(end) {
        loop {
            let t = parse_ty(l, m)?;
            let c = parse_const(l, m, &t)?;
            v.push((t, c));
            if !l.eat(',') {
                break;
            }
        }
    }
    l.exp(end)?;
    Ok(v)
}

impl<'a, 'm> Fp<'a, 'm> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        self.regn.push(n.to_string());
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn ty(&mut self) -> Result<Ty, String> {
        parse_ty(&mut self.l, &self.m.types)
    }
    fn val(&mut self, ty: &Ty) -> Result<O, String> {
        if let K::Local(n) = self.l.tok.clone() {
            self.l.adv();
            return Ok(O::R(self.reg(&n)));
        }
        let c = parse_const(&mut self.l, &self.m.types, ty)?;
        Ok(O::K(Rc::new((ty.clone(), c))))
    }
    fn tyval(&mut self) -> Result<(Ty, O), String> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn lbl(&mut self) -> Result<u32, String> {
        if !self.l.eatw("label") {
            return Err("label".into());
        }
        match self.l.adv() {
            K::Local(n) => Ok(self.blk(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.l.tok.clone() {
                K::W(w) => {
                    if CONSTW.contains(&w.as_str()) {
                        return;
                    }
                    if ty_word(&w).is_some() {
                        return;
                    }
                    self.l.adv();
                    if self.l.is('(') {
                        self.l.skip_parens();
                    } else if w == "align" || w == "cc" {
                        self.l.adv();
                    }
                }
                K::Attr(_) => {
                    self.l.adv();
                }
                K::Str(_) => {
                    self.l.adv();
                    if self.l.eat('=') {
                        self.l.adv();
                    }
                }
                _ => return,
            }
        }
    }

    fn gep(&mut self) -> Result<I, String> {
        while matches!(&self.l.tok, K::W(x) if x == "inbounds" || x == "nuw" || x == "nusw") {
            self.l.adv();
        }
        let bt = self.ty()?;
        self.l.exp(',')?;
        let (pt, p) = self.tyval()?;
        if pt != Ty::Ptr {
            return Ok(I::Unsupported("vector gep".into()));
        }
        let mut off: i64 = 0;
        let mut dy = vec![];
        let mut cur = bt.clone();
        let mut first = true;
        while self.l.eat(',') {
            if matches!(self.l.tok, K::Meta(_)) {
                break;
            }
            let (t, v) = self.tyval()?;
            let (scale, next);
            if first {
                scale = bt.alloc_size() as i64;
                next = cur.clone();
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let O::K(k) = &v else { return Err("struct gep".into()) };
                        let C::Int(i) = k.1 else { return Err("struct gep".into()) };
                        let (o, ft) = cur.field(i as u64);
                        off += o as i64;
                        cur = ft;
                        continue;
                    }
                    Ty::Arr(_, e) => {
                        scale = e.alloc_size() as i64;
                        next = (**e).clone();
                    }
                    Ty::Vec(_, e) => {
                        scale = e.alloc_size() as i64;
                        next = (**e).clone();
                    }
                    _ => return Err("gep type".into()),
                }
            }
            first = false;
            match &v {
                O::K(k) => match &k.1 {
                    C::Int(i) => off = off.wrapping_add((crate::term::sx(*i, t.scalar_w()) as i64).wrapping_mul(scale)),
                    C::Undef | C::Zero => {}
                    _ => dy.push((v, t.scalar_w(), scale)),
                },
                _ => dy.push((v, t.scalar_w(), scale)),
            }
            cur = next;
        }
        Ok(I::Gep(p, off, dy))
    }

    fn call(&mut self, invoke: bool) -> Result<I, String> {
        self.skip_attrs();
        let ret = self.ty()?;
        // optional function type
        if self.l.is('(') {
            self.l.skip_parens();
        }
        let f = match self.l.tok.clone() {
            K::Glob(g) => {
                self.l.adv();
                Callee::F(g)
            }
            K::Local(n) => {
                self.l.adv();
                Callee::P(O::R(self.reg(&n)))
            }
            K::W(w) if w == "asm" => {
                self.l.adv();
                while matches!(&self.l.tok, K::W(_)) {
                    self.l.adv();
                }
                let K::Str(s) = self.l.adv() else { return Err("asm".into()) };
                self.l.exp(',')?;
                self.l.adv();
                Callee::Asm(String::from_utf8_lossy(&s).into_owned())
            }
            _ => {
                let c = self.val(&Ty::Ptr)?;
                Callee::P(c)
            }
        };
        self.l.exp('(')?;
        let mut args = vec![];
        if !self.l.is(')') {
            loop {
                if self.l.isw("metadata") {
                    // skip metadata argument
                    self.l.adv();
                    let mut d = 0;
                    loop {
                        match &self.l.tok {
                            K::P('(') => d += 1,
                            K::P(')') if d == 0 => break,
                            K::P(')') => d -= 1,
                            K::P(',') if d == 0 => break,
                            K::End => break,
                            _ => {}
                        }
                        self.l.adv();
                    }
                    args.push((Ty::Other, O::K(Rc::new((Ty::Other, C::Undef)))));
                } else {
                    let t = self.ty()?;
                    self.skip_attrs();
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if !self.l.eat(',') {
                    break;
                }
            }
        }
        self.l.exp(')')?;
        self.skip_attrs();
        if self.l.is('[') {
            // operand bundles
            while !self.l.eat(']') {
                self.l.adv();
            }
        }
        let mut next = None;
        if invoke {
            if !self.l.eatw("to") {
                return Err("to".into());
            }
            next = Some(self.lbl()?);
            if !self.l.eatw("unwind") {
                return Err("unwind".into());
            }
            self.lbl()?;
        }
        Ok(I::Call { f, args, ret, next })
    }

    fn idxs(&mut self) -> Result<Vec<u32>, String> {
        let mut v = vec![];
        while self.l.eat(',') {
            if let K::Int(i) = self.l.tok {
                v.push(i as u32);
                self.l.adv();
            } else {
                break;
            }
        }
        Ok(v)
    }

    fn instr(&mut self) -> Result<I, String> {
        let K::W(mut op) = self.l.adv() else { return Err("opcode".into()) };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            let K::W(o) = self.l.adv() else { return Err("opcode".into()) };
            op = o;
        }
        const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        if let Some(b) = bop_of(&op) {
            while matches!(&self.l.tok, K::W(x) if FLAGS.contains(&x.as_str())) {
                self.l.adv();
            }
            let (t, a) = self.tyval()?;
            self.l.exp(',')?;
            let c = self.val(&t)?;
            return Ok(I::Bin(b, t, a, c));
        }
        if let Some(k) = cast_of(&op) {
            while matches!(&self.l.tok, K::W(x) if FLAGS.contains(&x.as_str())) {
                self.l.adv();
            }
            let (t, a) = self.tyval()?;
            if !self.l.eatw("to") {
                return Err("to".into());
            }
            let t2 = self.ty()?;
            return Ok(I::Cast(k, t, a, t2));
        }
        Ok(match op.as_str() {
            "icmp" => {
                while matches!(&self.l.tok, K::W(x) if FLAGS.contains(&x.as_str())) {
                    self.l.adv();
                }
                let K::W(p) = self.l.adv() else { return Err("pred".into()) };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("pred".into()),
                };
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let b = self.val(&t)?;
                I::Icmp(p, t, a, b)
            }
            "fcmp" => {
                while matches!(&self.l.tok, K::W(x) if FLAGS.contains(&x.as_str())) {
                    self.l.adv();
                }
                let K::W(p) = self.l.adv() else { return Err("pred".into()) };
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let b = self.val(&t)?;
                I::Fcmp(p, t, a, b)
            }
            "fneg" => {
                while matches!(&self.l.tok, K::W(x) if FLAGS.contains(&x.as_str())) {
                    self.l.adv();
                }
                let (t, a) = self.tyval()?;
                I::Fneg(t, a)
            }
            "getelementptr" => self.gep()?,
            "load" => {
                while matches!(&self.l.tok, K::W(x) if x == "atomic" || x == "volatile") {
                    self.l.adv();
                }
                let t = self.ty()?;
                self.l.exp(',')?;
                let (_, p) = self.tyval()?;
                I::Load(t, p)
            }
            "store" => {
                while matches!(&self.l.tok, K::W(x) if x == "atomic" || x == "volatile") {
                    self.l.adv();
                }
                let (t, v) = self.tyval()?;
                self.l.exp(',')?;
                let (_, p) = self.tyval()?;
                I::Store(t, v, p)
            }
            "alloca" => {
                while matches!(&self.l.tok, K::W(x) if x == "inalloca") {
                    self.l.adv();
                }
                let t = self.ty()?;
                let mut cnt = None;
                if self.l.is(',') {
                    self.l.adv();
                    if !self.l.isw("align") && !matches!(self.l.tok, K::Meta(_)) {
                        let (t, v) = self.tyval()?;
                        cnt = Some((v, t.scalar_w()));
                    }
                }
                I::Alloca(t.alloc_size(), cnt)
            }
            "select" => {
                while matches!(&self.l.tok, K::W(x) if FLAGS.contains(&x.as_str())) {
                    self.l.adv();
                }
                let (ct, c) = self.tyval()?;
                self.l.exp(',')?;
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let (_, b) = self.tyval()?;
                I::Select(ct, c, t, a, b)
            }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "extractvalue" => {
                let (_, a) = self.tyval()?;
                let v = self.idxs()?;
                I::ExtractValue(a, v)
            }
            "insertvalue" => {
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let (t2, b) = self.tyval()?;
                let v = self.idxs()?;
                I::InsertValue(t, a, t2, b, v)
            }
            "extractelement" => {
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let (_, i) = self.tyval()?;
                I::ExtractElement(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let (_, b) = self.tyval()?;
                self.l.exp(',')?;
                let (_, i) = self.tyval()?;
                I::InsertElement(t, a, b, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let (_, b) = self.tyval()?;
                self.l.exp(',')?;
                let mt = self.ty()?;
                let mc = parse_const(&mut self.l, &self.m.types, &mt)?;
                let n = mt.nfields() as usize;
                let mv = match mc {
                    C::Zero => vec![0; n],
                    C::Undef => vec![-1; n],
                    C::Agg(v) => v
                        .iter()
                        .map(|x| match x.1 {
                            C::Int(i) => i as i32,
                            _ => -1,
                        })
                        .collect(),
                    C::Splat(b) => match b.1 {
                        C::Int(i) => vec![i as i32; n],
                        _ => vec![-1; n],
                    },
                    _ => return Err("mask".into()),
                };
                I::Shuffle(t, a, b, mv)
            }
            "atomicrmw" => {
                self.l.eatw("volatile");
                let K::W(o) = self.l.adv() else { return Err("rmw".into()) };
                let (_, p) = self.tyval()?;
                self.l.exp(',')?;
                let (t, v) = self.tyval()?;
                I::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                while matches!(&self.l.tok, K::W(x) if x == "weak" || x == "volatile") {
                    self.l.adv();
                }
                let (_, p) = self.tyval()?;
                self.l.exp(',')?;
                let (t, a) = self.tyval()?;
                self.l.exp(',')?;
                let (_, b) = self.tyval()?;
                I::CmpXchg(t, p, a, b)
            }
            "fence" => I::Nop,
            "freeze" => {
                let (_, a) = self.tyval()?;
                I::Freeze(a)
            }
            "br" => {
                if self.l.isw("label") {
                    I::Br(self.lbl()?)
                } else {
                    let (_, c) = self.tyval()?;
                    self.l.exp(',')?;
                    let a = self.lbl()?;
                    self.l.exp(',')?;
                    let b = self.lbl()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.l.exp(',')?;
                let d = self.lbl()?;
                self.l.exp('[')?;
                let mut cs = vec![];
                while !self.l.eat(']') {
                    let ct = self.ty()?;
                    let C::Int(c) = parse_const(&mut self.l, &self.m.types, &ct)? else { return Err("case".into()) };
                    self.l.exp(',')?;
                    let b = self.lbl()?;
                    cs.push((c, b));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret(t, None)
                } else {
                    let v = self.val(&t)?;
                    I::Ret(t, Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "landingpad" | "cleanupret" | "catchswitch" => I::Unsupported(op),
            _ => I::Unsupported(op),
        })
    }
}

fn find_dbg(line: &str) -> u32 {
    if let Some(p) = line.rfind("!dbg !") {
        let s = &line[p + 6..];
        let e = s.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(s.len());
        s[..e].parse().unwrap_or(u32::MAX)
    } else {
        u32::MAX
    }
}

impl Module {
    pub fn load(text: String) -> Result<Module, String> {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            globals: HashMap::new(),
            global_order: vec![],
            func_pos: HashMap::new(),
            func_order: vec![],
            declared: HashMap::new(),
            aliases: HashMap::new(),
            attrs_noreturn: HashMap::new(),
            meta: HashMap::new(),
        };
        let t: &str = &text;
        let mut p = 0;
        let mut glines = vec![];
        while p < t.len() {
            let e = t[p..].find('\n').map(|x| p + x).unwrap_or(t.len());
            let line = &t[p..e];
            let b = line.as_bytes();
            if b.is_empty() {
            } else if b[0] == b'@' {
                glines.push((p, e));
            } else if b[0] == b'!' {
                let q = line[1..].bytes().position(|c| !c.is_ascii_digit()).unwrap_or(0);
                if q > 0 {
                    if let Ok(n) = line[1..1 + q].parse::<u32>() {
                        m.meta.insert(n, (p, e));
                    }
                }
            } else if line.starts_with("define ") {
                let end = t[p..].find("\n}").map(|x| p + x + 2).ok_or("unterminated define")?;
                let at = line.find('@').ok_or("define name")?;
                let mut lx = Lex::new(&line[at..]);
                let K::Glob(n) = lx.adv() else { return Err("define name".into()) };
                m.func_order.push(n.clone());
                m.func_pos.insert(n, (p, end));
                p = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                if let Some(at) = line.find('@') {
                    let mut lx = Lex::new(&line[at..]);
                    if let K::Glob(n) = lx.adv() {
                        m.func_order.push(n.clone());
                        m.declared.insert(n, ());
                    }
                }
            } else if line.starts_with("attributes #") {
                let s = &line["attributes #".len()..];
                let q = s.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(0);
                if let Ok(n) = s[..q].parse::<u32>() {
                    let nr = s.split(|c: char| c.is_whitespace()).any(|w| w == "noreturn");
                    m.attrs_noreturn.insert(n, nr);
                }
            } else if b[0] == b'%' && line.contains(" = type ") {
                let mut lx = Lex::new(line);
                let K::Local(n) = lx.adv() else { return Err("type".into()) };
                lx.adv(); // =
                lx.adv(); // type
                if let Ok(ty) = parse_ty(&mut lx, &m.types) {
                    m.types.insert(n, ty);
                }
            }
            p = e + 1;
        }
        for (p, e) in glines {
            let line = &t[p..e];
            let mut l = Lex::new(line);
            let K::Glob(n) = l.adv() else { return Err("global".into()) };
            l.adv(); // =
            let mut external = false;
            let mut tls = false;
            let mut ok = true;
            let constant;
            loop {
                match l.adv() {
                    K::W(w) => match w.as_str() {
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => {
                            constant = false;
                            break;
                        }
                        "alias" => {
                            let _ = parse_ty(&mut l, &m.types);
                            if l.is('(') {
                                l.skip_parens();
                            }
                            l.eat(',');
                            l.adv(); // ptr
                            if let K::Glob(g) = l.adv() {
                                m.aliases.insert(n.clone(), g);
                            }
                            ok = false;
                            constant = false;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "thread_local" => {
                            tls = true;
                            if l.is('(') {
                                l.skip_parens();
                            }
                        }
                        _ => {
                            if l.is('(') {
                                l.skip_parens();
                            }
                        }
                    },
                    K::End => {
                        ok = false;
                        constant = false;
                        break;
                    }
                    _ => {}
                }
            }
            if !ok {
                continue;
            }
            let ty = parse_ty(&mut l, &m.types).map_err(|e| format!("{}: {}", n, e))?;
            let init = if external { None } else { Some(parse_const(&mut l, &m.types, &ty).map_err(|e| format!("{}: {}", n, e))?) };
            m.global_order.push(n.clone());
            m.globals.insert(n, Global { ty, init, constant, tls });
        }
        Ok(m)
    }

    pub fn header_noreturn(&self, name: &str) -> bool {
        let Some(&(s, e)) = self.func_pos.get(name) else { return false };
        let text = &self.text[s..e];
        let mut x = &text[..text.find('\n').unwrap_or(text.len())];
        let mut noreturn = false;
        while let Some(i) = x.find(" #") {
            x = &x[i + 2..];
            let q = x.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(x.len());
            if let Ok(n) = x[..q].parse::<u32>() {
                noreturn |= self.attrs_noreturn.get(&n).copied().unwrap_or(false);
            }
        }
        noreturn
    }

    pub fn parse_func(&self, name: &str) -> Result<Func, String> {
        let (s, e) = *self.func_pos.get(name).ok_or("no such function")?;
        let text = &self.text[s..e];
        let hdr_end = text.find("{\n").ok_or("hdr")?;
        let hdr = &text[..hdr_end];
        let mut fp = Fp { l: Lex::new(hdr), m: self, regs: HashMap::new(), regn: vec![], blocks: HashMap::new() };
        // find the parameter list: after @name
        loop {
            match fp.l.adv() {
                K::Glob(n) if n == name => break,
                K::End => return Err("hdr name".into()),
                _ => {}
            }
        }
        fp.l.exp('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !fp.l.eat(')') {
            if fp.l.tok == K::Ell {
                fp.l.adv();
                continue;
            }
            let t = fp.ty()?;
            fp.skip_attrs();
            if let K::Local(n) = fp.l.tok.clone() {
                fp.l.adv();
                fp.reg(&n);
            } else {
                let n = format!("{}", unnamed);
                fp.reg(&n);
            }
            unnamed += 1;
            params.push(t);
            fp.l.eat(',');
        }
        let noreturn = self.header_noreturn(name);
        let dbg = find_dbg(hdr);
        // body
        let body = &text[hdr_end + 2..text.len() - 1];
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        let mut first: Option<u32> = None;
        // statements spanning several lines are joined first
        let mut joined: Vec<std::borrow::Cow<str>> = vec![];
        {
            let raw: Vec<&str> = body.split('\n').collect();
            let mut i = 0;
            while i < raw.len() {
                let line = raw[i];
                let tr = line.trim_start();
                i += 1;
                let sw = line.starts_with(' ') && tr.starts_with("switch ") && tr.trim_end().ends_with('[');
                let inv = line.starts_with(' ') && tr.contains("invoke ") && !tr.contains(" unwind label ");
                if sw || inv {
                    let mut o = line.to_string();
                    while i < raw.len() {
                        o.push(' ');
                        o.push_str(raw[i]);
                        let done = if sw { raw[i].trim_start().starts_with(']') } else { raw[i].contains("unwind label") };
                        i += 1;
                        if done {
                            break;
                        }
                    }
                    joined.push(o.into());
                } else {
                    joined.push(line.into());
                }
            }
        }
        let lines: Vec<&str> = joined.iter().map(|l| l.as_ref()).collect();
        let mut i = 0;
        while i < lines.len() {
            let line = lines[i];
            i += 1;
            let tr = line.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let mut l2 = line;
                if let Some(c) = find_label_end(line) {
                    l2 = &line[..c];
                }
                let nm = if l2.starts_with('"') { String::from_utf8_lossy(&unhex(l2[1..l2.len() - 1].as_bytes())).into_owned() } else { l2.to_string() };
                let b = fp.blk(&nm);
                blocks.insert(b, Block { phis: vec![], ins: vec![] });
                cur = Some(b);
                first = first.or(cur);
                continue;
            }
            let b = match cur {
                Some(b) => b,
                None => {
                    // implicit entry block: its number is the count of unnamed params
                    let b = fp.blk(&format!("{}", unnamed));
                    blocks.insert(b, Block { phis: vec![], ins: vec![] });
                    cur = Some(b);
                    first = first.or(cur);
                    b
                }
            };
            if tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ") {
                continue;
            }
            let text: &str = tr;
            let dbg = find_dbg(text);
            fp.l = Lex::new(text);
            let mut d = u32::MAX;
            if let K::Local(n) = fp.l.tok.clone() {
                fp.l.adv();
                fp.l.exp('=')?;
                d = fp.reg(&n);
            }
            if fp.l.isw("phi") {
                fp.l.adv();
                let t = fp.ty()?;
                let mut inc = vec![];
                loop {
                    fp.l.exp('[')?;
                    let v = fp.val(&t)?;
                    fp.l.exp(',')?;
                    let K::Local(n) = fp.l.adv() else { return Err("phi".into()) };
                    let pb = fp.blk(&n);
                    fp.l.exp(']')?;
                    inc.push((pb, v));
                    if fp.l.is(',') {
                        fp.l.adv();
                        if !fp.l.is('[') {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                blocks.get_mut(&b).unwrap().phis.push((d, t, inc));
                continue;
            }
            let ins = match fp.instr() {
                Ok(x) => x,
                Err(e) => I::Unsupported(format!("{} in: {}", e, text)),
            };
            blocks.get_mut(&b).unwrap().ins.push(Ins { d, i: ins, dbg });
        }
        let nb = fp.blocks.len() as u32;
        let mut bv = vec![];
        for j in 0..nb {
            bv.push(blocks.remove(&j).unwrap_or(Block { phis: vec![], ins: vec![] }));
        }
        if first != Some(0) {
            return Err(format!("entry block is {:?}", first));
        }
        Ok(Func { name: name.to_string(), params, nregs: fp.regs.len() as u32, blocks: bv, noreturn, dbg, regs: fp.regn })
    }

    /// name of the DISubprogram (linkage name) a debug location belongs to
    pub fn dbg_subprograms(&self, loc: u32) -> Vec<String> {
        let mut out = vec![];
        let mut loc = loc;
        for _ in 0..64 {
            let Some(&(s, e)) = self.meta.get(&loc) else { break };
            let l = &self.text[s..e];
            if l.contains("!DILocation(") {
                if let Some(sc) = field_ref(l, "scope: !") {
                    if let Some(n) = self.scope_name(sc) {
                        out.push(n);
                    }
                }
                match field_ref(l, "inlinedAt: !") {
                    Some(n) => loc = n,
                    None => break,
                }
            } else {
                if let Some(n) = self.scope_name(loc) {
                    out.push(n);
                }
                break;
            }
        }
        out
    }
    fn scope_name(&self, mut sc: u32) -> Option<String> {
        for _ in 0..64 {
            let &(s, e) = self.meta.get(&sc)?;
            let l = &self.text[s..e];
            if l.contains("!DISubprogram(") {
                let p = l.find("linkageName: \"").map(|p| p + 14).or_else(|| l.find("name: \"").map(|p| p + 7))?;
                let q = l[p..].find('"')?;
                return Some(l[p..p + q].to_string());
            }
            sc = field_ref(l, "scope: !")?;
        }
        None
    }
}

fn field_ref(l: &str, key: &str) -> Option<u32> {
    let p = l.find(key)? + key.len();
    let q = l[p..].bytes().position(|c| !c.is_ascii_digit()).unwrap_or(l.len() - p);
    l[p..p + q].parse().ok()
}

fn find_label_end(line: &str) -> Option<usize> {
    if line.starts_with('"') {
        line[1..].find("\":").map(|x| x + 2)
    } else {
        line.find(':')
    }
}
