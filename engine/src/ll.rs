//! Parser for textual LLVM IR (as produced by llvm-dis / rustc --emit=llvm-ir).
//! Functions are indexed up front and decoded lazily, the first time they are called.

use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128),
    Zero,
    Agg(Vec<Cv>),
    Splat(Box<Cv>),
    Bytes(Vec<u8>),
    Global(Rc<str>),
    /// base + offset expression
    AddOff(Box<Cv>, i64),
    Bin(&'static str, Box<Cv>, Box<Cv>),
    Trunc(Box<Cv>, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Opd {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opd),
    /// true: an empty template (nothing but a comment) whose result is its first operand
    Asm(bool),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub d: Option<u32>,
    pub ret: TyId,
    pub callee: Callee,
    pub args: Vec<(Opd, TyId)>,
    /// for invoke: normal destination edge
    pub normal: Option<u32>,
    /// resolved callee cache: filled by the interpreter
    pub cache: std::cell::Cell<u32>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, ty: TyId, w: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, ty: TyId, w: u32, d: u32, a: Opd, b: Opd },
    Fcmp { p: u8, ty: TyId, d: u32, a: Opd, b: Opd },
    Cast { op: CastOp, from: TyId, to: TyId, d: u32, a: Opd },
    FNeg { ty: TyId, d: u32, a: Opd },
    Load { ty: TyId, d: u32, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { d: u32, size: u64, count: Option<(Opd, u32)> },
    Select { d: u32, ty: TyId, cty: TyId, c: Opd, a: Opd, b: Opd },
    Call(Box<Call>),
    ExtractValue { d: u32, a: Opd, path: Vec<u32> },
    InsertValue { d: u32, ty: TyId, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElement { d: u32, ty: TyId, a: Opd, i: Opd },
    InsertElement { d: u32, ty: TyId, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: TyId, a: Opd, b: Opd, mask: Vec<u32> },
    AtomicRmw { d: u32, op: u8, ty: TyId, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: TyId, p: Opd, cmp: Opd, new: Opd },
    Nop,
    Copy { d: u32, a: Opd },
    LandingPad { d: u32 },
    // terminators
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { c: Opd, w: u32, cases: Vec<(u128, u32)>, def: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
}

#[derive(Debug, Clone, Default)]
pub struct Edge {
    pub target: u32,
    pub copies: Vec<(u32, Opd)>,
}

pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub nparams: u32,
    pub ret: TyId,
    pub blocks: Vec<Vec<I>>,
    pub edges: Vec<Edge>,
    pub consts: Vec<(TyId, Cv)>,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: TyId,
    pub init: Option<Cv>,
    pub constant: bool,
    pub tls: bool,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

pub struct Layout {
    pub size: u64,
    pub align: u64,
}

impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, i: TyId) -> &Ty {
        &self.tys[i as usize]
    }
    pub fn layout(&self, i: TyId) -> Layout {
        match self.get(i) {
            Ty::Void | Ty::Other => Layout { size: 0, align: 1 },
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                Layout { size: (b + a - 1) / a * a, align: a }
            }
            Ty::F32 => Layout { size: 4, align: 4 },
            Ty::F64 => Layout { size: 8, align: 8 },
            Ty::Ptr => Layout { size: 8, align: 8 },
            Ty::Arr(n, t) => {
                let l = self.layout(*t);
                Layout { size: l.size * n, align: l.align }
            }
            Ty::Vec(n, t) => {
                let bits = self.bits(*t) as u64 * *n as u64;
                let b = (bits + 7) / 8;
                let a = b.next_power_of_two();
                Layout { size: (b + a - 1) / a * a, align: a }
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs {
                    let l = self.layout(*f);
                    if !*packed {
                        off = (off + l.align - 1) / l.align * l.align;
                        al = al.max(l.align);
                    }
                    off += l.size;
                }
                Layout { size: (off + al - 1) / al * al, align: al }
            }
        }
    }
    /// store size in bytes of a scalar
    pub fn store_size(&self, i: TyId) -> u64 {
        match self.get(i) {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (self.bits(*t) as u64 * *n as u64 + 7) / 8,
            _ => self.layout(i).size,
        }
    }
    pub fn bits(&self, i: TyId) -> u32 {
        match self.get(i) {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, t) => n * self.bits(*t),
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn field(&self, i: TyId, k: u32) -> (u64, TyId) {
        match self.get(i) {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, f) in fs.iter().enumerate() {
                    let l = self.layout(*f);
                    if !*packed {
                        off = (off + l.align - 1) / l.align * l.align;
                    }
                    if j as u32 == k {
                        return (off, *f);
                    }
                    off += l.size;
                }
                panic!("field");
            }
            Ty::Arr(_, t) => (self.layout(*t).size * k as u64, *t),
            Ty::Vec(_, t) => (self.bits(*t) as u64 / 8 * k as u64, *t),
            t => panic!("field of {:?}", t),
        }
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta(&'a str),
    Num(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    P(u8),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    tok: Tok<'a>,
    start: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, tok: Tok::Eof, start: 0 };
        l.next();
        l
    }
    fn sl(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn next(&mut self) -> Tok<'a> {
        let old = self.tok;
        let s = self.s;
        loop {
            while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\n' || s[self.i] == b'\t' || s[self.i] == b'\r') {
                self.i += 1;
            }
            if self.i < s.len() && s[self.i] == b';' {
                while self.i < s.len() && s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        self.start = self.i;
        if self.i >= s.len() {
            self.tok = Tok::Eof;
            return old;
        }
        let c = s[self.i];
        let st = self.i;
        self.tok = match c {
            b'%' | b'@' | b'!' | b'$' | b'#' => {
                self.i += 1;
                if self.i < s.len() && s[self.i] == b'"' {
                    self.i += 1;
                    let a = self.i;
                    while s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    let t = self.sl(a, self.i - 1);
                    match c {
                        b'%' => Tok::Local(t),
                        b'@' => Tok::Global(t),
                        _ => Tok::Meta(t),
                    }
                } else {
                    let a = self.i;
                    while self.i < s.len() && is_id(s[self.i]) {
                        self.i += 1;
                    }
                    let t = self.sl(a, self.i);
                    match c {
                        b'%' => Tok::Local(t),
                        b'@' => Tok::Global(t),
                        _ => Tok::Meta(t),
                    }
                }
            }
            b'"' => {
                self.i += 1;
                while s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                Tok::Str(self.sl(st + 1, self.i - 1))
            }
            b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => {
                self.i += 2;
                while s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                Tok::CStr(self.sl(st + 2, self.i - 1))
            }
            c if c.is_ascii_digit() || (c == b'-' && self.i + 1 < s.len() && s[self.i + 1].is_ascii_digit()) => {
                self.i += 1;
                while self.i < s.len() && (is_id(s[self.i]) || s[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(self.sl(st, self.i))
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                while self.i < s.len() && is_id(s[self.i]) {
                    self.i += 1;
                }
                Tok::Id(self.sl(st, self.i))
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        };
        old
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.tok == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn eat_id(&mut self, w: &str) -> bool {
        if self.tok == Tok::Id(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.start.saturating_sub(200);
        let b = (self.start + 200).min(self.s.len());
        panic!(
            "ll parse error: {} at tok {:?} near >>>{}<<<HERE>>>{}<<<",
            m,
            self.tok,
            self.sl(a, self.start),
            self.sl(self.start, b)
        );
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => self.fail("eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else if b[i] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub struct Module {
    pub text: &'static str,
    pub types: Types,
    pub globals: Vec<Global>,
    pub func_src: Vec<(Rc<str>, usize, usize)>, // name, start, end of define
    pub func_idx: HashMap<Rc<str>, u32>,
    pub declares: Vec<Rc<str>>,
    pub aliases: Vec<(Rc<str>, Rc<str>)>,
}

fn parse_num(s: &str) -> i128 {
    s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("num {}", s)))
}

struct P<'a, 't> {
    l: Lex<'a>,
    t: &'t mut Types,
}

impl<'a, 't> P<'a, 't> {
    fn is_type_start(&self) -> bool {
        match self.l.tok {
            Tok::Id(s) => {
                matches!(s, "void" | "ptr" | "double" | "float" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "opaque")
                    || (s.len() > 1 && s.as_bytes()[0] == b'i' && s.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.l.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if self.l.tok == Tok::Id("addrspace") {
                    self.l.next();
                    self.l.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Id("double") => Ty::F64,
            Tok::Id("float") => Ty::F32,
            Tok::Id("label") | Tok::Id("metadata") | Tok::Id("token") | Tok::Id("half") | Tok::Id("x86_fp80") | Tok::Id("opaque") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| self.l.fail("type"))),
            Tok::Local(n) => return *self.t.named.get(n).unwrap_or_else(|| panic!("named type {}", n)),
            Tok::P(b'[') => {
                let n = self.num() as u64;
                self.x();
                let t = self.ty();
                self.l.expect(b']');
                Ty::Arr(n, t)
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !self.l.eat(b'}') {
                    v.push(self.ty());
                    self.l.eat(b',');
                }
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if self.l.eat(b'{') {
                    let mut v = vec![];
                    while !self.l.eat(b'}') {
                        v.push(self.ty());
                        self.l.eat(b',');
                    }
                    self.l.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num() as u32;
                    self.x();
                    let t = self.ty();
                    self.l.expect(b'>');
                    Ty::Vec(n, t)
                }
            }
            _ => self.l.fail("type"),
        };
        self.t.mk(t)
    }
    fn x(&mut self) {
        if !self.l.eat_id("x") {
            self.l.fail("x");
        }
    }
    fn num(&mut self) -> i128 {
        match self.l.next() {
            Tok::Num(s) => parse_num(s),
            _ => self.l.fail("number"),
        }
    }
    fn mask(&self, ty: TyId, v: i128) -> u128 {
        match self.t.get(ty) {
            Ty::Int(w) if *w < 128 => (v as u128) & ((1u128 << w) - 1),
            _ => v as u128,
        }
    }
    fn float_bits(&self, ty: TyId, s: &str) -> u128 {
        let d: f64 = if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| self.l.fail("float hex")))
        } else if let Some(h) = s.strip_prefix("f0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else {
            s.parse().unwrap_or_else(|_| self.l.fail("float"))
        };
        match self.t.get(ty) {
            Ty::F32 => (d as f32).to_bits() as u128,
            _ => d.to_bits() as u128,
        }
    }
    /// parse a constant of given type (token is not a Local)
    fn cv(&mut self, ty: TyId) -> Cv {
        match self.l.next() {
            Tok::Num(s) => match self.t.get(ty) {
                Ty::F64 | Ty::F32 => Cv::Int(self.float_bits(ty, s)),
                _ => {
                    if s.starts_with("0x") {
                        Cv::Int(self.float_bits(ty, s))
                    } else {
                        Cv::Int(self.mask(ty, parse_num(s)))
                    }
                }
            },
            Tok::Id(s) if s.starts_with("f0x") => Cv::Int(u128::from_str_radix(&s[3..], 16).unwrap()),
            Tok::P(c @ (b'+' | b'-')) => {
                let sign = if c == b'-' { 1u128 } else { 0 };
                let (inf, q) = match self.t.get(ty) {
                    Ty::F32 => (0x7f80_0000u128 | sign << 31, 0x40_0000u128),
                    _ => (0x7ff0_0000_0000_0000u128 | sign << 63, 0x8_0000_0000_0000u128),
                };
                match self.l.next() {
                    Tok::Id("inf") => Cv::Int(inf),
                    Tok::Id("qnan") => Cv::Int(inf | q),
                    Tok::Id(x @ ("nan" | "snan")) => {
                        self.l.expect(b'(');
                        let v = match self.l.next() {
                            Tok::Num(n) => u128::from_str_radix(n.trim_start_matches("0x"), 16).unwrap(),
                            _ => self.l.fail("nan payload"),
                        };
                        self.l.expect(b')');
                        Cv::Int(inf | v | if x == "nan" { q } else { 0 })
                    }
                    _ => self.l.fail("float"),
                }
            }
            Tok::Id("true") => Cv::Int(1),
            Tok::Id("false") => Cv::Int(0),
            Tok::Id("null") | Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") | Tok::Id("none") => Cv::Zero,
            Tok::CStr(s) => Cv::Bytes(unescape(s)),
            Tok::Global(g) => Cv::Global(g.into()),
            Tok::Id("splat") => {
                self.l.expect(b'(');
                let t = self.ty();
                let c = self.cv(t);
                self.l.expect(b')');
                Cv::Splat(Box::new(c))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !self.l.eat(b'}') {
                    let t = self.ty();
                    v.push(self.cv(t));
                    self.l.eat(b',');
                }
                Cv::Agg(v)
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                while !self.l.eat(b']') {
                    let t = self.ty();
                    v.push(self.cv(t));
                    self.l.eat(b',');
                }
                Cv::Agg(v)
            }
            Tok::P(b'<') => {
                let packed = self.l.eat(b'{');
                let mut v = vec![];
                loop {
                    if packed && self.l.eat(b'}') {
                        self.l.expect(b'>');
                        break;
                    }
                    if !packed && self.l.eat(b'>') {
                        break;
                    }
                    let t = self.ty();
                    v.push(self.cv(t));
                    self.l.eat(b',');
                }
                Cv::Agg(v)
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(s) = self.l.tok {
                    if matches!(s, "inbounds" | "nuw" | "nusw" | "inrange") {
                        self.l.next();
                        if s == "inrange" {
                            self.l.skip_parens();
                        }
                    } else {
                        break;
                    }
                }
                self.l.expect(b'(');
                let sty = self.ty();
                self.l.expect(b',');
                let pt = self.ty();
                let base = self.cv(pt);
                let mut off = 0i64;
                let mut first = true;
                let mut cur = sty;
                while self.l.eat(b',') {
                    if self.l.eat_id("inrange") {}
                    let t = self.ty();
                    let v = match self.cv(t) {
                        Cv::Int(v) => v,
                        Cv::Zero => 0,
                        _ => self.l.fail("gep const idx"),
                    };
                    let w = self.t.bits(t);
                    let sv = sext(v, w) as i64;
                    if first {
                        off += sv * self.t.layout(sty).size as i64;
                        first = false;
                    } else {
                        let (o, f) = self.t.field_dyn(cur, sv);
                        off += o;
                        cur = f;
                    }
                }
                self.l.expect(b')');
                Cv::AddOff(Box::new(base), off)
            }
            Tok::Id(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "ptrtoaddr")) => {
                self.l.expect(b'(');
                let t = self.ty();
                let c = self.cv(t);
                if !self.l.eat_id("to") {
                    self.l.fail("to");
                }
                let t2 = self.ty();
                self.l.expect(b')');
                if op == "trunc" {
                    let w = self.t.bits(t2);
                    Cv::Trunc(Box::new(c), w)
                } else {
                    c
                }
            }
            Tok::Id(op @ ("add" | "sub" | "mul" | "and" | "or" | "xor")) => {
                while let Tok::Id(_) = self.l.tok {
                    self.l.next();
                }
                self.l.expect(b'(');
                let t = self.ty();
                let a = self.cv(t);
                self.l.expect(b',');
                let t = self.ty();
                let b = self.cv(t);
                self.l.expect(b')');
                let op = match op {
                    "add" => "add",
                    "sub" => "sub",
                    "mul" => "mul",
                    "and" => "and",
                    "or" => "or",
                    _ => "xor",
                };
                Cv::Bin(op, Box::new(a), Box::new(b))
            }
            Tok::Id("dso_local_equivalent") | Tok::Id("no_cfi") => self.cv(ty),
            _ => self.l.fail("constant"),
        }
    }
    /// skip parameter attributes up to a value
    fn skip_attrs(&mut self) {
        loop {
            match self.l.tok {
                Tok::Id(s) => {
                    if matches!(
                        s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "trunc" | "none" | "xor" | "mul" | "ptrtoaddr" | "asm"
                    ) {
                        return;
                    }
                    self.l.next();
                    if s == "align" {
                        if let Tok::Num(_) = self.l.tok {
                            self.l.next();
                            continue;
                        }
                    }
                    if self.l.tok == Tok::P(b'(') {
                        self.l.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    self.l.next();
                    if self.l.eat(b'=') {
                        self.l.next();
                    }
                }
                Tok::Meta(_) => {
                    self.l.next();
                }
                _ => return,
            }
        }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

impl Types {
    fn field_dyn(&self, t: TyId, k: i64) -> (i64, TyId) {
        match self.get(t) {
            Ty::Arr(_, e) => (self.layout(*e).size as i64 * k, *e),
            Ty::Vec(_, e) => (self.bits(*e) as i64 / 8 * k, *e),
            _ => {
                let (o, f) = self.field(t, k as u32);
                (o as i64, f)
            }
        }
    }
}

pub fn load(text: &'static str) -> Module {
    let mut m = Module {
        text,
        types: Types::default(),
        globals: vec![],
        func_src: vec![],
        func_idx: HashMap::new(),
        declares: vec![],
        aliases: vec![],
    };
    let b = text.as_bytes();
    let mut i = 0;
    let mut pending_types: Vec<&'static str> = vec![];
    let mut pending_globals: Vec<&'static str> = vec![];
    while i < b.len() {
        let e = match memchr(b'\n', &b[i..]) {
            Some(k) => i + k,
            None => b.len(),
        };
        let line = &text[i..e];
        if line.starts_with("define ") {
            // find end: "\n}\n"
            let mut j = e;
            loop {
                let k = memchr(b'\n', &b[j + 1..]).map(|k| j + 1 + k).unwrap_or(b.len());
                if b[j + 1] == b'}' {
                    j = k;
                    break;
                }
                j = k;
            }
            let at = line.find('@').expect("define name");
            let name = ident_after(line, at);
            let name: Rc<str> = name.into();
            m.func_idx.insert(name.clone(), m.func_src.len() as u32);
            m.func_src.push((name, i, j));
            i = j + 1;
            continue;
        } else if line.starts_with('@') {
            pending_globals.push(line);
        } else if line.starts_with("declare ") {
            if let Some(at) = line.find('@') {
                m.declares.push(ident_after(line, at).into());
            }
        } else if line.starts_with('%') {
            pending_types.push(line);
        }
        i = e + 1;
    }
    for line in pending_types {
        // %name = type ...
        let eq = line.find(" = type ").expect("type");
        let name = line[1..eq].trim_matches('"').to_string();
        let mut p = P { l: Lex::new(&line[eq + 8..]), t: &mut m.types };
        if p.l.tok == Tok::Id("opaque") {
            let id = p.t.mk(Ty::Other);
            m.types.named.insert(name, id);
        } else {
            let t = p.ty();
            m.types.named.insert(name, t);
        }
    }
    for line in pending_globals {
        let mut p = P { l: Lex::new(line), t: &mut m.types };
        let name: Rc<str> = match p.l.next() {
            Tok::Global(g) => g.into(),
            _ => p.l.fail("global"),
        };
        p.l.expect(b'=');
        let mut tls = false;
        let mut ext = false;
        let mut constant = false;
        let mut alias = false;
        loop {
            match p.l.next() {
                Tok::Id("global") => break,
                Tok::Id("constant") => {
                    constant = true;
                    break;
                }
                Tok::Id("alias") => {
                    alias = true;
                    break;
                }
                Tok::Id("thread_local") => {
                    tls = true;
                    if p.l.tok == Tok::P(b'(') {
                        p.l.skip_parens();
                    }
                }
                Tok::Id("external") | Tok::Id("extern_weak") => ext = true,
                Tok::Eof => p.l.fail("global"),
                _ => {}
            }
        }
        let ty = p.ty();
        if alias {
            p.l.expect(b',');
            let t = p.ty();
            if let Cv::Global(g) = p.cv(t) {
                m.aliases.push((name, g));
            }
            continue;
        }
        let init = if ext || p.l.tok == Tok::P(b',') || p.l.tok == Tok::Eof { None } else { Some(p.cv(ty)) };
        m.globals.push(Global { name, ty, init, constant, tls });
    }
    m
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|&x| x == c)
}

fn ident_after(line: &str, at: usize) -> &str {
    let r = &line[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return &q[..q.find('"').unwrap()];
    }
    let e = r.bytes().position(|c| !is_id(c)).unwrap_or(r.len());
    &r[..e]
}

struct FB<'a> {
    regs: HashMap<&'a str, u32>,
    nregs: u32,
    labels: HashMap<&'a str, u32>,
    consts: Vec<(TyId, Cv)>,
    kmap: HashMap<(TyId, u128), u32>,
    // edges pending: (from block, to label)
    edges: Vec<(u32, &'a str)>,
    phis: Vec<Vec<(u32, Vec<(Opd, &'a str)>)>>,
}

impl<'a> FB<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn k(&mut self, t: TyId, c: Cv) -> Opd {
        if let Cv::Int(v) = c {
            if let Some(&i) = self.kmap.get(&(t, v)) {
                return Opd::K(i);
            }
            self.kmap.insert((t, v), self.consts.len() as u32);
        }
        self.consts.push((t, c));
        Opd::K(self.consts.len() as u32 - 1)
    }
    fn edge(&mut self, from: u32, to: &'a str) -> u32 {
        self.edges.push((from, to));
        self.edges.len() as u32 - 1
    }
}

fn val<'a>(p: &mut P<'a, '_>, fb: &mut FB<'a>, ty: TyId) -> Opd {
    if let Tok::Local(n) = p.l.tok {
        p.l.next();
        return Opd::R(fb.reg(n));
    }
    let c = p.cv(ty);
    fb.k(ty, c)
}

fn label<'a>(p: &mut P<'a, '_>) -> &'a str {
    if !p.l.eat_id("label") {
        p.l.fail("label");
    }
    match p.l.next() {
        Tok::Local(n) => n,
        _ => p.l.fail("label name"),
    }
}

pub fn parse_func(text: &'static str, types: &mut Types, name: Rc<str>, start: usize, end: usize) -> Func {
    let src = &text[start..end];
    // header line up to first '{' at end of line
    let hdr_end = {
        let nl = src.find('\n').unwrap();
        nl
    };
    let hdr = &src[..hdr_end];
    let mut fb = FB { regs: HashMap::new(), nregs: 0, labels: HashMap::new(), consts: vec![], kmap: HashMap::new(), edges: vec![], phis: vec![] };
    let mut p = P { l: Lex::new(hdr), t: types };
    p.l.next(); // define
    loop {
        if let Tok::Local(_) = p.l.tok {
            break;
        }
        if p.is_type_start() {
            break;
        }
        match p.l.next() {
            Tok::Id(s) => {
                if p.l.tok == Tok::P(b'(') {
                    p.l.skip_parens();
                } else if s == "align" || s == "cc" {
                    if let Tok::Num(_) = p.l.tok {
                        p.l.next();
                    }
                }
            }
            Tok::Num(_) => {}
            _ => p.l.fail("define"),
        }
    }
    let ret = p.ty();
    match p.l.next() {
        Tok::Global(_) => {}
        _ => p.l.fail("func name"),
    }
    p.l.expect(b'(');
    let mut nparams = 0;
    let mut unnamed = 0;
    while !p.l.eat(b')') {
        if p.l.eat(b'.') || p.l.tok == Tok::Id("...") {
            p.l.next();
            continue;
        }
        let _t = p.ty();
        p.skip_attrs();
        if let Tok::Local(n) = p.l.tok {
            p.l.next();
            fb.reg(n);
            if n.parse::<u32>().is_ok() {
                unnamed += 1;
            }
        } else {
            let s: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
            fb.reg(s);
            unnamed += 1;
        }
        nparams += 1;
        p.l.eat(b',');
    }
    // body
    let body = &src[hdr_end + 1..];
    let mut lines: Vec<&'static str> = vec![];
    {
        let mut it = body.lines().peekable();
        let mut st: Option<usize> = None;
        let base = body.as_ptr() as usize;
        while let Some(l) = it.next() {
            // join continuation lines: switch (ends with '['), landingpad clauses, invoke "to label"
            let off = l.as_ptr() as usize - base;
            let s = *st.get_or_insert(off);
            let cont = match it.peek() {
                Some(n) => {
                    let nt = n.trim_start();
                    (n.starts_with("    ") && !n.trim_start().is_empty()) || nt.starts_with("to label") || nt == "]" || nt.starts_with("],")
                }
                None => false,
            };
            if cont {
                continue;
            }
            let full = &body[s..off + l.len()];
            st = None;
            if full.trim().is_empty() {
                continue;
            }
            lines.push(full);
        }
    }
    // collect labels
    let mut blk_lines: Vec<Vec<&'static str>> = vec![];
    for l in &lines {
        let c = l.as_bytes()[0];
        if c == b'}' {
            break;
        }
        if c != b' ' && c != b'\t' {
            // label
            let colon = l.find(':').unwrap();
            let n = l[..colon].trim_matches('"');
            fb.labels.insert(n, blk_lines.len() as u32);
            blk_lines.push(vec![]);
        } else {
            if blk_lines.is_empty() {
                let s: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                fb.labels.insert(s, 0);
                blk_lines.push(vec![]);
            }
            blk_lines.last_mut().unwrap().push(l);
        }
    }
    let mut blocks = vec![];
    for (bi, ls) in blk_lines.iter().enumerate() {
        fb.phis.push(vec![]);
        let mut v = Vec::with_capacity(ls.len());
        for l in ls {
            let t = l.trim_start();
            if t.starts_with("#dbg") {
                continue;
            }
            let mut p = P { l: Lex::new(l), t: types };
            parse_instr(&mut p, &mut fb, bi as u32, &mut v);
        }
        blocks.push(v);
    }
    // resolve edges
    let mut label_of: Vec<&str> = vec![""; blocks.len()];
    for (n, b) in &fb.labels {
        label_of[*b as usize] = n;
    }
    let mut edges = vec![];
    for (from, to) in &fb.edges {
        let t = *fb.labels.get(to).unwrap_or_else(|| panic!("label {} in {}", to, name));
        let fl = label_of[*from as usize];
        let mut copies = vec![];
        for (d, inc) in &fb.phis[t as usize] {
            let o = inc.iter().find(|(_, l)| *l == fl).unwrap_or_else(|| panic!("phi pred {} in {}", fl, name)).0;
            if o != Opd::R(*d) {
                copies.push((*d, o));
            }
        }
        edges.push(Edge { target: t, copies });
    }
    Func { name, nregs: fb.nregs, nparams, ret, blocks, edges, consts: fb.consts }
}

fn binop(s: &str) -> Option<BinOp> {
    Some(match s {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "fadd" => BinOp::FAdd,
        "fsub" => BinOp::FSub,
        "fmul" => BinOp::FMul,
        "fdiv" => BinOp::FDiv,
        "frem" => BinOp::FRem,
        _ => return None,
    })
}

fn castop(s: &str) -> Option<CastOp> {
    Some(match s {
        "trunc" => CastOp::Trunc,
        "zext" => CastOp::ZExt,
        "sext" => CastOp::SExt,
        "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => CastOp::BitCast,
        "fptrunc" => CastOp::FPTrunc,
        "fpext" => CastOp::FPExt,
        "fptoui" => CastOp::FPToUI,
        "fptosi" => CastOp::FPToSI,
        "uitofp" => CastOp::UIToFP,
        "sitofp" => CastOp::SIToFP,
        _ => return None,
    })
}

fn parse_instr<'a>(p: &mut P<'a, '_>, fb: &mut FB<'a>, bi: u32, out: &mut Vec<I>) {
    let mut d: Option<&'a str> = None;
    if let Tok::Local(n) = p.l.tok {
        p.l.next();
        p.l.expect(b'=');
        d = Some(n);
    }
    let mut op = match p.l.next() {
        Tok::Id(s) => s,
        _ => p.l.fail("opcode"),
    };
    while matches!(op, "tail" | "musttail" | "notail") {
        op = match p.l.next() {
            Tok::Id(s) => s,
            _ => p.l.fail("opcode"),
        };
    }
    macro_rules! dst {
        () => {
            fb.reg(d.unwrap())
        };
    }
    if let Some(b) = binop(op) {
        while let Tok::Id(s) = p.l.tok {
            if matches!(s, "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                p.l.next();
            } else {
                break;
            }
        }
        let ty = p.ty();
        let a = val(p, fb, ty);
        p.l.expect(b',');
        let c = val(p, fb, ty);
        let w = match p.t.get(ty) {
            Ty::Vec(_, t) => p.t.bits(*t),
            _ => p.t.bits(ty),
        };
        let d = dst!();
        out.push(I::Bin { op: b, ty, w, d, a, b: c });
        return;
    }
    if let Some(c) = castop(op) {
        while let Tok::Id(s) = p.l.tok {
            if matches!(s, "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                p.l.next();
            } else {
                break;
            }
        }
        let from = p.ty();
        let a = val(p, fb, from);
        if !p.l.eat_id("to") {
            p.l.fail("to");
        }
        let to = p.ty();
        let d = dst!();
        out.push(I::Cast { op: c, from, to, d, a });
        return;
    }
    match op {
        "ret" => {
            let ty = p.ty();
            if *p.t.get(ty) == Ty::Void {
                out.push(I::Ret(None));
            } else {
                let v = val(p, fb, ty);
                out.push(I::Ret(Some(v)));
            }
        }
        "br" => {
            if p.l.tok == Tok::Id("label") {
                let l = label(p);
                let e = fb.edge(bi, l);
                out.push(I::Br(e));
            } else {
                let ty = p.ty();
                let c = val(p, fb, ty);
                p.l.expect(b',');
                let t = label(p);
                p.l.expect(b',');
                let f = label(p);
                let t = fb.edge(bi, t);
                let f = fb.edge(bi, f);
                out.push(I::CondBr { c, t, f });
            }
        }
        "switch" => {
            let ty = p.ty();
            let c = val(p, fb, ty);
            p.l.expect(b',');
            let l = label(p);
            let def = fb.edge(bi, l);
            p.l.expect(b'[');
            let mut cases = vec![];
            while !p.l.eat(b']') {
                let t = p.ty();
                let v = match p.cv(t) {
                    Cv::Int(v) => v,
                    Cv::Zero => 0,
                    _ => p.l.fail("case"),
                };
                p.l.expect(b',');
                let l = label(p);
                let e = fb.edge(bi, l);
                cases.push((v, e));
            }
            let w = p.t.bits(ty);
            out.push(I::Switch { c, w, cases, def });
        }
        "unreachable" => out.push(I::Unreachable),
        "resume" => out.push(I::Resume),
        "fence" => out.push(I::Nop),
        "landingpad" => {
            let d = dst!();
            out.push(I::LandingPad { d });
        }
        "freeze" => {
            let ty = p.ty();
            let a = val(p, fb, ty);
            let d = dst!();
            out.push(I::Copy { d, a });
        }
        "fneg" => {
            while let Tok::Id(s) = p.l.tok {
                if matches!(s, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.l.next();
                } else {
                    break;
                }
            }
            let ty = p.ty();
            let a = val(p, fb, ty);
            let d = dst!();
            out.push(I::FNeg { ty, d, a });
        }
        "icmp" => {
            if p.l.tok == Tok::Id("samesign") {
                p.l.next();
            }
            let pr = match p.l.next() {
                Tok::Id(s) => match s {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => p.l.fail("pred"),
                },
                _ => p.l.fail("pred"),
            };
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let b = val(p, fb, ty);
            let w = match p.t.get(ty) {
                Ty::Vec(_, t) => p.t.bits(*t),
                _ => p.t.bits(ty),
            };
            let d = dst!();
            out.push(I::Icmp { p: pr, ty, w, d, a, b });
        }
        "fcmp" => {
            while let Tok::Id(s) = p.l.tok {
                if matches!(s, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.l.next();
                } else {
                    break;
                }
            }
            // encode as bitset: 1=eq 2=lt 4=gt 8=unordered
            let pr = match p.l.next() {
                Tok::Id(s) => match s {
                    "false" => 0,
                    "oeq" => 1,
                    "olt" => 2,
                    "ole" => 3,
                    "ogt" => 4,
                    "oge" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ult" => 10,
                    "ule" => 11,
                    "ugt" => 12,
                    "uge" => 13,
                    "une" => 14,
                    "true" => 15,
                    _ => p.l.fail("fpred"),
                },
                _ => p.l.fail("fpred"),
            };
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let b = val(p, fb, ty);
            let d = dst!();
            out.push(I::Fcmp { p: pr, ty, d, a, b });
        }
        "load" => {
            p.l.eat_id("atomic");
            p.l.eat_id("volatile");
            let ty = p.ty();
            p.l.expect(b',');
            let pt = p.ty();
            let a = val(p, fb, pt);
            let d = dst!();
            out.push(I::Load { ty, d, p: a });
        }
        "store" => {
            p.l.eat_id("atomic");
            p.l.eat_id("volatile");
            let ty = p.ty();
            let v = val(p, fb, ty);
            p.l.expect(b',');
            let pt = p.ty();
            let a = val(p, fb, pt);
            out.push(I::Store { ty, v, p: a });
        }
        "alloca" => {
            p.l.eat_id("inalloca");
            let ty = p.ty();
            let size = p.t.layout(ty).size;
            let mut count = None;
            if p.l.eat(b',') {
                if p.is_type_start() {
                    let t = p.ty();
                    let c = val(p, fb, t);
                    count = Some((c, p.t.bits(t)));
                }
            }
            let d = dst!();
            out.push(I::Alloca { d, size, count });
        }
        "getelementptr" => {
            while let Tok::Id(s) = p.l.tok {
                if matches!(s, "inbounds" | "nuw" | "nusw") {
                    p.l.next();
                } else {
                    break;
                }
            }
            let sty = p.ty();
            p.l.expect(b',');
            let pt = p.ty();
            let base = val(p, fb, pt);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = sty;
            let mut first = true;
            while p.l.eat(b',') {
                if let Tok::Meta(_) = p.l.tok {
                    break;
                }
                let t = p.ty();
                let v = val(p, fb, t);
                let w = p.t.bits(t);
                let kv = match v {
                    Opd::K(k) => match &fb.consts[k as usize].1 {
                        Cv::Int(x) => Some(sext(*x, w) as i64),
                        Cv::Zero => Some(0),
                        _ => None,
                    },
                    _ => None,
                };
                if first {
                    first = false;
                    let sz = p.t.layout(sty).size as i64;
                    match kv {
                        Some(k) => off += k.wrapping_mul(sz),
                        None => idx.push((v, w, sz)),
                    }
                } else {
                    match p.t.get(cur).clone() {
                        Ty::Struct(..) => {
                            let (o, f) = p.t.field(cur, kv.unwrap() as u32);
                            off += o as i64;
                            cur = f;
                        }
                        Ty::Arr(_, e) => {
                            let sz = p.t.layout(e).size as i64;
                            match kv {
                                Some(k) => off += k.wrapping_mul(sz),
                                None => idx.push((v, w, sz)),
                            }
                            cur = e;
                        }
                        _ => p.l.fail("gep into scalar"),
                    }
                }
            }
            let d = dst!();
            out.push(I::Gep { d, base, off, idx });
        }
        "select" => {
            while let Tok::Id(s) = p.l.tok {
                if matches!(s, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.l.next();
                } else {
                    break;
                }
            }
            let cty = p.ty();
            let c = val(p, fb, cty);
            p.l.expect(b',');
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let ty2 = p.ty();
            let b = val(p, fb, ty2);
            let d = dst!();
            out.push(I::Select { d, ty, cty, c, a, b });
        }
        "phi" => {
            while let Tok::Id(s) = p.l.tok {
                if matches!(s, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.l.next();
                } else {
                    break;
                }
            }
            let ty = p.ty();
            let mut inc = vec![];
            loop {
                p.l.expect(b'[');
                let v = val(p, fb, ty);
                p.l.expect(b',');
                let l = match p.l.next() {
                    Tok::Local(n) => n,
                    _ => p.l.fail("phi label"),
                };
                p.l.expect(b']');
                inc.push((v, l));
                if p.l.tok == Tok::P(b',') {
                    p.l.next();
                    if p.l.tok != Tok::P(b'[') {
                        break;
                    }
                } else {
                    break;
                }
            }
            let d = dst!();
            fb.phis[bi as usize].push((d, inc));
        }
        "extractvalue" => {
            let ty = p.ty();
            let a = val(p, fb, ty);
            let mut path = vec![];
            while p.l.eat(b',') {
                if let Tok::Num(s) = p.l.tok {
                    path.push(s.parse().unwrap());
                    p.l.next();
                } else {
                    break;
                }
            }
            let d = dst!();
            out.push(I::ExtractValue { d, a, path });
        }
        "insertvalue" => {
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let t = p.ty();
            let v = val(p, fb, t);
            let mut path = vec![];
            while p.l.eat(b',') {
                if let Tok::Num(s) = p.l.tok {
                    path.push(s.parse().unwrap());
                    p.l.next();
                } else {
                    break;
                }
            }
            let d = dst!();
            out.push(I::InsertValue { d, ty, a, v, path });
        }
        "extractelement" => {
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let t = p.ty();
            let i = val(p, fb, t);
            let d = dst!();
            out.push(I::ExtractElement { d, ty, a, i });
        }
        "insertelement" => {
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let t = p.ty();
            let v = val(p, fb, t);
            p.l.expect(b',');
            let t = p.ty();
            let i = val(p, fb, t);
            let d = dst!();
            out.push(I::InsertElement { d, ty, a, v, i });
        }
        "shufflevector" => {
            let ty = p.ty();
            let a = val(p, fb, ty);
            p.l.expect(b',');
            let t = p.ty();
            let b = val(p, fb, t);
            p.l.expect(b',');
            let mt = p.ty();
            let mc = p.cv(mt);
            let n = match p.t.get(mt) {
                Ty::Vec(n, _) => *n,
                _ => p.l.fail("mask"),
            };
            let mask = match mc {
                Cv::Zero => vec![0; n as usize],
                Cv::Splat(c) => vec![if let Cv::Int(v) = *c { v as u32 } else { 0 }; n as usize],
                Cv::Agg(v) => v.iter().map(|c| if let Cv::Int(v) = c { *v as u32 } else { 0 }).collect(),
                _ => p.l.fail("mask"),
            };
            let d = dst!();
            out.push(I::Shuffle { d, ty, a, b, mask });
        }
        "atomicrmw" => {
            p.l.eat_id("volatile");
            let o = match p.l.next() {
                Tok::Id(s) => match s {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 5,
                    "xor" => 6,
                    "max" => 7,
                    "min" => 8,
                    "umax" => 9,
                    "umin" => 10,
                    _ => p.l.fail("rmw op"),
                },
                _ => p.l.fail("rmw op"),
            };
            let pt = p.ty();
            let a = val(p, fb, pt);
            p.l.expect(b',');
            let ty = p.ty();
            let v = val(p, fb, ty);
            let d = fb.reg(d.unwrap_or("$dead"));
            out.push(I::AtomicRmw { d, op: o, ty, p: a, v });
        }
        "cmpxchg" => {
            p.l.eat_id("weak");
            p.l.eat_id("volatile");
            let pt = p.ty();
            let a = val(p, fb, pt);
            p.l.expect(b',');
            let ty = p.ty();
            let c = val(p, fb, ty);
            p.l.expect(b',');
            let t = p.ty();
            let n = val(p, fb, t);
            let d = fb.reg(d.unwrap_or("$dead"));
            out.push(I::CmpXchg { d, ty, p: a, cmp: c, new: n });
        }
        "call" | "invoke" => {
            // attributes / cc / ret attrs
            loop {
                if p.is_type_start() {
                    break;
                }
                match p.l.next() {
                    Tok::Id(s) => {
                        if p.l.tok == Tok::P(b'(') {
                            p.l.skip_parens();
                        } else if s == "align" || s == "cc" {
                            if let Tok::Num(_) = p.l.tok {
                                p.l.next();
                            }
                        }
                    }
                    Tok::Num(_) | Tok::Meta(_) => {}
                    _ => p.l.fail("call"),
                }
            }
            let mut ret = p.ty();
            // function type given explicitly (varargs): "i32 (ptr, ...)"
            if p.l.tok == Tok::P(b'(') {
                p.l.skip_parens();
            }
            let _ = &mut ret;
            let callee = match p.l.tok {
                Tok::Global(g) => {
                    p.l.next();
                    Callee::Direct(g.into())
                }
                Tok::Local(n) => {
                    p.l.next();
                    Callee::Indirect(Opd::R(fb.reg(n)))
                }
                Tok::Id("asm") => {
                    let mut texts: Vec<String> = vec![];
                    while p.l.tok != Tok::P(b'(') {
                        if let Tok::Str(s) = &p.l.tok {
                            texts.push(s.to_string());
                        }
                        p.l.next();
                    }
                    let empty = |t: &str| t.is_empty() || (t.starts_with("/*") && t.find("*/") == Some(t.len() - 2));
                    let tied = |t: &str| {
                        let mut c = t.split(',');
                        c.next().map_or(false, |o| o.starts_with('=')) && c.next() == Some("0")
                    };
                    Callee::Asm(texts.len() == 2 && empty(&texts[0]) && tied(&texts[1]))
                }
                _ => {
                    let t = p.t.mk(Ty::Ptr);
                    let c = p.cv(t);
                    Callee::Indirect(fb.k(t, c))
                }
            };
            p.l.expect(b'(');
            let mut args = vec![];
            while !p.l.eat(b')') {
                let t = p.ty();
                if *p.t.get(t) == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut depth = 0;
                    loop {
                        match p.l.tok {
                            Tok::P(b'(') => depth += 1,
                            Tok::P(b')') if depth == 0 => break,
                            Tok::P(b')') => depth -= 1,
                            Tok::P(b',') if depth == 0 => break,
                            Tok::Eof => p.l.fail("meta arg"),
                            _ => {}
                        }
                        p.l.next();
                    }
                    p.l.eat(b',');
                    continue;
                }
                p.skip_attrs();
                let v = val(p, fb, t);
                args.push((v, t));
                p.l.eat(b',');
            }
            let mut normal = None;
            if op == "invoke" {
                while p.l.tok != Tok::Id("to") {
                    if p.l.tok == Tok::P(b'[') {
                        // operand bundle
                        while !p.l.eat(b']') {
                            p.l.next();
                        }
                        continue;
                    }
                    p.l.next();
                }
                p.l.next();
                let l = label(p);
                normal = Some(fb.edge(bi, l));
            }
            if let Callee::Direct(n) = &callee {
                if n.starts_with("llvm.")
                    && (n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.x86.sse2.pause"))
                {
                    if let Some(e) = normal {
                        out.push(I::Br(e));
                    }
                    if let Some(d) = d {
                        fb.reg(d);
                    }
                    return;
                }
            }
            let dd = d.map(|n| fb.reg(n));
            out.push(I::Call(Box::new(Call { d: dd, ret, callee, args, normal, cache: std::cell::Cell::new(0) })));
        }
        _ => p.l.fail(&format!("unknown op {}", op)),
    }
}
