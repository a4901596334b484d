//! Parser for the textual LLVM IR that rustc/opt emit (LLVM 23), restricted
//! to what optimised Rust code contains.  Function bodies are decoded lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Fn,
}

impl Ty {
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Half => 16,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Half | Ty::Float | Ty::Double)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => ((n * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field {}", i)
            }
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nfields"),
        }
    }
}

/// Constant, before symbols are resolved.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Splat(Box<(Ty, Const)>),
    Global(String),
    /// base, byte offset
    Gep(Box<Const>, i64),
    Add(Box<Const>, Box<Const>),
    Sub(Box<Const>, Box<Const>),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    /// index into the constant pool of the machine
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, Bit }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Unreachable,
    Bin(BinOp, Ty, Opd, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(CastOp, Ty, Opd, Ty),
    Alloca(u64, u64, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    /// base, constant offset, scaled indexes (operand, index width, scale)
    Gep(Opd, i64, Vec<(Opd, u32, u64)>),
    Select(Opd, Opd, Opd, Ty, bool),
    Freeze(Opd),
    Phi,
    Call { callee: Callee, id: u32, args: Vec<(Opd, Ty)>, byval: Vec<Option<u64>>, ret: Ty, normal: Option<u32> },
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd, u64),
    Shuffle(Opd, Opd, u64, Vec<i32>),
    CmpXchg(Opd, Ty, Opd, Opd),
    AtomicRmw(String, Opd, Ty, Opd),
    Nop,
    Landingpad,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<(u32, Ins)>, // (dst, ins); dst = u32::MAX when none
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
    pub ret: Ty,
    pub idx: u32,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // text range of the initialiser
    pub tls: bool,
    pub constant: bool,
    pub weak: bool,
}
pub struct FuncDef {
    pub name: String,
    pub text: Option<(usize, usize)>, // header start .. end
    pub weak: bool,
}

pub struct Module {
    pub src: String,
    pub globals: Vec<GlobalDef>,
    pub funcs: Vec<FuncDef>,
    pub gidx: HashMap<String, usize>,
    pub fidx: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub alias: HashMap<String, (usize, usize)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),      // word or number
    L(&'a str),      // %local
    G(&'a str),      // @global
    S(&'a str),      // "string" (raw)
    CS(&'a str),     // c"string"
    P(u8),           // punctuation
    M(&'a str),      // !meta
    A(&'a str),      // #attr
    NL,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    pub p: usize,
    end: usize,
    peeked: Option<(T<'a>, usize)>,
}

fn word_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+'
}

impl<'a> Lex<'a> {
    pub fn new(src: &'a str, start: usize, end: usize) -> Self {
        Lex { s: src.as_bytes(), src, p: start, end, peeked: None }
    }
    fn raw(&mut self) -> T<'a> {
        loop {
            if self.p >= self.end {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => {
                    while self.p < self.end && !(self.s[self.p] == b'*' && self.s.get(self.p + 1) == Some(&b'/')) {
                        self.p += 1
                    }
                    self.p += 2;
                }
                b'\n' => {
                    self.p += 1;
                    return T::NL;
                }
                b'%' | b'@' => {
                    self.p += 1;
                    let name = self.name();
                    return if c == b'%' { T::L(name) } else { T::G(name) };
                }
                b'!' | b'#' => {
                    self.p += 1;
                    let st = self.p;
                    while self.p < self.end && word_char(self.s[self.p]) {
                        self.p += 1
                    }
                    let t = &self.src[st..self.p];
                    return if c == b'!' { T::M(t) } else { T::A(t) };
                }
                b'"' => {
                    let st = self.p + 1;
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                    self.p += 1;
                    return T::S(&self.src[st..self.p - 1]);
                }
                b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                    let st = self.p + 2;
                    self.p += 2;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                    self.p += 1;
                    return T::CS(&self.src[st..self.p - 1]);
                }
                b'.' if self.s.get(self.p + 1) == Some(&b'.') => {
                    self.p += 3;
                    return T::W("...");
                }
                _ if word_char(c) => {
                    let st = self.p;
                    while self.p < self.end && word_char(self.s[self.p]) {
                        self.p += 1
                    }
                    return T::W(&self.src[st..self.p]);
                }
                _ => {
                    self.p += 1;
                    return T::P(c);
                }
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            self.p += 1;
            &self.src[st..self.p - 1]
        } else {
            let st = self.p;
            while self.p < self.end && word_char(self.s[self.p]) {
                self.p += 1
            }
            &self.src[st..self.p]
        }
    }
    pub fn next(&mut self) -> T<'a> {
        if let Some((t, p)) = self.peeked.take() {
            self.p = p;
            return t;
        }
        self.raw()
    }
    pub fn peek(&mut self) -> T<'a> {
        if let Some((t, _)) = self.peeked {
            return t;
        }
        let save = self.p;
        let t = self.raw();
        let after = self.p;
        self.p = save;
        self.peeked = Some((t, after));
        t
    }
    pub fn pos(&mut self) -> usize {
        self.p
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if let T::W(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != T::P(c) {
            self.fail(&format!("expected {:?}, got {:?}", c as char, t));
        }
    }
    pub fn skip_nl(&mut self) {
        while self.peek() == T::NL {
            self.next();
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(300);
        panic!("IR parse error: {} near ...{}<<<HERE", m, &self.src[a..self.p]);
    }
    /// Skip a balanced (...) group, the opening paren being next.
    pub fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => self.fail("eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

impl Module {
    pub fn parse(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            globals: vec![],
            funcs: vec![],
            gidx: HashMap::new(),
            fidx: HashMap::new(),
            types: HashMap::new(),
            alias: HashMap::new(),
        };
        let bytes = src.as_bytes();
        let mut pos = 0;
        let n = bytes.len();
        let mut tydefs = vec![];
        while pos < n {
            let eol = memchr(bytes, b'\n', pos);
            match bytes[pos] {
                b'%' => tydefs.push((pos, eol)),
                _ => {}
            }
            pos = eol + 1;
        }
        for (a, b) in tydefs {
            let mut lx = Lex::new(&src, a, b);
            let name = match lx.next() {
                T::L(x) => x.to_string(),
                _ => continue,
            };
            lx.expect(b'=');
            if lx.eatw("type") {
                if lx.eatw("opaque") {
                    m.types.insert(name, Ty::Void);
                } else {
                    let t = m.ty(&mut lx);
                    m.types.insert(name, t);
                }
            }
        }
        let mut pos = 0;
        while pos < n {
            let eol = memchr(bytes, b'\n', pos);
            if bytes[pos] == b'@' {
                m.global_line(&src, pos, eol);
            } else if src[pos..eol].starts_with("define ") {
                // find the end: a line that is exactly "}"
                let mut q = eol + 1;
                loop {
                    let e = memchr(bytes, b'\n', q);
                    if &src[q..e] == "}" {
                        pos = m.fn_line(&src, pos, e);
                        break;
                    }
                    q = e + 1;
                    if q >= n {
                        panic!("unterminated function");
                    }
                }
                continue;
            } else if src[pos..eol].starts_with("declare ") {
                m.decl_line(&src, pos, eol);
            }
            pos = eol + 1;
        }
        m.src = src;
        m
    }

    fn global_line(&mut self, src: &str, a: usize, b: usize) {
        let mut lx = Lex::new(src, a, b);
        let name = match lx.next() {
            T::G(x) => x.to_string(),
            _ => return,
        };
        lx.expect(b'=');
        let mut g = GlobalDef { name: name.clone(), ty: Ty::Void, init: None, tls: false, constant: false, weak: false };
        let mut external = false;
        loop {
            match lx.next() {
                T::W("global") => break,
                T::W("constant") => {
                    g.constant = true;
                    break;
                }
                T::W("alias") => {
                    // alias TY, ptr @x
                    let _ = self.ty(&mut lx);
                    lx.expect(b',');
                    let p = lx.pos();
                    self.alias.insert(name, (p, b));
                    return;
                }
                T::W("external") => external = true,
                T::W("extern_weak") => {
                    external = true;
                    g.weak = true
                }
                T::W("thread_local") => {
                    g.tls = true;
                    if lx.peek() == T::P(b'(') {
                        lx.skip_parens()
                    }
                }
                T::W("addrspace") => lx.skip_parens(),
                T::W(_) => {}
                t => panic!("global {}: {:?}", name, t),
            }
        }
        g.ty = self.ty(&mut lx);
        if !external {
            let st = lx.pos();
            g.init = Some((st, b));
        }
        self.gidx.insert(name, self.globals.len());
        self.globals.push(g);
    }

    fn head_name(src: &str, a: usize, b: usize) -> (String, bool) {
        let mut lx = Lex::new(src, a, b);
        let mut weak = false;
        loop {
            match lx.next() {
                T::G(x) => return (x.to_string(), weak),
                T::W("extern_weak") => weak = true,
                T::Eof => panic!("no name in {}", &src[a..b.min(a + 200)]),
                _ => {}
            }
        }
    }
    fn fn_line(&mut self, src: &str, a: usize, e: usize) -> usize {
        let (name, _) = Self::head_name(src, a, e);
        self.fidx.insert(name.clone(), self.funcs.len());
        self.funcs.push(FuncDef { name, text: Some((a, e)), weak: false });
        e + 1
    }
    fn decl_line(&mut self, src: &str, a: usize, e: usize) {
        let (name, weak) = Self::head_name(src, a, e);
        self.fidx.insert(name.clone(), self.funcs.len());
        self.funcs.push(FuncDef { name, text: None, weak });
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let t = lx.next();
        let ty = match t {
            T::W("void") => Ty::Void,
            T::W("ptr") => {
                if lx.eatw("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            T::W("half") => Ty::Half,
            T::W("float") => Ty::Float,
            T::W("double") => Ty::Double,
            T::W("label") => Ty::Label,
            T::W("metadata") => Ty::Meta,
            T::W("token") => Ty::Meta,
            T::W("fp128") => Ty::Int(128),
            T::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            T::L(n) => self.types.get(n).cloned().unwrap_or_else(|| lx.fail(&format!("type {}", n))),
            T::P(b'[') => {
                let n = self.num(lx);
                if !lx.eatw("x") {
                    lx.fail("x")
                }
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(e))
            }
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.tylist(lx, b'}');
                    lx.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num(lx);
                    if !lx.eatw("x") {
                        lx.fail("x")
                    }
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            T::P(b'{') => Ty::Struct(Rc::new(self.tylist(lx, b'}')), false),
            t => lx.fail(&format!("type: {:?}", t)),
        };
        ty
    }
    fn tylist(&self, lx: &mut Lex, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(close) {
                return v;
            }
            lx.expect(b',');
        }
    }
    fn num(&self, lx: &mut Lex) -> u64 {
        match lx.next() {
            T::W(w) => w.parse().unwrap_or_else(|_| lx.fail("number")),
            t => lx.fail(&format!("number: {:?}", t)),
        }
    }

    pub fn konst(&self, ty: &Ty, lx: &mut Lex) -> Const {
        match lx.next() {
            T::W("true") => Const::Int(1),
            T::W("false") => Const::Int(0),
            T::W("null") | T::W("undef") | T::W("poison") | T::W("zeroinitializer") | T::W("none") => Const::Zero,
            T::W("splat") => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let c = self.konst(&t, lx);
                lx.expect(b')');
                Const::Splat(Box::new((t, c)))
            }
            T::W("getelementptr") => {
                while let T::W(w) = lx.peek() {
                    match w {
                        "inbounds" | "nuw" | "nusw" => {
                            lx.next();
                        }
                        "inrange" => {
                            lx.next();
                            lx.skip_parens();
                        }
                        _ => break,
                    }
                }
                lx.expect(b'(');
                let sty = self.ty(lx);
                lx.expect(b',');
                let bt = self.ty(lx);
                let base = self.konst(&bt, lx);
                let mut off: i64 = 0;
                let mut cur = sty;
                let mut first = true;
                while lx.eat(b',') {
                    let t = self.ty(lx);
                    let c = self.konst(&t, lx);
                    let i = match c {
                        Const::Int(v) => sext128(v, t.bits()) as i64,
                        Const::Zero => 0,
                        _ => lx.fail("gep const idx"),
                    };
                    if first {
                        off += i * cur.size() as i64;
                        first = false;
                    } else {
                        let (o, t2) = cur.field_off(i as usize);
                        off += o as i64;
                        cur = t2;
                    }
                }
                lx.expect(b')');
                Const::Gep(Box::new(base), off)
            }
            T::W(w @ ("inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "trunc")) => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let c = self.konst(&t, lx);
                if !lx.eatw("to") {
                    lx.fail("to")
                }
                let t2 = self.ty(lx);
                lx.expect(b')');
                if w == "trunc" || (w == "ptrtoint" && t2.bits() < 64) {
                    Const::Trunc(Box::new(c), t2.bits())
                } else {
                    c
                }
            }
            T::W(w @ ("add" | "sub")) => {
                while let T::W("nuw" | "nsw") = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                let a = self.konst(&t, lx);
                lx.expect(b',');
                let t = self.ty(lx);
                let b = self.konst(&t, lx);
                lx.expect(b')');
                if w == "add" {
                    Const::Add(Box::new(a), Box::new(b))
                } else {
                    Const::Sub(Box::new(a), Box::new(b))
                }
            }
            T::W(w) => match ty {
                Ty::Int(n) => {
                    if w.starts_with("u0x") || w.starts_with("s0x") {
                        return Const::Int(mask128(u128::from_str_radix(&w[3..], 16).unwrap(), *n));
                    }
                    let v = if let Some(x) = w.strip_prefix('-') {
                        (x.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        w.parse::<u128>().unwrap_or_else(|_| lx.fail(&format!("int {}", w)))
                    };
                    Const::Int(mask128(v, *n))
                }
                Ty::Double | Ty::Float | Ty::Half => {
                    if let Some(h) = w.strip_prefix("f0x") {
                        return Const::Int(u128::from_str_radix(h, 16).unwrap());
                    }
                    let d: f64 = match w {
                        "inf" | "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "nan" | "+nan" | "+qnan" | "qnan" => f64::NAN,
                        "-nan" | "-qnan" => -f64::NAN,
                        _ => {
                            if let Some(h) = w.strip_prefix("0xH") {
                                return Const::Int(u128::from_str_radix(h, 16).unwrap());
                            }
                            if let Some(h) = w.strip_prefix("0x") {
                                f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| lx.fail("hexfloat")))
                            } else {
                                w.parse().unwrap_or_else(|_| lx.fail(&format!("float {}", w)))
                            }
                        }
                    };
                    match ty {
                        Ty::Double => Const::Int(d.to_bits() as u128),
                        Ty::Float => Const::Int((d as f32).to_bits() as u128),
                        _ => {
                            if d == 0.0 {
                                Const::Int(if d.is_sign_negative() { 0x8000 } else { 0 })
                            } else {
                                lx.fail("half literal")
                            }
                        }
                    }
                }
                _ => lx.fail(&format!("const {} of {:?}", w, ty)),
            },
            T::G(n) => Const::Global(n.to_string()),
            T::CS(s) => Const::Bytes(unescape(s)),
            T::P(b'[') => self.agg(lx, b']'),
            T::P(b'{') => self.agg(lx, b'}'),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let a = self.agg(lx, b'}');
                    lx.expect(b'>');
                    a
                } else {
                    self.agg(lx, b'>')
                }
            }
            t => lx.fail(&format!("const: {:?}", t)),
        }
    }
    fn agg(&self, lx: &mut Lex, close: u8) -> Const {
        let mut v = vec![];
        if lx.eat(close) {
            return Const::Agg(v);
        }
        loop {
            let t = self.ty(lx);
            let c = self.konst(&t, lx);
            v.push((t, c));
            if lx.eat(close) {
                return Const::Agg(v);
            }
            lx.expect(b',');
        }
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    b[from..].iter().position(|&x| x == c).map(|i| from + i).unwrap_or(b.len())
}
pub fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
