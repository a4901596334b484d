//! Function body decoding.
use crate::ir::*;
use std::collections::HashMap;

pub struct Dec<'a, 'm> {
    pub m: &'m Module,
    pub lx: Lex<'m>,
    pub regs: HashMap<&'m str, u32>,
    pub labels: HashMap<&'m str, u32>,
    pub resolve: &'a mut dyn FnMut(&Ty, &Const) -> Opd,
    pub call_id: &'a mut u32,
}

const NONE: u32 = u32::MAX;

impl<'a, 'm> Dec<'a, 'm> {
    fn reg(&mut self, n: &'m str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'m str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn opd(&mut self, ty: &Ty) -> Opd {
        match self.lx.peek() {
            T::L(n) => {
                self.lx.next();
                Opd::R(self.reg(n))
            }
            T::W("asm") => self.lx.fail("asm operand"),
            _ => {
                let c = self.m.konst(ty, &mut self.lx);
                (self.resolve)(ty, &c)
            }
        }
    }
    fn topd(&mut self) -> (Ty, Opd) {
        let t = self.m.ty(&mut self.lx);
        let o = self.opd(&t);
        (t, o)
    }
    fn lab(&mut self) -> u32 {
        if !self.lx.eatw("label") {
            self.lx.fail("label")
        }
        match self.lx.next() {
            T::L(n) => self.label(n),
            t => self.lx.fail(&format!("label {:?}", t)),
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while let T::W(w) = self.lx.peek() {
            if ws.contains(&w) {
                self.lx.next();
                if self.lx.peek() == T::P(b'(') {
                    self.lx.skip_parens();
                }
            } else {
                break;
            }
        }
    }
    fn eol(&mut self) {
        loop {
            match self.lx.next() {
                T::NL | T::Eof => return,
                _ => {}
            }
        }
    }

    pub fn run(mut self, text_name: &str, idx: u32) -> Func {
        // header: define ... RET @name(params) ... {
        let (ret, params) = self.header();
        let nparams = params.len() as u32;
        for p in params {
            self.reg(p);
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            match self.lx.peek() {
                T::NL => {
                    self.lx.next();
                }
                T::P(b'}') | T::Eof => break,
                T::W(w) if self.is_label() => {
                    self.lx.next();
                    self.lx.expect(b':');
                    if let Some(b) = cur.take() {
                        blocks.push(b)
                    }
                    let id = self.label(w);
                    cur = Some((id, Block::default()));
                    self.eol();
                }
                T::S(w) => {
                    self.lx.next();
                    self.lx.expect(b':');
                    if let Some(b) = cur.take() {
                        blocks.push(b)
                    }
                    let id = self.label(w);
                    cur = Some((id, Block::default()));
                    self.eol();
                }
                _ => {
                    if cur.is_none() {
                        // the entry block without an explicit label
                        let id = self.labels.len() as u32;
                        self.labels.insert("", id);
                        cur = Some((id, Block::default()));
                    }
                    self.ins(&mut cur.as_mut().unwrap().1);
                }
            }
        }
        if let Some(b) = cur.take() {
            blocks.push(b)
        }
        // entry must be block 0: remap so that order of appearance rules
        let n = self.labels.len();
        // a label never defined is the implicit number of the entry block
        let mut map = vec![0u32; n];
        for (i, (id, _)) in blocks.iter().enumerate() {
            map[*id as usize] = i as u32;
        }
        let mut out = vec![];
        for (_, mut b) in blocks {
            for p in b.phis.iter_mut() {
                for (l, _) in p.inc.iter_mut() {
                    *l = map[*l as usize];
                }
            }
            for (_, i) in b.ins.iter_mut() {
                match i {
                    Ins::Br(l) => *l = map[*l as usize],
                    Ins::CondBr(_, a, c) => {
                        *a = map[*a as usize];
                        *c = map[*c as usize];
                    }
                    Ins::Switch(_, _, d, cs) => {
                        *d = map[*d as usize];
                        for (_, l) in cs.iter_mut() {
                            *l = map[*l as usize];
                        }
                    }
                    Ins::Call { normal: Some(l), .. } => *l = map[*l as usize],
                    _ => {}
                }
            }
            out.push(b);
        }
        Func { name: text_name.to_string(), nregs: self.regs.len() as u32, nparams, blocks: out, ret, idx }
    }

    fn is_label(&mut self) -> bool {
        // a word immediately followed by ':'
        let save = self.lx.p;
        let s = self.m.src.as_bytes();
        let mut p = save;
        while s[p] == b' ' || s[p] == b'\t' {
            p += 1
        }
        while s[p].is_ascii_alphanumeric() || matches!(s[p], b'_' | b'.' | b'-' | b'$') {
            p += 1
        }
        s[p] == b':'
    }

    fn header(&mut self) -> (Ty, Vec<&'m str>) {
        if !self.lx.eatw("define") {
            self.lx.fail("define")
        }
        self.fn_attrs_before_type();
        let ret = self.m.ty(&mut self.lx);
        match self.lx.next() {
            T::G(_) => {}
            t => self.lx.fail(&format!("fn name {:?}", t)),
        }
        self.lx.expect(b'(');
        let mut params = vec![];
        if !self.lx.eat(b')') {
            loop {
                if self.lx.eatw("...") {
                    self.lx.expect(b')');
                    break;
                }
                let _t = self.m.ty(&mut self.lx);
                self.param_attrs();
                match self.lx.next() {
                    T::L(n) => params.push(n),
                    t => self.lx.fail(&format!("param {:?}", t)),
                }
                if self.lx.eat(b')') {
                    break;
                }
                self.lx.expect(b',');
            }
        }
        self.eol();
        (ret, params)
    }
    /// linkage, cconv and return attributes
    fn fn_attrs_before_type(&mut self) {
        loop {
            match self.lx.peek() {
                T::W(w) => {
                    if is_type_word(w) {
                        return;
                    }
                    self.lx.next();
                    if w == "align" || w == "cc" {
                        if self.lx.peek() != T::P(b'(') {
                            self.lx.next();
                            continue;
                        }
                    }
                    if self.lx.peek() == T::P(b'(') {
                        self.lx.skip_parens();
                    }
                }
                T::A(_) => {
                    self.lx.next();
                }
                _ => return,
            }
        }
    }
    /// Returns byval size if present.
    fn param_attrs(&mut self) -> Option<u64> {
        let mut byval = None;
        loop {
            match self.lx.peek() {
                T::W(w) if !matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "sub" | "add" | "trunc" | "ptrtoaddr" | "asm")
                    && !w.as_bytes()[0].is_ascii_digit() && w.as_bytes()[0] != b'-' && w.as_bytes()[0] != b'+'
                    && w != "f0x" && !w.starts_with("u0x") && !w.starts_with("s0x") && !w.starts_with("f0x") =>
                {
                    if w == "inf" || w == "nan" || w == "qnan" {
                        return byval;
                    }
                    self.lx.next();
                    if w == "align" {
                        if self.lx.peek() == T::P(b'(') {
                            self.lx.skip_parens();
                        } else {
                            self.lx.next();
                        }
                    } else if w == "byval" {
                        self.lx.expect(b'(');
                        let t = self.m.ty(&mut self.lx);
                        self.lx.expect(b')');
                        byval = Some(t.size());
                    } else if self.lx.peek() == T::P(b'(') {
                        self.lx.skip_parens();
                    }
                }
                T::S(_) => {
                    // "key"="value"
                    self.lx.next();
                    if self.lx.eat(b'=') {
                        self.lx.next();
                    }
                }
                _ => return byval,
            }
        }
    }

    fn ins(&mut self, b: &mut Block) {
        let mut dst = NONE;
        if let T::L(n) = self.lx.peek() {
            self.lx.next();
            self.lx.expect(b'=');
            dst = self.reg(n);
        }
        let op = match self.lx.next() {
            T::W(w) => w,
            t => self.lx.fail(&format!("opcode {:?}", t)),
        };
        let fm: &[&str] = &["nuw", "nsw", "exact", "disjoint", "samesign", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "inrange", "volatile", "atomic", "weak"];
        let i = match op {
            "ret" => {
                let t = self.m.ty(&mut self.lx);
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = self.opd(&t);
                    Ins::Ret(Some(o))
                }
            }
            "br" => {
                if let T::W("label") = self.lx.peek() {
                    Ins::Br(self.lab())
                } else {
                    let (_, c) = self.topd();
                    self.lx.expect(b',');
                    let a = self.lab();
                    self.lx.expect(b',');
                    let z = self.lab();
                    Ins::CondBr(c, a, z)
                }
            }
            "switch" => {
                let (t, c) = self.topd();
                self.lx.expect(b',');
                let d = self.lab();
                self.lx.expect(b'[');
                let mut cs = vec![];
                loop {
                    self.lx.skip_nl();
                    if self.lx.eat(b']') {
                        break;
                    }
                    let kt = self.m.ty(&mut self.lx);
                    let k = match self.m.konst(&kt, &mut self.lx) {
                        Const::Int(k) => k,
                        _ => self.lx.fail("switch case"),
                    };
                    self.lx.expect(b',');
                    cs.push((k, self.lab()));
                }
                Ins::Switch(c, t.bits(), d, cs)
            }
            "unreachable" => Ins::Unreachable,
            "resume" => {
                self.eol();
                b.ins.push((NONE, Ins::Unreachable));
                return;
            }
            "landingpad" => {
                let _t = self.m.ty(&mut self.lx);
                loop {
                    self.lx.skip_nl();
                    match self.lx.peek() {
                        T::W("cleanup") => {
                            self.lx.next();
                        }
                        T::W("catch") | T::W("filter") => {
                            self.lx.next();
                            let _ = self.topd();
                        }
                        _ => break,
                    }
                }
                b.ins.push((dst, Ins::Landingpad));
                return;
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words(fm);
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let z = self.opd(&t);
                let o = match op {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                    "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem,
                };
                Ins::Bin(o, t, a, z)
            }
            "fneg" => {
                self.skip_words(fm);
                let (t, a) = self.topd();
                Ins::FNeg(t, a)
            }
            "icmp" => {
                self.skip_words(fm);
                let p = match self.lx.next() {
                    T::W("eq") => Pred::Eq, T::W("ne") => Pred::Ne,
                    T::W("ugt") => Pred::Ugt, T::W("uge") => Pred::Uge, T::W("ult") => Pred::Ult, T::W("ule") => Pred::Ule,
                    T::W("sgt") => Pred::Sgt, T::W("sge") => Pred::Sge, T::W("slt") => Pred::Slt, T::W("sle") => Pred::Sle,
                    t => self.lx.fail(&format!("pred {:?}", t)),
                };
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let z = self.opd(&t);
                Ins::ICmp(p, t, a, z)
            }
            "fcmp" => {
                self.skip_words(fm);
                let p = match self.lx.next() {
                    T::W(w) => w.to_string(),
                    _ => self.lx.fail("fcmp"),
                };
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let z = self.opd(&t);
                Ins::FCmp(p, t, a, z)
            }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "bitcast" | "ptrtoint"
            | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_words(fm);
                let (t, a) = self.topd();
                if !self.lx.eatw("to") {
                    self.lx.fail("to")
                }
                let t2 = self.m.ty(&mut self.lx);
                let o = match op {
                    "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt,
                    "fptoui" => CastOp::FPToUI, "fptosi" => CastOp::FPToSI, "uitofp" => CastOp::UIToFP, "sitofp" => CastOp::SIToFP,
                    "fptrunc" => CastOp::FPTrunc, "fpext" => CastOp::FPExt,
                    "ptrtoint" | "ptrtoaddr" if t2.is_scalar() && t2.bits() < 64 => CastOp::Trunc,
                    "inttoptr" if t.is_scalar() && t.bits() < 64 => CastOp::ZExt,
                    _ => CastOp::Bit,
                };
                Ins::Cast(o, t, a, t2)
            }
            "alloca" => {
                self.skip_words(&["inalloca", "swifterror"]);
                let t = self.m.ty(&mut self.lx);
                let mut n = Opd::C(1);
                let mut al = t.align();
                while self.lx.eat(b',') {
                    if self.lx.eatw("align") {
                        if let T::W(w) = self.lx.next() {
                            al = w.parse().unwrap();
                        }
                    } else if let T::M(_) = self.lx.peek() {
                        break;
                    } else {
                        let (_, o) = self.topd();
                        n = o;
                    }
                }
                Ins::Alloca(t.size(), al, n)
            }
            "load" => {
                self.skip_words(fm);
                let t = self.m.ty(&mut self.lx);
                self.lx.expect(b',');
                let (_, p) = self.topd();
                Ins::Load(t, p)
            }
            "store" => {
                self.skip_words(fm);
                let (t, v) = self.topd();
                self.lx.expect(b',');
                let (_, p) = self.topd();
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_words(fm);
                let sty = self.m.ty(&mut self.lx);
                self.lx.expect(b',');
                let (bt, base) = self.topd();
                if matches!(bt, Ty::Vec(..)) {
                    self.lx.fail("vector gep")
                }
                let mut cur = sty;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while self.lx.eat(b',') {
                    if let T::M(_) = self.lx.peek() {
                        break;
                    }
                    let (t, o) = self.topd();
                    let (scale, nt) = if first {
                        (cur.size(), cur.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match o {
                                    Opd::C(v) => v as usize,
                                    _ => self.lx.fail("struct idx"),
                                };
                                let (fo, ft) = cur.field_off(k);
                                off += fo as i64;
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), (**e).clone()),
                            _ => self.lx.fail("gep into scalar"),
                        }
                    };
                    first = false;
                    cur = nt;
                    match o {
                        Opd::C(v) => off = off.wrapping_add((sext128(v as u128, t.bits()) as i64).wrapping_mul(scale as i64)),
                        o => idx.push((o, t.bits(), scale)),
                    }
                }
                Ins::Gep(base, off, idx)
            }
            "phi" => {
                self.skip_words(fm);
                let t = self.m.ty(&mut self.lx);
                let mut inc = vec![];
                loop {
                    self.lx.expect(b'[');
                    let v = self.opd(&t);
                    self.lx.expect(b',');
                    let l = match self.lx.next() {
                        T::L(n) => self.label(n),
                        t => self.lx.fail(&format!("phi label {:?}", t)),
                    };
                    self.lx.expect(b']');
                    inc.push((l, v));
                    if !self.lx.eat(b',') {
                        break;
                    }
                    if let T::M(_) = self.lx.peek() {
                        break;
                    }
                }
                b.phis.push(Phi { dst, ty: t, inc });
                self.eol();
                return;
            }
            "select" => {
                self.skip_words(fm);
                let (ct, c) = self.topd();
                self.lx.expect(b',');
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, z) = self.topd();
                Ins::Select(c, a, z, t, matches!(ct, Ty::Vec(..)))
            }
            "freeze" => {
                let (_, a) = self.topd();
                Ins::Freeze(a)
            }
            "extractvalue" => {
                let (_, a) = self.topd();
                let mut ix = vec![];
                while self.lx.eat(b',') {
                    match self.lx.peek() {
                        T::W(w) => {
                            ix.push(w.parse().unwrap());
                            self.lx.next();
                        }
                        _ => break,
                    }
                }
                Ins::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, v) = self.topd();
                let mut ix = vec![];
                while self.lx.eat(b',') {
                    match self.lx.peek() {
                        T::W(w) => {
                            ix.push(w.parse().unwrap());
                            self.lx.next();
                        }
                        _ => break,
                    }
                }
                Ins::InsertValue(a, t, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.topd();
                self.lx.expect(b',');
                let (_, i) = self.topd();
                Ins::ExtractElement(a, i)
            }
            "insertelement" => {
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, v) = self.topd();
                self.lx.expect(b',');
                let (_, i) = self.topd();
                Ins::InsertElement(a, v, i, t.nfields() as u64)
            }
            "shufflevector" => {
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, z) = self.topd();
                self.lx.expect(b',');
                let mt = self.m.ty(&mut self.lx);
                let c = self.m.konst(&mt, &mut self.lx);
                let n = mt.nfields();
                let mask: Vec<i32> = match c {
                    Const::Zero => vec![0; n],
                    Const::Agg(v) => v.iter().map(|(_, c)| if let Const::Int(k) = c { *k as i32 } else { -1 }).collect(),
                    Const::Splat(b) => {
                        let k = if let Const::Int(k) = b.1 { k as i32 } else { 0 };
                        vec![k; n]
                    }
                    _ => self.lx.fail("mask"),
                };
                Ins::Shuffle(a, z, t.nfields() as u64, mask)
            }
            "fence" => Ins::Nop,
            "cmpxchg" => {
                self.skip_words(fm);
                let (_, p) = self.topd();
                self.lx.expect(b',');
                let (t, c) = self.topd();
                self.lx.expect(b',');
                let (_, n) = self.topd();
                Ins::CmpXchg(p, t, c, n)
            }
            "atomicrmw" => {
                self.skip_words(fm);
                let o = match self.lx.next() {
                    T::W(w) => w.to_string(),
                    _ => self.lx.fail("rmw"),
                };
                let (_, p) = self.topd();
                self.lx.expect(b',');
                let (t, v) = self.topd();
                Ins::AtomicRmw(o, p, t, v)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if op != "call" && !invoke {
                    self.lx.next();
                }
                self.fn_attrs_before_type();
                let ret = self.m.ty(&mut self.lx);
                if self.lx.peek() == T::P(b'(') {
                    self.lx.skip_parens();
                }
                let callee = match self.lx.peek() {
                    T::G(n) => {
                        self.lx.next();
                        Callee::Direct(n.to_string())
                    }
                    T::L(n) => {
                        self.lx.next();
                        Callee::Indirect(Opd::R(self.reg(n)))
                    }
                    T::W("asm") => {
                        self.lx.next();
                        self.skip_words(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                        let a = match self.lx.next() {
                            T::S(s) => s.to_string(),
                            _ => self.lx.fail("asm"),
                        };
                        self.lx.expect(b',');
                        let c = match self.lx.next() {
                            T::S(s) => s.to_string(),
                            _ => self.lx.fail("asm"),
                        };
                        Callee::Asm(format!("{}|{}", a, c))
                    }
                    _ => {
                        let c = self.m.konst(&Ty::Ptr, &mut self.lx);
                        Callee::Indirect((self.resolve)(&Ty::Ptr, &c))
                    }
                };
                self.lx.expect(b'(');
                let mut args = vec![];
                let mut byval = vec![];
                if !self.lx.eat(b')') {
                    loop {
                        let t = self.m.ty(&mut self.lx);
                        if t == Ty::Meta {
                            // metadata argument
                            let mut d = 0;
                            loop {
                                match self.lx.peek() {
                                    T::P(b')') if d == 0 => break,
                                    T::P(b',') if d == 0 => break,
                                    T::P(b'(') | T::P(b'{') => d += 1,
                                    T::P(b')') | T::P(b'}') => d -= 1,
                                    _ => {}
                                }
                                self.lx.next();
                            }
                        } else {
                            let bv = self.param_attrs();
                            let o = self.opd(&t);
                            args.push((o, t));
                            byval.push(bv);
                        }
                        if self.lx.eat(b')') {
                            break;
                        }
                        self.lx.expect(b',');
                    }
                }
                let mut normal = None;
                if invoke {
                    loop {
                        if self.lx.eatw("to") {
                            break;
                        }
                        self.lx.next();
                    }
                    normal = Some(self.lab());
                    self.lx.skip_nl();
                    if !self.lx.eatw("unwind") {
                        self.lx.fail("unwind")
                    }
                    self.lab();
                }
                let id = *self.call_id;
                *self.call_id += 1;
                if !byval.iter().any(|b| b.is_some()) {
                    byval = vec![];
                }
                Ins::Call { callee, id, args, byval, ret, normal }
            }
            _ => self.lx.fail(&format!("unknown instruction {}", op)),
        };
        self.eol();
        b.ins.push((dst, i));
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "half" | "float" | "double" | "fp128")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
