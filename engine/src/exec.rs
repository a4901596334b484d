//! The symbolic machine: interpretation of the decoded IR.
use crate::decode::Dec;
use crate::env::Env;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::sys::*;
use crate::z3::{SatRes, Solver};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::Ordering::*;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    A(Rc<Vec<V>>),
}

pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    pub dst: u32,
    pub normal: Option<u32>,
    pub catch: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TState {
    Run,
    Blocked,
    Join,
    Done,
}

pub struct Thread {
    pub frames: Vec<Frame>,
    pub stack: u32,
    pub sp: u64,
    pub state: TState,
    pub granted: bool,
    pub errno: u64,
    pub tls: HashMap<u32, u64>,
}

pub enum Flow {
    Val(V),
    Void,
    Pushed,
    Throw(u64),
    /// another thread runs now; this call is executed again later
    Yield,
}

pub struct Cc<'a> {
    pub name: &'a str,
    pub args: &'a [V],
    pub tys: &'a [(Opd, Ty)],
    pub ret: &'a Ty,
}
pub type Nat = fn(&mut Machine, &Cc) -> Flow;

#[derive(Clone, Copy)]
pub enum Target {
    None,
    Fn(u32),
    Nat(Nat, u32),
}

pub struct Config {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_viol: u64,
    pub keep_ok: u64,
    pub rlimit: u32,
    pub cov: *mut u8,
    pub out_fd: i32,
    pub verbose: bool,
}

enum Answer {
    Sat(Model),
    Unsat,
    Unknown,
}
pub struct Machine {
    pub m: &'static Module,
    pub cx: Ctx,
    pub z: Solver,
    pub sh: &'static Shared,
    pub cfg: Config,
    pub objs: Vec<Obj>,
    gaddr: Vec<u64>,
    faddr: Vec<u64>,
    funcs: HashMap<u32, Rc<Func>>,
    pool: Vec<V>,
    targets: Vec<Target>,
    call_id: u32,
    itargets: HashMap<u32, Target>,
    names: Vec<&'static str>,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    varsets: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pcset: HashSet<E>,
    pub models: Vec<Model>,
    pub var_es: Vec<E>,
    pub input_vars: Vec<(String, E)>,
    /// Values of small variables that satisfy the first `n` constraints.
    doms: HashMap<u32, (usize, Rc<Vec<u128>>)>,
    pub env: Env,
    pub steps: u64,
    steps_flushed: u64,
    pub nforks: u64,
    pub is_root: bool,
    pub owns_slot: bool,
    pub reached: Vec<String>,
    pub obs: Vec<(String, Vec<V>)>,
    pub trace: Vec<String>,
    pub decisions: Vec<(String, bool)>,
    pub had_violation: bool,
}

pub const MAXU: u32 = u32::MAX;

pub fn m64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
pub fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Machine {
    pub fn new(m: &'static Module, sh: &'static Shared, cfg: Config) -> Machine {
        let z = Solver::new(cfg.rlimit);
        let mut mc = Machine {
            m,
            cx: Ctx::new(),
            z,
            sh,
            cfg,
            objs: vec![],
            gaddr: vec![0; m.globals.len()],
            faddr: vec![0; m.funcs.len()],
            funcs: HashMap::new(),
            pool: vec![],
            targets: vec![],
            call_id: 0,
            itargets: HashMap::new(),
            names: vec![],
            threads: vec![],
            cur: 0,
            pc: vec![],
            varsets: Default::default(),
            pcset: HashSet::new(),
            models: vec![Model::new(vec![])],
            var_es: vec![],
            input_vars: vec![],
            doms: HashMap::new(),
            env: Env::new(),
            steps: 0,
            steps_flushed: 0,
            nforks: 0,
            is_root: true,
            owns_slot: true,
            reached: vec![],
            obs: vec![],
            trace: vec![],
            decisions: vec![],
            had_violation: false,
        };
        let mut null = Obj::new(0, Kind::Null);
        null.alive = false;
        mc.objs.push(null);
        mc
    }

    // ---- values -------------------------------------------------------------
    #[inline]
    pub fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.cx.k(*x as u128, w),
            V::S(e) => {
                debug_assert_eq!(self.cx.width(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate where a scalar is expected"),
        }
    }
    #[inline]
    pub fn v(&self, e: E) -> V {
        if self.cx.width(e) <= 64 {
            if let Some(k) = self.cx.as_k(e) {
                return V::C(k as u64);
            }
        }
        V::S(e)
    }
    pub fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Int(n) if *n > 64 => V::S(self.cx.k(0, *n)),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => {
                let v = f.iter().map(|t| self.zero(t)).collect();
                V::A(Rc::new(v))
            }
            _ => V::C(0),
        }
    }

    // ---- constants and symbols ---------------------------------------------
    pub fn new_obj(&mut self, size: u64, kind: Kind) -> u64 {
        let id = self.objs.len() as u64;
        self.objs.push(Obj::new(size, kind));
        id << 32
    }
    pub fn sym_addr(&mut self, name: &str) -> u64 {
        if let Some(&g) = self.m.gidx.get(name) {
            return self.global_addr(g);
        }
        if let Some(&f) = self.m.fidx.get(name) {
            return self.func_addr(f);
        }
        if let Some(&(a, b)) = self.m.alias.get(name) {
            let m = self.m;
            let mut lx = Lex::new(&m.src, a, b);
            let t = m.ty(&mut lx);
            let c = m.konst(&t, &mut lx);
            return match self.const_v(&t, &c) {
                V::C(x) => x,
                _ => self.die_internal("alias"),
            };
        }
        self.die_internal(&format!("unknown symbol {}", name))
    }
    fn func_addr(&mut self, f: usize) -> u64 {
        if self.faddr[f] == 0 {
            if self.m.funcs[f].weak {
                return 0;
            }
            self.faddr[f] = self.new_obj(0, Kind::Func(f as u32));
        }
        self.faddr[f]
    }
    fn global_addr(&mut self, g: usize) -> u64 {
        if self.gaddr[g] == 0 {
            let m = self.m;
            let d = &m.globals[g];
            if d.weak {
                return 0;
            }
            let a = self.new_obj(d.ty.size(), Kind::Global);
            self.gaddr[g] = a;
            self.init_global(g, a);
        }
        self.gaddr[g]
    }
    fn init_global(&mut self, g: usize, a: u64) {
        let m = self.m;
        let d = &m.globals[g];
        if let Some((s, e)) = d.init {
            let mut lx = Lex::new(&m.src, s, e);
            let c = m.konst(&d.ty, &mut lx);
            self.init_const((a >> 32) as usize, 0, &d.ty, &c);
        }
    }
    fn init_const(&mut self, o: usize, off: u64, ty: &Ty, c: &Const) {
        match c {
            Const::Zero => {}
            Const::Bytes(b) => {
                self.objs[o].data[off as usize..off as usize + b.len()].copy_from_slice(b);
            }
            Const::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (fo, _) = ty.field_off(i);
                    self.init_const(o, off + fo, t, c);
                }
            }
            Const::Splat(b) => {
                for i in 0..ty.nfields() {
                    let (fo, _) = ty.field_off(i);
                    self.init_const(o, off + fo, &b.0, &b.1);
                }
            }
            _ => {
                let v: u128 = match c {
                    Const::Int(x) => *x,
                    _ => match self.const_v(ty, c) {
                        V::C(x) => x as u128,
                        _ => self.die_internal("const"),
                    },
                };
                let n = ty.store_size() as usize;
                let b = v.to_le_bytes();
                self.objs[o].data[off as usize..off as usize + n].copy_from_slice(&b[..n]);
            }
        }
    }
    fn const_v(&mut self, ty: &Ty, c: &Const) -> V {
        match c {
            Const::Zero => self.zero(ty),
            Const::Int(x) => {
                if let Ty::Int(n) = ty {
                    if *n > 64 {
                        return V::S(self.cx.k(*x, *n));
                    }
                }
                V::C(*x as u64)
            }
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::C(x as u64)).collect())),
            Const::Agg(v) => {
                let v = v.iter().map(|(t, c)| self.const_v(t, c)).collect();
                V::A(Rc::new(v))
            }
            Const::Splat(b) => {
                let x = self.const_v(&b.0, &b.1);
                V::A(Rc::new(vec![x; ty.nfields()]))
            }
            Const::Global(n) => V::C(self.sym_addr(n)),
            Const::Gep(b, off) => match self.const_v(&Ty::Ptr, b) {
                V::C(x) => V::C(x.wrapping_add(*off as u64)),
                _ => self.die_internal("const gep"),
            },
            Const::Add(a, b) | Const::Sub(a, b) => {
                let (x, y) = (self.const_v(ty, a), self.const_v(ty, b));
                match (x, y) {
                    (V::C(x), V::C(y)) => V::C(if matches!(c, Const::Add(..)) { x.wrapping_add(y) } else { x.wrapping_sub(y) }),
                    _ => self.die_internal("const add"),
                }
            }
            Const::Trunc(a, w) => match self.const_v(&Ty::Int(64), a) {
                V::C(x) => V::C(m64(x, *w)),
                _ => self.die_internal("const trunc"),
            },
        }
    }

    pub fn func(&mut self, fi: u32) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&fi) {
            return f.clone();
        }
        let m = self.m;
        let (a, b) = m.funcs[fi as usize].text.expect("body");
        let mut id = self.call_id;
        let me: *mut Machine = self;
        let mut resolve = |t: &Ty, c: &Const| -> Opd {
            let me = unsafe { &mut *me };
            match me.const_v(t, c) {
                V::C(x) => Opd::C(x),
                v => {
                    me.pool.push(v);
                    Opd::K(me.pool.len() as u32 - 1)
                }
            }
        };
        let d = Dec {
            m,
            lx: Lex::new(&m.src, a, b),
            regs: HashMap::new(),
            labels: HashMap::new(),
            resolve: &mut resolve,
            call_id: &mut id,
        };
        let f = Rc::new(d.run(&m.funcs[fi as usize].name, fi));
        self.call_id = id;
        self.targets.resize(id as usize, Target::None);
        self.funcs.insert(fi, f.clone());
        unsafe { *self.cfg.cov.add(fi as usize) = 1 };
        f
    }

    // ---- memory ---------------------------------------------------------------
    /// Checks that n bytes at a are accessible; returns (object, offset).
    #[inline]
    pub fn at(&mut self, a: u64, n: u64) -> (usize, usize) {
        let o = (a >> 32) as usize;
        let off = a & 0xffff_ffff;
        if o < self.objs.len() {
            let ob = &mut self.objs[o];
            if ob.alive && off + n <= ob.size {
                let end = (off + n) as usize;
                if ob.data.len() < end {
                    // stacks grow lazily
                    let nl = (end + 4096).min(ob.size as usize);
                    ob.data.resize(nl, 0);
                }
                return (o, off as usize);
            }
        }
        if n == 0 {
            return (0, 0);
        }
        self.mem_fault(a, n)
    }
    pub fn mem_fault(&mut self, a: u64, n: u64) -> ! {
        let o = (a >> 32) as usize;
        let d = self.objs.get(o).map(|x| format!("{:?} size {} alive {}", x.kind, x.size, x.alive));
        self.violation(&format!("memory fault: {} bytes at {:#x} ({:?})", n, a, d), true);
        self.end_path("fault")
    }
    pub fn rd_bytes(&mut self, a: u64, n: u64) -> Vec<V> {
        let (o, off) = self.at(a, n);
        if n == 0 {
            return vec![];
        }
        let ob = &self.objs[o];
        let mut v = Vec::with_capacity(n as usize);
        let any = ob.has_sym(off, n as usize);
        for i in 0..n as usize {
            let s = if any { ob.sym_at(off + i) } else { 0 };
            v.push(if s != 0 { V::S(s) } else { V::C(ob.data[off + i] as u64) });
        }
        v
    }
    pub fn wr_bytes(&mut self, a: u64, b: &[V]) {
        let (o, off) = self.at(a, b.len() as u64);
        if b.is_empty() {
            return;
        }
        let ob = &mut self.objs[o];
        ob.clear_sym(off, b.len());
        for (i, v) in b.iter().enumerate() {
            match v {
                V::C(x) => ob.data[off + i] = *x as u8,
                V::S(e) => ob.set_sym(off + i, *e),
                _ => unreachable!(),
            }
        }
    }
    pub fn wr_concrete(&mut self, a: u64, b: &[u8]) {
        let (o, off) = self.at(a, b.len() as u64);
        if b.is_empty() {
            return;
        }
        let ob = &mut self.objs[o];
        ob.clear_sym(off, b.len());
        ob.data[off..off + b.len()].copy_from_slice(b);
    }
    /// Concrete bytes; forks over the values of symbolic ones.
    pub fn rd_concrete(&mut self, a: u64, n: u64) -> Vec<u8> {
        let v = self.rd_bytes(a, n);
        v.iter().map(|x| self.concretise(x, 8) as u8).collect()
    }
    pub fn cstr(&mut self, a: u64) -> Vec<u8> {
        let mut out = vec![];
        let mut p = a;
        loop {
            let b = self.rd_concrete(p, 1)[0];
            if b == 0 {
                return out;
            }
            out.push(b);
            p += 1;
        }
    }
    pub fn load_int(&mut self, a: u64, n: u64) -> V {
        let (o, off) = self.at(a, n);
        let ob = &self.objs[o];
        let n = n as usize;
        if !ob.has_sym(off, n) {
            if n <= 8 {
                let mut x = 0u64;
                for i in (0..n).rev() {
                    x = (x << 8) | ob.data[off + i] as u64;
                }
                return V::C(x);
            }
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = (x << 8) | ob.data[off + i] as u128;
            }
            return V::S(self.cx.k(x, n as u32 * 8));
        }
        let bytes: Vec<(E, u8)> = (0..n).map(|i| (ob.sym_at(off + i), ob.data[off + i])).collect();
        let mut acc: Option<E> = None;
        for (s, d) in bytes.into_iter().rev() {
            let b = if s != 0 { s } else { self.cx.k(d as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(x) => self.cx.cat(x, b),
            });
        }
        let raw = acc.unwrap();
        let r = self.cx.settle(raw);
        if n == 1 && self.cx.as_k(r).is_none() {
            // single bytes stay recognisable for copying loops
            return V::S(raw);
        }
        self.v(r)
    }
    pub fn store_int(&mut self, a: u64, n: u64, v: &V) {
        let (o, off) = self.at(a, n);
        let n = n as usize;
        match v {
            V::C(x) => {
                let ob = &mut self.objs[o];
                if ob.nsym > 0 {
                    ob.clear_sym(off, n);
                }
                let b = x.to_le_bytes();
                if n <= 8 {
                    ob.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    ob.data[off..off + 8].copy_from_slice(&b);
                    ob.data[off + 8..off + n].fill(0);
                }
            }
            V::S(e) => {
                if let Some(k) = self.cx.as_k(*e) {
                    let ob = &mut self.objs[o];
                    ob.clear_sym(off, n);
                    ob.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    return;
                }
                for i in 0..n {
                    let b = self.cx.ext_lazy(*e, i as u32 * 8, 8);
                    let k = self.cx.as_k(b);
                    let ob = &mut self.objs[o];
                    match k {
                        Some(k) => {
                            ob.set_sym(off + i, 0);
                            ob.data[off + i] = k as u8;
                        }
                        None => ob.set_sym(off + i, b),
                    }
                }
            }
            V::A(_) => panic!("store_int of aggregate"),
        }
    }
    pub fn load(&mut self, t: &Ty, a: u64) -> V {
        match t {
            Ty::Int(n) => {
                let sz = (*n as u64 + 7) / 8;
                let v = self.load_int(a, sz);
                if *n as u64 == sz * 8 {
                    v
                } else {
                    match v {
                        V::C(x) => V::C(m64(x, *n)),
                        V::S(e) => {
                            let x = self.cx.ext(e, 0, *n);
                            self.v(x)
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Ty::Ptr | Ty::Double => self.load_int(a, 8),
            Ty::Float => self.load_int(a, 4),
            Ty::Half => self.load_int(a, 2),
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..t.nfields() {
                    let (o, ft) = t.field_off(i);
                    v.push(self.load(&ft, a + o));
                }
                V::A(Rc::new(v))
            }
            Ty::Vec(n, et) => {
                let eb = et.bits() as u64;
                if eb % 8 != 0 {
                    self.inconclusive("load of a bit vector")
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(et, a + i * eb / 8));
                }
                V::A(Rc::new(v))
            }
            _ => panic!("load of {:?}", t),
        }
    }
    pub fn store(&mut self, t: &Ty, a: u64, v: &V) {
        match t {
            Ty::Int(n) => {
                let sz = (*n as u64 + 7) / 8;
                if *n as u64 == sz * 8 {
                    self.store_int(a, sz, v)
                } else {
                    match v {
                        V::C(_) => self.store_int(a, sz, v),
                        V::S(e) => {
                            let x = self.cx.zext(*e, sz as u32 * 8);
                            let x = self.v(x);
                            self.store_int(a, sz, &x)
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Ty::Ptr | Ty::Double => self.store_int(a, 8, v),
            Ty::Float => self.store_int(a, 4, v),
            Ty::Half => self.store_int(a, 2, v),
            Ty::Struct(..) | Ty::Arr(..) => {
                let vs = match v {
                    V::A(x) => x.clone(),
                    _ => panic!("store aggregate"),
                };
                for i in 0..t.nfields() {
                    let (o, ft) = t.field_off(i);
                    self.store(&ft, a + o, &vs[i]);
                }
            }
            Ty::Vec(n, et) => {
                let eb = et.bits() as u64;
                if eb % 8 != 0 {
                    self.inconclusive("store of a bit vector")
                }
                let vs = match v {
                    V::A(x) => x.clone(),
                    _ => panic!("store vector"),
                };
                for i in 0..*n {
                    self.store(et, a + i * eb / 8, &vs[i as usize]);
                }
            }
            _ => panic!("store of {:?}", t),
        }
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        let (so, soff) = self.at(s, n);
        let (dob, doff) = self.at(d, n);
        let n = n as usize;
        let ssym = self.objs[so].has_sym(soff, n);
        let syms: Vec<(usize, E)> = if ssym {
            (0..n).map(|i| (i, self.objs[so].sym_at(soff + i))).filter(|x| x.1 != 0).collect()
        } else {
            vec![]
        };
        if so == dob {
            self.objs[so].data.copy_within(soff..soff + n, doff);
        } else {
            let (a, b) = if so < dob {
                let (l, r) = self.objs.split_at_mut(dob);
                (&l[so], &mut r[0])
            } else {
                let (l, r) = self.objs.split_at_mut(so);
                (&r[0], &mut l[dob])
            };
            b.data[doff..doff + n].copy_from_slice(&a.data[soff..soff + n]);
        }
        let ob = &mut self.objs[dob];
        ob.clear_sym(doff, n);
        for (i, e) in syms {
            ob.set_sym(doff + i, e);
        }
    }

    fn tz(&self, e: E) -> u32 {
        let w = self.cx.width(e);
        match self.cx.node(e) {
            N::K(v) => {
                if v == 0 {
                    w
                } else {
                    v.trailing_zeros()
                }
            }
            N::ZExt(a) | N::SExt(a) => {
                let t = self.tz(a);
                if t >= self.cx.width(a) { w } else { t }
            }
            N::Cat(a, b) => {
                let t = self.tz(b);
                if t >= self.cx.width(b) {
                    self.cx.width(b) + self.tz(a)
                } else {
                    t
                }
            }
            N::Bin(B::Add | B::Sub, a, b) => self.tz(a).min(self.tz(b)),
            N::Bin(B::Mul, a, b) => (self.tz(a) + self.tz(b)).min(w),
            N::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            _ => 0,
        }
    }
    fn load_sym(&mut self, t: &Ty, ae: E) -> V {
        let (lo, hi) = (self.cx.lo[ae as usize] as u64, self.cx.hi[ae as usize] as u64);
        let n = t.store_size();
        if t.is_scalar() {
            if let Some(l) = self.values_of(ae) {
                if l.len() == 1 {
                    return self.load(t, l[0] as u64);
                }
                let (lo, hi) = (l[0] as u64, l[l.len() - 1] as u64);
                let o = (lo >> 32) as usize;
                if lo >> 32 == hi >> 32 && o < self.objs.len() && self.objs[o].alive && (hi & 0xffff_ffff) + n <= self.objs[o].size {
                    let w = t.bits();
                    let mut leaves: Vec<(u64, E)> = vec![];
                    for &a in l.iter() {
                        let v = self.load(t, a as u64);
                        let e = self.e(&v, w);
                        match leaves.last() {
                            Some((_, p)) if *p == e => {}
                            _ => leaves.push((a as u64 - lo, e)),
                        }
                    }
                    let k = self.cx.k(lo as u128, 64);
                    let idx = self.cx.bin(B::Sub, ae, k);
                    let r = self.mux(idx, &leaves);
                    return self.v(r);
                }
            }
        }
        if t.is_scalar() && lo >> 32 == hi >> 32 && hi - lo <= 8192 {
            let o = (lo >> 32) as usize;
            if o < self.objs.len() && self.objs[o].alive && (hi & 0xffff_ffff) + n <= self.objs[o].size {
                // the low bits of lo may not be aligned with the stride; use
                // the known trailing zeros of (address - lo)
                let k = self.cx.k(lo as u128, 64);
                let idx = self.cx.bin(B::Sub, ae, k);
                let stride = 1u64 << self.tz(idx).min(12);
                let w = t.bits();
                let mut leaves: Vec<(u64, E)> = vec![];
                let mut off = 0;
                while off <= hi - lo {
                    let v = self.load(t, lo + off);
                    let e = self.e(&v, w);
                    match leaves.last() {
                        Some((_, p)) if *p == e => {}
                        _ => leaves.push((off, e)),
                    }
                    off += stride;
                }
                let r = self.mux(idx, &leaves);
                return self.v(r);
            }
        }
        let v = V::S(ae);
        let a = self.concretise(&v, 64);
        self.load(t, a)
    }
    fn mux(&mut self, idx: E, l: &[(u64, E)]) -> E {
        if l.len() == 1 {
            return l[0].1;
        }
        let mid = l.len() / 2;
        let k = self.cx.k(l[mid].0 as u128, 64);
        let c = self.cx.bin(B::Ult, idx, k);
        let a = self.mux(idx, &l[..mid]);
        let b = self.mux(idx, &l[mid..]);
        self.cx.ite(c, a, b)
    }

    // ---- path condition ----------------------------------------------------
    /// The variables an expression depends on.
    fn vars_of(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(r) = self.varsets.get(&e) {
            return r.clone();
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match self.cx.node(x) {
                N::K(_) => {}
                N::Var(i) => out.push(i as u32),
                N::Not(a) | N::Ext(a, _) | N::ZExt(a) | N::SExt(a) => st.push(a),
                N::Bin(_, a, b) | N::Cat(a, b) | N::Fp(_, a, b) => st.extend([a, b]),
                N::Ite(c, a, b) => st.extend([c, a, b]),
            }
        }
        out.sort();
        out.dedup();
        let r = std::rc::Rc::new(out);
        self.varsets.insert(e, r.clone());
        r
    }
    /// When e depends on one variable of few values: that variable and the
    /// values that the constraints on it alone leave.
    fn domain(&mut self, e: E) -> Option<(u32, Rc<Vec<u128>>)> {
        let vs = self.vars_of(e);
        if vs.len() != 1 {
            return None;
        }
        let v = vs[0];
        let (lo, hi) = (self.cx.vars[v as usize].lo, self.cx.vars[v as usize].hi);
        if hi - lo > 299 {
            return None;
        }
        let (n, mut vals) = match self.doms.get(&v) {
            Some(d) => d.clone(),
            None => (0, Rc::new((lo..=hi).collect())),
        };
        for i in n..self.pc.len() {
            let p = self.pc[i];
            let ps = self.vars_of(p);
            if ps.len() == 1 && ps[0] == v {
                let t = self.cx.eval_over(p, v, &vals);
                vals = Rc::new(vals.iter().zip(t).filter(|x| x.1 == 1).map(|x| *x.0).collect());
            }
        }
        self.doms.insert(v, (self.pc.len(), vals.clone()));
        Some((v, vals))
    }
    /// All values e may have (perhaps more), in order.
    fn values_of(&mut self, e: E) -> Option<Vec<u128>> {
        let (v, vals) = self.domain(e)?;
        let mut r = self.cx.eval_over(e, v, &vals);
        r.sort();
        r.dedup();
        Some(r)
    }
    /// Decides whether the path can continue with c, where c depends on one
    /// variable of few values: by c's truth table over the values that the
    /// constraints on that variable alone leave.  None when that does not
    /// settle it.
    fn table(&mut self, c: E) -> Option<Option<Model>> {
        let (v, vals) = self.domain(c)?;
        let mut others = vec![];
        for i in 0..self.pc.len() {
            let p = self.pc[i];
            let ps = self.vars_of(p);
            if ps.len() > 1 && ps.contains(&v) {
                others.push(p);
            }
        }
        let t = self.cx.eval_over(c, v, &vals);
        let mut r = None;
        if t.iter().all(|&x| x == 0) {
            r = Some(None);
        } else {
            let mut tries = 0;
            for (i, &x) in vals.iter().enumerate() {
                if t[i] == 0 || tries == 8 {
                    continue;
                }
                tries += 1;
                let mut all = self.models[0].vals.clone();
                all.resize(self.var_es.len(), 0);
                all[v as usize] = x;
                let mut m = Model::new(all);
                if others.iter().all(|&p| self.cx.eval(p, &mut m) == 1) {
                    r = Some(Some(m));
                    break;
                }
            }
        }
        if r.is_some() {
            self.sh.q_table.fetch_add(1, Relaxed);
        }
        r
    }
    /// Is pc /\ c satisfiable?  None when the solver gives up.
    pub fn query(&mut self, c: E) -> Option<Option<Model>> {
        self.query_by(c, false)
    }
    fn query_by(&mut self, c: E, table: bool) -> Option<Option<Model>> {
        if let Some(k) = self.cx.as_k(c) {
            return Some(if k == 1 { Some(self.models[0].clone()) } else { None });
        }
        for m in self.models.iter_mut() {
            if self.cx.eval(c, m) == 1 {
                self.sh.q_cached.fetch_add(1, Relaxed);
                return Some(Some(m.clone()));
            }
        }
        if self.pcset.contains(&c) {
            unreachable!("a model of the path condition falsifies it");
        }
        let nc = self.cx.not(c);
        if self.pcset.contains(&nc) {
            return Some(None);
        }
        let mut settled = None;
        if table {
            if let Some(r) = self.table(c) {
                // every 32nd answer is put to the solver as well
                if self.sh.q_table.load(Relaxed) % 32 != 1 {
                    return Some(r);
                }
                settled = Some(r.is_some());
            }
        }
        // only the constraints connected to c through shared variables
        let mut rel = vec![false; self.var_es.len()];
        for &v in self.vars_of(c).iter() {
            rel[v as usize] = true;
        }
        let mut inn = vec![false; self.pc.len()];
        loop {
            let mut more = false;
            for i in 0..self.pc.len() {
                if inn[i] {
                    continue;
                }
                let vs = self.vars_of(self.pc[i]);
                if vs.iter().any(|&v| rel[v as usize]) {
                    inn[i] = true;
                    for &v in vs.iter() {
                        more |= !rel[v as usize];
                        rel[v as usize] = true;
                    }
                }
            }
            if !more {
                break;
            }
        }
        let mut cs = vec![c];
        cs.extend((0..self.pc.len()).filter(|&i| inn[i]).map(|i| self.pc[i]));
        let idx: Vec<usize> = (0..rel.len()).filter(|&i| rel[i]).collect();
        let vars: Vec<(E, u128, u128)> = idx.iter().map(|&i| (self.var_es[i], self.cx.vars[i].lo, self.cx.vars[i].hi)).collect();
        let t0 = std::time::Instant::now();
        let r = match self.z.check(&self.cx, &cs, &vars) {
            SatRes::Sat(vals) => {
                let mut all = self.models[0].vals.clone();
                all.resize(self.var_es.len(), 0);
                for (k, &i) in idx.iter().enumerate() {
                    all[i] = vals[k];
                }
                Answer::Sat(Model::new(all))
            }
            SatRes::Unsat => Answer::Unsat,
            SatRes::Unknown => Answer::Unknown,
        };
        match (&settled, &r) {
            (Some(true), Answer::Unsat) | (Some(false), Answer::Sat(_)) => self.inconclusive("truth table and solver disagree"),
            _ => {}
        }
        let us = t0.elapsed().as_micros() as u64;
        self.sh.queries.fetch_add(1, Relaxed);
        self.sh.solver_us.fetch_add(us, Relaxed);
        self.sh.max_q_us.fetch_max(us, Relaxed);
        match r {
            Answer::Sat(mut m) => {
                self.sh.q_sat.fetch_add(1, Relaxed);
                // trust, but verify: the model must satisfy everything
                if self.cx.eval(c, &mut m) != 1 {
                    self.inconclusive("solver model does not satisfy the query");
                }
                for i in 0..self.pc.len() {
                    let p = self.pc[i];
                    if self.cx.eval(p, &mut m) != 1 {
                        self.inconclusive("solver model does not satisfy the path condition");
                    }
                }
                Some(Some(m))
            }
            Answer::Unsat => {
                self.sh.q_unsat.fetch_add(1, Relaxed);
                Some(None)
            }
            Answer::Unknown => {
                self.sh.q_unknown.fetch_add(1, Relaxed);
                None
            }
        }
    }
    /// Add c to the path condition; `m` is a model of the extended condition.
    pub fn assume_with(&mut self, c: E, m: Option<Model>) {
        if self.cx.as_k(c).is_some() || self.pcset.contains(&c) {
            return;
        }
        self.split_assume(c);
        let cx = &self.cx;
        self.models.retain_mut(|x| cx.eval(c, x) == 1);
        if let Some(m) = m {
            if self.models.len() < 6 {
                self.models.push(m);
            }
        }
        assert!(!self.models.is_empty());
    }
    fn split_assume(&mut self, c: E) {
        if let N::Bin(B::And, a, b) = self.cx.node(c) {
            if self.cx.width(c) == 1 {
                self.split_assume(a);
                self.split_assume(b);
                self.pcset.insert(c);
                return;
            }
        }
        if self.pcset.insert(c) {
            self.pc.push(c);
        }
    }
    /// Decide a symbolic condition, forking the exploration when both
    /// outcomes are possible.
    pub fn branch(&mut self, c: E, what: &str) -> bool {
        if let Some(k) = self.cx.as_k(c) {
            return k == 1;
        }
        if self.pcset.contains(&c) {
            return true;
        }
        let nc = self.cx.not(c);
        if self.pcset.contains(&nc) {
            return false;
        }
        let mt = match self.query_by(c, true) {
            Some(x) => x,
            None => self.inconclusive("solver gave up (unknown)"),
        };
        if mt.is_none() {
            self.note_implied(nc);
            return false;
        }
        let mf = match self.query_by(nc, true) {
            Some(x) => x,
            None => self.inconclusive("solver gave up (unknown)"),
        };
        if mf.is_none() {
            self.note_implied(c);
            return true;
        }
        self.check_stop();
        let taken = self.fork_explore();
        if self.cfg.verbose {
            let t = &self.threads[self.cur];
            let bt: Vec<String> = t.frames.iter().rev().take(4).map(|f| f.f.name.clone()).collect();
            eprintln!("FORK {} {}", what, bt.join(" < "));
            self.decisions.push((what.to_string(), taken));
        }
        if taken {
            self.assume_with(c, mt);
        } else {
            self.assume_with(nc, mf);
        }
        taken
    }
    fn note_implied(&mut self, c: E) {
        self.pcset.insert(c);
    }
    pub fn check_stop(&self) {
        if self.sh.stop.load(Relaxed) != 0 {
            self.exit_quiet();
        }
    }
    /// Splits the exploration in two; true in one half, false in the other.
    pub fn fork_explore(&mut self) -> bool {
        self.nforks += 1;
        self.sh.forks.fetch_add(1, Relaxed);
        if self.nforks > 20000 {
            self.inconclusive("too many forks on one path");
        }
        let n = self.sh.active.fetch_add(1, SeqCst);
        let conc = n < self.sh.max_active.load(Relaxed);
        if !conc {
            self.sh.active.fetch_sub(1, SeqCst);
        }
        unsafe {
            let mut st = 0;
            while waitpid(-1, &mut st, 1) > 0 {}
            let mut tries = 0;
            let pid = loop {
                let p = fork();
                if p >= 0 {
                    break p;
                }
                tries += 1;
                if tries > 50 {
                    self.inconclusive("fork failed");
                }
                usleep(20000);
            };
            if pid == 0 {
                self.is_root = false;
                self.owns_slot = conc;
                self.steps_flushed = self.steps;
                true
            } else {
                if !conc {
                    // depth first: let the child finish before going on
                    let mut st = 0;
                    loop {
                        let r = waitpid(pid, &mut st, 0);
                        if r == pid || r < 0 {
                            break;
                        }
                    }
                    if st != 0 {
                        self.crashed_child(st);
                    }
                    self.check_stop();
                }
                false
            }
        }
    }
    fn crashed_child(&mut self, st: i32) {
        self.sh.inconclusive.fetch_add(1, Relaxed);
        self.emit(&format!("{{\"kind\":\"inconclusive\",\"msg\":\"exploration process died (status {})\"}}\n", st));
        self.sh.stop.store(1, Relaxed);
    }
    pub fn concretise(&mut self, v: &V, w: u32) -> u64 {
        let e = match v {
            V::C(x) => return *x,
            V::S(e) => *e,
            _ => panic!(),
        };
        if let Some(l) = self.values_of(e) {
            if l.len() == 1 {
                return l[0] as u64;
            }
        }
        let mut n = 0;
        loop {
            if let Some(k) = self.cx.as_k(e) {
                return k as u64;
            }
            let x = {
                let mut m = self.models.pop().unwrap();
                let x = self.cx.eval(e, &mut m);
                self.models.push(m);
                x
            };
            let k = self.cx.k(x, w);
            let c = self.cx.eq(e, k);
            if self.branch(c, "value") {
                return x as u64;
            }
            n += 1;
            if n > 5000 {
                self.inconclusive("too many values for one expression");
            }
        }
    }
    pub fn new_var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> E {
        if lo > hi || hi > crate::expr::mask(w) {
            self.inconclusive("input with an impossible range");
        }
        let e = self.cx.var(name, w, lo, hi);
        self.var_es.push(e);
        let n = self.var_es.len();
        for m in self.models.iter_mut() {
            m.vals.resize(n, 0);
            m.vals[n - 1] = lo;
        }
        e
    }

    // ---- ends -----------------------------------------------------------------
    pub fn flush_stats(&mut self) {
        self.sh.instrs.fetch_add(self.steps - self.steps_flushed, Relaxed);
        self.steps_flushed = self.steps;
    }
    pub fn emit(&self, s: &str) {
        unsafe {
            write(self.cfg.out_fd, s.as_ptr(), s.len());
        }
    }
    fn exit_quiet(&self) -> ! {
        if self.owns_slot {
            self.sh.active.fetch_sub(1, SeqCst);
        }
        unsafe { _exit(0) }
    }
    pub fn describe(&mut self, kind: &str, msg: &str, model: Option<Model>) -> String {
        let mut md = model.unwrap_or_else(|| self.models[0].clone());
        let mut s = format!("{{\"kind\":\"{}\",\"msg\":{},\"inputs\":[", kind, jstr(msg));
        for i in 0..self.input_vars.len() {
            let (n, e) = self.input_vars[i].clone();
            let v = self.cx.eval(e, &mut md);
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!("[{},{},\"{}\"]", jstr(&n), self.cx.width(e), v));
        }
        s.push_str("],\"obs\":[");
        let obs = std::mem::take(&mut self.obs);
        for (i, (n, o)) in obs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let hex: String = o
                .iter()
                .map(|b| {
                    let x = match b {
                        V::C(x) => *x,
                        V::S(e) => self.cx.eval(*e, &mut md) as u64,
                        _ => 0,
                    };
                    format!("{:02x}", x)
                })
                .collect();
            s.push_str(&format!("[{},\"{}\"]", jstr(n), hex));
        }
        self.obs = obs;
        s.push_str("],\"reach\":[");
        for (i, r) in self.reached.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&jstr(r));
        }
        s.push_str("],\"events\":[");
        for (i, r) in self.env.events.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&jstr(r));
        }
        s.push_str("],\"sched\":[");
        for (i, r) in self.env.sched.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&r.to_string());
        }
        s.push_str("]");
        if self.cfg.verbose || kind == "violation" || kind == "inconclusive" {
            s.push_str(",\"backtrace\":[");
            let bt: Vec<String> = self.threads[self.cur].frames.iter().rev().take(12).map(|f| jstr(&f.f.name)).collect();
            s.push_str(&bt.join(","));
            s.push_str("],\"fsops\":[");
            let t: Vec<String> = self.env.log.iter().rev().take(60).rev().map(|f| jstr(f)).collect();
            s.push_str(&t.join(","));
            s.push_str("]");
        }
        s.push_str(&format!(",\"steps\":{},\"pc\":{}}}\n", self.steps, self.pc.len()));
        s
    }
    pub fn violation(&mut self, msg: &str, model_is_current: bool) {
        let m = if model_is_current { None } else { None };
        self.violation_m(msg, m);
    }
    pub fn violation_m(&mut self, msg: &str, m: Option<Model>) {
        self.had_violation = true;
        let n = self.sh.violations.fetch_add(1, SeqCst);
        if n < self.cfg.max_viol {
            let s = self.describe("violation", msg, m);
            self.emit(&s);
        }
        if n + 1 >= self.cfg.max_viol {
            self.sh.stop.store(1, Relaxed);
        }
    }
    pub fn inconclusive(&mut self, msg: &str) -> ! {
        let n = self.sh.inconclusive.fetch_add(1, Relaxed);
        if n < 20 {
            let s = self.describe("inconclusive", msg, None);
            self.emit(&s);
        }
        if n > 200 {
            self.sh.stop.store(1, Relaxed);
        }
        self.flush_stats();
        self.exit_quiet()
    }
    pub fn die_internal(&mut self, msg: &str) -> ! {
        let m = format!("internal: {}", msg);
        self.inconclusive(&m)
    }
    pub fn end_path(&mut self, why: &str) -> ! {
        let n = self.sh.paths.fetch_add(1, Relaxed);
        self.sh.fs_ops.fetch_add(self.env.nops, Relaxed);
        if why == "infeasible" {
            self.sh.paths_infeasible.fetch_add(1, Relaxed);
        } else if !self.had_violation {
            self.sh.paths_ok.fetch_add(1, Relaxed);
            if n < self.cfg.keep_ok || n.is_power_of_two() {
                let s = self.describe("ok", why, None);
                self.emit(&s);
            }
        }
        // every path contributes its reach marks
        if why != "infeasible" {
            let mut s = String::from("{\"kind\":\"reach\",\"reach\":[");
            let r: Vec<String> = self.reached.iter().map(|x| jstr(x)).collect();
            s.push_str(&r.join(","));
            s.push_str("]}\n");
            // deduplicate by a small shared bloom word
            let mut h = Fx::default();
            use std::hash::Hasher;
            for x in &self.reached {
                h.write(x.as_bytes());
            }
            let bit = 1u64 << (h.finish() >> 58);
            if self.sh.dedup.fetch_or(bit, Relaxed) & bit == 0 || n < 64 {
                self.emit(&s);
            }
        }
        self.flush_stats();
        self.exit_quiet()
    }
    pub fn throw(&mut self, code: u64) -> Option<()> {
        // unwind to the innermost catch of this thread
        let t = &mut self.threads[self.cur];
        let k = t.frames.iter().rposition(|f| f.catch)?;
        let fr = t.frames.drain(k..).next().unwrap();
        // discard the stack contents above
        let st = t.stack as usize;
        let (sp, old) = (fr.sp, t.sp);
        t.sp = sp;
        self.objs[st].clear_sym(sp as usize, (old - sp) as usize);
        self.finish_call(fr.dst, fr.normal, Some(V::C(code)));
        Some(())
    }
    fn finish_call(&mut self, dst: u32, normal: Option<u32>, v: Option<V>) {
        let t = &mut self.threads[self.cur];
        let fr = t.frames.last_mut().unwrap();
        if dst != MAXU {
            if let Some(v) = v {
                fr.regs[dst as usize] = v;
            }
        }
        match normal {
            None => fr.ip += 1,
            Some(b) => self.jump(b),
        }
    }
    fn jump(&mut self, to: u32) {
        let fr: *mut Frame = self.threads[self.cur].frames.last_mut().unwrap();
        unsafe {
            let from = (*fr).bb;
            let f: *const Func = &*(*fr).f;
            let b = &(*f).blocks[to as usize];
            if !b.phis.is_empty() {
                if b.phis.len() == 1 {
                    let p = &b.phis[0];
                    let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                    let v = self.get(&(*fr).regs, o);
                    (*fr).regs[p.dst as usize] = v;
                } else {
                    let mut tmp = Vec::with_capacity(b.phis.len());
                    for p in &b.phis {
                        let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                        tmp.push(self.get(&(*fr).regs, o));
                    }
                    for (p, v) in b.phis.iter().zip(tmp) {
                        (*fr).regs[p.dst as usize] = v;
                    }
                }
            }
            (*fr).bb = to;
            (*fr).ip = 0;
        }
    }
    #[inline]
    fn get(&self, regs: &[V], o: &Opd) -> V {
        match o {
            Opd::R(r) => regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::K(k) => self.pool[*k as usize].clone(),
        }
    }

    pub fn push_call(&mut self, fi: u32, args: &[V], dst: u32, normal: Option<u32>, catch: bool) {
        let f = self.func(fi);
        let t = &mut self.threads[self.cur];
        if t.frames.len() > 2000 {
            self.inconclusive("call depth");
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        let n = (f.nparams as usize).min(args.len());
        regs[..n].clone_from_slice(&args[..n]);
        let sp = t.sp;
        t.frames.push(Frame { f, bb: 0, ip: 0, regs, sp, dst, normal, catch });
    }
    pub fn new_thread(&mut self) -> usize {
        let st = self.new_obj(0, Kind::Stack);
        let id = (st >> 32) as usize;
        self.objs[id].size = 64 << 20;
        let errno = self.new_obj(8, Kind::Global);
        self.threads.push(Thread { frames: vec![], stack: id as u32, sp: 64, state: TState::Run, granted: false, errno, tls: HashMap::new() });
        self.threads.len() - 1
    }
    pub fn tls_addr(&mut self, a: u64) -> u64 {
        if self.cur == 0 {
            return a;
        }
        let o = (a >> 32) as u32;
        if let Some(&x) = self.threads[self.cur].tls.get(&o) {
            return x | (a & 0xffff_ffff);
        }
        let g = match self.gaddr.iter().position(|&x| x >> 32 == o as u64) {
            Some(g) => g,
            None => self.die_internal("tls global"),
        };
        let n = self.new_obj(self.m.globals[g].ty.size(), Kind::Global);
        self.init_global(g, n);
        self.threads[self.cur].tls.insert(o, n);
        n | (a & 0xffff_ffff)
    }

    fn target(&mut self, name: &str) -> Target {
        if let Some(n) = crate::env::hook(name) {
            self.names.push(Box::leak(name.to_string().into_boxed_str()));
            return Target::Nat(n, self.names.len() as u32 - 1);
        }
        if let Some(&f) = self.m.fidx.get(name) {
            if self.m.funcs[f].text.is_some() {
                return Target::Fn(f as u32);
            }
        }
        if let Some(&(a, b)) = self.m.alias.get(name) {
            let m = self.m;
            let mut lx = Lex::new(&m.src, a, b);
            let t = m.ty(&mut lx);
            if let Const::Global(g) = m.konst(&t, &mut lx) {
                return self.target(&g);
            }
        }
        match crate::env::native(name) {
            Some(n) => {
                self.names.push(Box::leak(name.to_string().into_boxed_str()));
                Target::Nat(n, self.names.len() as u32 - 1)
            }
            None => self.inconclusive(&format!("unsupported external function {}", name)),
        }
    }
    pub fn fn_of_addr(&mut self, a: u64) -> u32 {
        let o = (a >> 32) as usize;
        match self.objs.get(o).map(|x| x.kind) {
            Some(Kind::Func(f)) => f,
            _ => {
                self.violation(&format!("call through a bad pointer {:#x}", a), true);
                self.end_path("fault")
            }
        }
    }

    // ---- scalar operations ------------------------------------------------------
    fn bin1(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => (s64(x, w) >> y.min(w as u64 - 1)) as u64,
                BinOp::UDiv => if y == 0 { 0 } else { x / y },
                BinOp::URem => if y == 0 { 0 } else { x % y },
                BinOp::SDiv => if y == 0 { 0 } else { s64(x, w).wrapping_div(s64(y, w)) as u64 },
                BinOp::SRem => if y == 0 { 0 } else { s64(x, w).wrapping_rem(s64(y, w)) as u64 },
                BinOp::FAdd => fp_eval(F::Add, w, w, x as u128, y as u128) as u64,
                BinOp::FSub => fp_eval(F::Sub, w, w, x as u128, y as u128) as u64,
                BinOp::FMul => fp_eval(F::Mul, w, w, x as u128, y as u128) as u64,
                BinOp::FDiv => fp_eval(F::Div, w, w, x as u128, y as u128) as u64,
                BinOp::FRem => if w == 32 { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64 }
                               else { (f64::from_bits(x) % f64::from_bits(y)).to_bits() },
            };
            return V::C(m64(r, w));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let f = match op {
            BinOp::FAdd => Some(F::Add),
            BinOp::FSub => Some(F::Sub),
            BinOp::FMul => Some(F::Mul),
            BinOp::FDiv => Some(F::Div),
            BinOp::FRem => self.inconclusive("symbolic frem"),
            _ => None,
        };
        let r = match f {
            Some(f) => self.cx.fp(f, x, y, w),
            None => {
                let op = match op {
                    BinOp::Add => B::Add, BinOp::Sub => B::Sub, BinOp::Mul => B::Mul,
                    BinOp::And => B::And, BinOp::Or => B::Or, BinOp::Xor => B::Xor,
                    BinOp::Shl => B::Shl, BinOp::LShr => B::LShr, BinOp::AShr => B::AShr,
                    BinOp::UDiv => B::UDiv, BinOp::URem => B::URem, BinOp::SDiv => B::SDiv, _ => B::SRem,
                };
                self.cx.bin(op, x, y)
            }
        };
        self.v(r)
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (s64(x, w), s64(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let cx = &mut self.cx;
        let r = match p {
            Pred::Eq => cx.bin(B::Eq, x, y),
            Pred::Ne => {
                let t = cx.bin(B::Eq, x, y);
                cx.not(t)
            }
            Pred::Ult => cx.bin(B::Ult, x, y),
            Pred::Ugt => cx.bin(B::Ult, y, x),
            Pred::Uge => {
                let t = cx.bin(B::Ult, x, y);
                cx.not(t)
            }
            Pred::Ule => {
                let t = cx.bin(B::Ult, y, x);
                cx.not(t)
            }
            Pred::Slt => cx.bin(B::Slt, x, y),
            Pred::Sgt => cx.bin(B::Slt, y, x),
            Pred::Sge => {
                let t = cx.bin(B::Slt, x, y);
                cx.not(t)
            }
            Pred::Sle => {
                let t = cx.bin(B::Slt, y, x);
                cx.not(t)
            }
        };
        self.v(r)
    }
    fn fcmp1(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let ord = |m: &mut Machine, f: F, x: E, y: E| m.cx.fp(f, x, y, 1);
        let r = match p {
            "oeq" => ord(self, F::Eq, x, y),
            "ogt" => ord(self, F::Lt, y, x),
            "oge" => ord(self, F::Le, y, x),
            "olt" => ord(self, F::Lt, x, y),
            "ole" => ord(self, F::Le, x, y),
            "uno" => ord(self, F::Uno, x, y),
            "ord" => {
                let t = ord(self, F::Uno, x, y);
                self.cx.not(t)
            }
            "une" => {
                let t = ord(self, F::Eq, x, y);
                self.cx.not(t)
            }
            "uge" => {
                let t = ord(self, F::Lt, x, y);
                self.cx.not(t)
            }
            "ult" => {
                let t = ord(self, F::Le, y, x);
                self.cx.not(t)
            }
            "ule" => {
                let t = ord(self, F::Lt, y, x);
                self.cx.not(t)
            }
            "ugt" => {
                let t = ord(self, F::Le, x, y);
                self.cx.not(t)
            }
            "one" => {
                let a = ord(self, F::Lt, x, y);
                let b = ord(self, F::Lt, y, x);
                self.cx.or(a, b)
            }
            "ueq" => {
                let a = ord(self, F::Lt, x, y);
                let b = ord(self, F::Lt, y, x);
                let o = self.cx.or(a, b);
                self.cx.not(o)
            }
            "true" => self.cx.k(1, 1),
            _ => self.cx.k(0, 1),
        };
        self.v(r)
    }
    pub fn flatten(&mut self, t: &Ty, v: &V) -> E {
        match (t, v) {
            (Ty::Vec(n, et), V::A(xs)) => {
                let mut acc = None;
                for i in (0..*n as usize).rev() {
                    let e = self.e(&xs[i], et.bits());
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.cx.cat(a, e),
                    });
                }
                acc.unwrap()
            }
            _ => self.e(v, t.bits()),
        }
    }
    pub fn unflatten(&mut self, t: &Ty, e: E) -> V {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let v = (0..*n as u32)
                    .map(|i| {
                        let x = self.cx.ext(e, i * w, w);
                        self.v(x)
                    })
                    .collect();
                V::A(Rc::new(v))
            }
            _ => self.v(e),
        }
    }
    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &V) -> V {
        if let V::C(x) = a {
            if tw <= 64 {
                let x = *x;
                return V::C(match op {
                    CastOp::Trunc => m64(x, tw),
                    CastOp::ZExt | CastOp::Bit => x,
                    CastOp::SExt => m64(s64(x, fw) as u64, tw),
                    CastOp::FPToUI => fp_eval(F::ToU, tw, fw, x as u128, 0) as u64,
                    CastOp::FPToSI => fp_eval(F::ToS, tw, fw, x as u128, 0) as u64,
                    CastOp::UIToFP => fp_eval(F::FromU, tw, fw, x as u128, 0) as u64,
                    CastOp::SIToFP => fp_eval(F::FromS, tw, fw, x as u128, 0) as u64,
                    CastOp::FPTrunc | CastOp::FPExt => fp_eval(F::Cvt, tw, fw, x as u128, 0) as u64,
                });
            }
        }
        let e = self.e(a, fw);
        let z = self.cx.k(0, fw);
        let r = match op {
            CastOp::Trunc => self.cx.ext(e, 0, tw),
            CastOp::ZExt => self.cx.zext(e, tw),
            CastOp::SExt => self.cx.sext(e, tw),
            CastOp::Bit => e,
            CastOp::FPToUI => self.cx.fp(F::ToU, e, z, tw),
            CastOp::FPToSI => self.cx.fp(F::ToS, e, z, tw),
            CastOp::UIToFP => self.cx.fp(F::FromU, e, z, tw),
            CastOp::SIToFP => self.cx.fp(F::FromS, e, z, tw),
            CastOp::FPTrunc | CastOp::FPExt => self.cx.fp(F::Cvt, e, z, tw),
        };
        self.v(r)
    }
    pub fn select1(&mut self, c: E, a: &V, b: &V, t: &Ty) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let v = (0..x.len())
                    .map(|i| {
                        let ft = match t {
                            Ty::Struct(f, _) => f[i].clone(),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                            _ => panic!(),
                        };
                        self.select1(c, &x[i], &y[i], &ft)
                    })
                    .collect();
                V::A(Rc::new(v))
            }
            _ => {
                let w = t.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.cx.ite(c, x, y);
                self.v(r)
            }
        }
    }

    // ---- main loop -----------------------------------------------------------
    pub fn run(&mut self) -> ! {
        loop {
            let fr: *mut Frame = match self.threads[self.cur].frames.last_mut() {
                Some(f) => f,
                None => {
                    if self.cur == 0 {
                        self.end_path("done");
                    }
                    self.threads[self.cur].state = TState::Done;
                    crate::env::thread_done(self);
                    continue;
                }
            };
            unsafe {
                let f: *const Func = &*(*fr).f;
                loop {
                    let (dst, ins) = &(&(*f).blocks)[(*fr).bb as usize].ins[(*fr).ip as usize];
                    self.steps += 1;
                    if self.steps & 0xfffff == 0 {
                        self.check_stop();
                        self.flush_stats();
                        if self.steps > self.cfg.max_steps {
                            self.inconclusive("step limit");
                        }
                    }
                    let regs: *mut Vec<V> = &mut (*fr).regs;
                    macro_rules! g {
                        ($o:expr) => {
                            self.get(&*regs, $o)
                        };
                    }
                    macro_rules! set {
                        ($v:expr) => {{
                            let v = $v;
                            (*regs)[*dst as usize] = v;
                            (*fr).ip += 1;
                        }};
                    }
                    match ins {
                        Ins::Br(l) => self.jump(*l),
                        Ins::CondBr(c, a, b) => {
                            let t = match g!(c) {
                                V::C(x) => x & 1 == 1,
                                V::S(e) => self.branch(e, &(*f).name),
                                _ => panic!(),
                            };
                            self.jump(if t { *a } else { *b });
                        }
                        Ins::Switch(c, w, d, cs) => {
                            let v = g!(c);
                            match v {
                                V::C(x) => {
                                    let l = cs.iter().find(|k| k.0 == x as u128).map(|k| k.1).unwrap_or(*d);
                                    self.jump(l);
                                }
                                V::S(e) => {
                                    // group the cases by destination
                                    let mut groups: Vec<(u32, E)> = vec![];
                                    let mut any = self.cx.k(0, 1);
                                    for (k, l) in cs {
                                        let kk = self.cx.k(*k, *w);
                                        let c = self.cx.eq(e, kk);
                                        any = self.cx.or(any, c);
                                        match groups.iter_mut().find(|g| g.0 == *l) {
                                            Some(g) => g.1 = self.cx.or(g.1, c),
                                            None => groups.push((*l, c)),
                                        }
                                    }
                                    let mut to = *d;
                                    for (l, c) in groups {
                                        if l != *d && self.branch(c, &(*f).name) {
                                            to = l;
                                            break;
                                        }
                                    }
                                    self.jump(to);
                                }
                                _ => panic!(),
                            }
                        }
                        Ins::Bin(op, t, a, b) => {
                            let (x, y) = (g!(a), g!(b));
                            match t {
                                Ty::Vec(n, et) => {
                                    let w = et.bits();
                                    let (x, y) = (unagg(&x), unagg(&y));
                                    let v = (0..*n as usize).map(|i| self.bin1(*op, w, &x[i], &y[i])).collect();
                                    set!(V::A(Rc::new(v)))
                                }
                                _ => {
                                    let r = self.bin1(*op, t.bits(), &x, &y);
                                    set!(r)
                                }
                            }
                        }
                        Ins::ICmp(p, t, a, b) => {
                            let (x, y) = (g!(a), g!(b));
                            match t {
                                Ty::Vec(n, et) => {
                                    let w = et.bits();
                                    let (x, y) = (unagg(&x), unagg(&y));
                                    let v = (0..*n as usize).map(|i| self.icmp1(*p, w, &x[i], &y[i])).collect();
                                    set!(V::A(Rc::new(v)))
                                }
                                _ => {
                                    let r = self.icmp1(*p, t.bits(), &x, &y);
                                    set!(r)
                                }
                            }
                        }
                        Ins::FCmp(p, t, a, b) => {
                            if let Ty::Vec(..) = t {
                                self.inconclusive("vector fcmp");
                            }
                            let (x, y) = (g!(a), g!(b));
                            let r = self.fcmp1(p, t.bits(), &x, &y);
                            set!(r)
                        }
                        Ins::FNeg(t, a) => {
                            let x = g!(a);
                            let w = match t {
                                Ty::Vec(..) => self.inconclusive("vector fneg"),
                                _ => t.bits(),
                            };
                            let s = V::C(1u64 << (w - 1));
                            let r = self.bin1(BinOp::Xor, w, &x, &s);
                            set!(r)
                        }
                        Ins::Cast(op, t, a, t2) => {
                            let x = g!(a);
                            let r = match (t, t2) {
                                (Ty::Vec(n, et), Ty::Vec(n2, et2)) if n == n2 && (*op != CastOp::Bit || et.bits() == et2.bits()) => {
                                    let (fw, tw) = (et.bits(), et2.bits());
                                    let xs = unagg(&x);
                                    V::A(Rc::new(xs.iter().map(|v| self.cast1(*op, fw, tw, v)).collect()))
                                }
                                _ if matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..)) => {
                                    let e = self.flatten(t, &x);
                                    self.unflatten(t2, e)
                                }
                                _ => self.cast1(*op, t.bits(), t2.bits(), &x),
                            };
                            set!(r)
                        }
                        Ins::Alloca(sz, al, n) => {
                            let k = g!(n);
                            let k = self.concretise(&k, 64);
                            let t = &mut self.threads[self.cur];
                            let a = (t.sp + al - 1) / al * al;
                            t.sp = a + sz * k;
                            let p = ((t.stack as u64) << 32) | a;
                            if t.sp > 60 << 20 {
                                self.inconclusive("stack overflow");
                            }
                            set!(V::C(p))
                        }
                        Ins::Load(t, p) => {
                            let r = match g!(p) {
                                V::C(a) => self.load(t, a),
                                V::S(e) => self.load_sym(t, e),
                                _ => panic!(),
                            };
                            set!(r)
                        }
                        Ins::Store(t, v, p) => {
                            let x = g!(v);
                            let p = g!(p);
                            let a = self.concretise(&p, 64);
                            self.store(t, a, &x);
                            (*fr).ip += 1;
                        }
                        Ins::Gep(b, off, idx) => {
                            let base = g!(b);
                            let mut acc = match base {
                                V::C(x) => V::C(x.wrapping_add(*off as u64)),
                                b => {
                                    let k = V::C(*off as u64);
                                    self.bin1(BinOp::Add, 64, &b, &k)
                                }
                            };
                            for (o, w, sc) in idx {
                                match (g!(o), &acc) {
                                    (V::C(i), V::C(a)) => {
                                        acc = V::C(a.wrapping_add((s64(i, *w) as u64).wrapping_mul(*sc)));
                                    }
                                    (i, _) => {
                                        let e = self.e(&i, *w);
                                        let e = self.cx.sext(e, 64);
                                        let k = self.cx.k(*sc as u128, 64);
                                        let e = self.cx.bin(B::Mul, e, k);
                                        let a = self.e(&acc.clone(), 64);
                                        let r = self.cx.bin(B::Add, a, e);
                                        acc = self.v(r);
                                    }
                                }
                            }
                            set!(acc)
                        }
                        Ins::Select(c, a, b, t, vecc) => {
                            let cv = g!(c);
                            if *vecc {
                                let cs = unagg(&cv);
                                let (x, y) = (unagg(&g!(a)), unagg(&g!(b)));
                                let et = match t {
                                    Ty::Vec(_, e) => (**e).clone(),
                                    _ => panic!(),
                                };
                                let v = (0..cs.len())
                                    .map(|i| match &cs[i] {
                                        V::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() },
                                        V::S(e) => self.select1(*e, &x[i], &y[i], &et),
                                        _ => panic!(),
                                    })
                                    .collect();
                                set!(V::A(Rc::new(v)))
                            } else {
                                match cv {
                                    V::C(x) => {
                                        let r = if x & 1 == 1 { g!(a) } else { g!(b) };
                                        set!(r)
                                    }
                                    V::S(e) => {
                                        let (x, y) = (g!(a), g!(b));
                                        let r = self.select1(e, &x, &y, t);
                                        set!(r)
                                    }
                                    _ => panic!(),
                                }
                            }
                        }
                        Ins::Freeze(a) => {
                            let r = g!(a);
                            set!(r)
                        }
                        Ins::ExtractValue(a, ix) => {
                            let mut v = g!(a);
                            for i in ix {
                                v = match &v {
                                    V::A(x) => x[*i as usize].clone(),
                                    _ => panic!("extractvalue"),
                                };
                            }
                            set!(v)
                        }
                        Ins::InsertValue(a, _t, v, ix) => {
                            let b = g!(a);
                            let x = g!(v);
                            let r = insert(b, x, ix);
                            set!(r)
                        }
                        Ins::ExtractElement(a, i) => {
                            let i = g!(i);
                            let k = self.concretise(&i, 64) as usize;
                            let v = unagg(&g!(a))[k].clone();
                            set!(v)
                        }
                        Ins::InsertElement(a, v, i, _n) => {
                            let i = g!(i);
                            let k = self.concretise(&i, 64) as u32;
                            let r = insert(g!(a), g!(v), &[k]);
                            set!(r)
                        }
                        Ins::Shuffle(a, b, n, mask) => {
                            let (x, y) = (unagg(&g!(a)), unagg(&g!(b)));
                            let v = mask
                                .iter()
                                .map(|&k| {
                                    if k < 0 {
                                        x[0].clone()
                                    } else if (k as u64) < *n {
                                        x[k as usize].clone()
                                    } else {
                                        y[k as usize - *n as usize].clone()
                                    }
                                })
                                .collect();
                            set!(V::A(Rc::new(v)))
                        }
                        Ins::CmpXchg(p, t, c, n) => {
                            let p = g!(p);
                            let a = self.concretise(&p, 64);
                            let (cv, nv) = (g!(c), g!(n));
                            let old = self.load(t, a);
                            let eq = self.icmp1(Pred::Eq, t.bits(), &old, &cv);
                            let ok = match eq {
                                V::C(x) => x == 1,
                                V::S(e) => self.branch(e, "cmpxchg"),
                                _ => panic!(),
                            };
                            if ok {
                                self.store(t, a, &nv);
                            }
                            set!(V::A(Rc::new(vec![old, V::C(ok as u64)])))
                        }
                        Ins::AtomicRmw(op, p, t, v) => {
                            let p = g!(p);
                            let a = self.concretise(&p, 64);
                            let x = g!(v);
                            let old = self.load(t, a);
                            let w = t.bits();
                            let n = match op.as_str() {
                                "add" => self.bin1(BinOp::Add, w, &old, &x),
                                "sub" => self.bin1(BinOp::Sub, w, &old, &x),
                                "and" => self.bin1(BinOp::And, w, &old, &x),
                                "or" => self.bin1(BinOp::Or, w, &old, &x),
                                "xor" => self.bin1(BinOp::Xor, w, &old, &x),
                                "xchg" => x,
                                _ => self.inconclusive("atomicrmw op"),
                            };
                            self.store(t, a, &n);
                            set!(old)
                        }
                        Ins::Nop => (*fr).ip += 1,
                        Ins::Ret(o) => {
                            let v = o.as_ref().map(|o| g!(o));
                            let t = &mut self.threads[self.cur];
                            let fr = t.frames.pop().unwrap();
                            let (st, old) = (t.stack as usize, t.sp);
                            t.sp = fr.sp;
                            self.objs[st].clear_sym(fr.sp as usize, (old - fr.sp) as usize);
                            if !self.threads[self.cur].frames.is_empty() {
                                let v = if fr.catch { Some(V::C(0)) } else { v };
                                self.finish_call(fr.dst, fr.normal, v);
                            }
                            break;
                        }
                        Ins::Unreachable => {
                            self.violation("reached unreachable code", true);
                            self.end_path("unreachable");
                        }
                        Ins::Landingpad => self.die_internal("landingpad reached"),
                        Ins::Phi => unreachable!(),
                        Ins::Call { callee, id, args, byval, ret, normal } => {
                            let mut av: Vec<V> = Vec::with_capacity(args.len());
                            for (o, _) in args {
                                av.push(g!(o));
                            }
                            let tgt = match callee {
                                Callee::Direct(n) => {
                                    let mut t = self.targets[*id as usize];
                                    if let Target::None = t {
                                        t = self.target(n);
                                        self.targets[*id as usize] = t;
                                    }
                                    t
                                }
                                Callee::Indirect(o) => {
                                    let p = g!(o);
                                    let a = self.concretise(&p, 64);
                                    let fi = self.fn_of_addr(a);
                                    match self.itargets.get(&fi) {
                                        Some(t) => *t,
                                        None => {
                                            let m = self.m;
                                            let t = self.target(&m.funcs[fi as usize].name);
                                            self.itargets.insert(fi, t);
                                            t
                                        }
                                    }
                                }
                                Callee::Asm(s) => {
                                    let r = crate::env::inline_asm(self, s, &av, ret);
                                    if *dst != MAXU {
                                        set!(r)
                                    } else {
                                        (*fr).ip += 1;
                                    }
                                    continue;
                                }
                            };
                            match tgt {
                                Target::Fn(fi) => {
                                    for (i, b) in byval.iter().enumerate() {
                                        if let Some(sz) = b {
                                            let t = &mut self.threads[self.cur];
                                            let a = (t.sp + 15) / 16 * 16;
                                            t.sp = a + sz;
                                            let p = ((t.stack as u64) << 32) | a;
                                            let s = self.concretise(&av[i].clone(), 64);
                                            self.memcpy(p, s, *sz);
                                            av[i] = V::C(p);
                                        }
                                    }
                                    self.push_call(fi, &av, *dst, *normal, false);
                                    break;
                                }
                                Target::Nat(n, ni) => {
                                    let name = self.names[ni as usize];
                                    let cc = Cc { name, args: &av, tys: args, ret };
                                    let before = self.cur;
                                    match n(self, &cc) {
                                        Flow::Val(v) => self.finish_call(*dst, *normal, Some(v)),
                                        Flow::Void => self.finish_call(*dst, *normal, None),
                                        Flow::Pushed => {
                                            // the native pushed a frame whose return continues here
                                            let k = self.threads[self.cur].frames.len() - 1;
                                            let nf = &mut self.threads[self.cur].frames[k];
                                            nf.dst = *dst;
                                            nf.normal = *normal;
                                            break;
                                        }
                                        Flow::Throw(code) => {
                                            if self.throw(code).is_none() {
                                                self.end_path("uncaught");
                                            }
                                            break;
                                        }
                                        Flow::Yield => break,
                                    }
                                    if self.cur != before {
                                        break;
                                    }
                                }
                                Target::None => unreachable!(),
                            }
                        }
                    }
                }
            }
        }
    }
}

fn unagg(v: &V) -> Rc<Vec<V>> {
    match v {
        V::A(x) => x.clone(),
        _ => panic!("vector expected"),
    }
}
fn insert(b: V, x: V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return x;
    }
    match b {
        V::A(mut rc) => {
            let v = Rc::make_mut(&mut rc);
            let old = std::mem::replace(&mut v[ix[0] as usize], V::C(0));
            v[ix[0] as usize] = insert(old, x, &ix[1..]);
            V::A(rc)
        }
        _ => panic!("insertvalue into scalar"),
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
