//! Hash-consed bit-vector expressions with on-the-fly simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F { Add, Sub, Mul, Div, Eq, Lt, Le, Uno, FromU, FromS, ToU, ToS, Cvt }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(u128),
    Var(u32),
    Bin(B, E, E),
    Not(E),
    Ite(E, E, E),
    Cat(E, E),
    Ext(E, u16),
    ZExt(E),
    SExt(E),
    /// floating point operation on IEEE bit patterns
    Fp(F, E, E),
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub struct Var {
    pub name: String,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub w: Vec<u16>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    tab: FxMap<(N, u16), E>,
    pub vars: Vec<Var>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn bits_for(v: u128) -> u32 {
    128 - v.leading_zeros()
}

pub fn fp_eval(op: F, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let f = |x: u128| -> f64 {
        if aw == 32 {
            f32::from_bits(x as u32) as f64
        } else {
            f64::from_bits(x as u64)
        }
    };
    let out = |d: f64, w: u32| -> u128 {
        if w == 32 {
            (d as f32).to_bits() as u128
        } else {
            d.to_bits() as u128
        }
    };
    match op {
        F::Add | F::Sub | F::Mul | F::Div => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op {
                    F::Add => x + y,
                    F::Sub => x - y,
                    F::Mul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            } else {
                let (x, y) = (f(a), f(b));
                let r = match op {
                    F::Add => x + y,
                    F::Sub => x - y,
                    F::Mul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            }
        }
        F::Eq => (f(a) == f(b)) as u128,
        F::Lt => (f(a) < f(b)) as u128,
        F::Le => (f(a) <= f(b)) as u128,
        F::Uno => (f(a).is_nan() || f(b).is_nan()) as u128,
        F::FromU => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        F::FromS => {
            let s = sx(a, aw);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        F::ToU => {
            let d = f(a);
            (d as u128) & mask(w)
        }
        F::ToS => {
            let d = f(a);
            ((d as i128) as u128) & mask(w)
        }
        F::Cvt => {
            if aw == w {
                a
            } else if w == 32 {
                out(f(a), 32)
            } else {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            }
        }
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], w: vec![], lo: vec![], hi: vec![], tab: Default::default(), vars: vec![] };
        // entry 0 is reserved: "no expression"
        c.nodes.push(N::K(0xdead));
        c.w.push(0);
        c.lo.push(0);
        c.hi.push(0);
        c
    }
    #[inline]
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize] as u32
    }
    #[inline]
    pub fn node(&self, e: E) -> N {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.raw(N::K(v & mask(w)), w)
    }
    #[inline]
    pub fn as_k(&self, e: E) -> Option<u128> {
        if let N::K(v) = self.nodes[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    fn raw(&mut self, n: N, w: u32) -> E {
        if let Some(&e) = self.tab.get(&(n, w as u16)) {
            return e;
        }
        let (lo, hi) = self.range_of(n, w);
        if lo == hi {
            if !matches!(n, N::K(_)) {
                return self.k(lo, w);
            }
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.w.push(w as u16);
        self.lo.push(lo);
        self.hi.push(hi);
        self.tab.insert((n, w as u16), e);
        e
    }
    pub fn var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(Var { name: name.to_string(), w, lo, hi });
        if lo == hi {
            return self.k(lo, w);
        }
        let e = self.nodes.len() as E;
        self.nodes.push(N::Var(id));
        self.w.push(w as u16);
        self.lo.push(lo);
        self.hi.push(hi);
        e
    }
    fn r(&self, e: E) -> (u128, u128) {
        (self.lo[e as usize], self.hi[e as usize])
    }
    fn range_of(&self, n: N, w: u32) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        match n {
            N::K(v) => (v, v),
            N::Var(i) => (self.vars[i as usize].lo, self.vars[i as usize].hi),
            N::Not(a) => {
                let (l, h) = self.r(a);
                (m - h, m - l)
            }
            N::Ite(_, a, b) => {
                let (al, ah) = self.r(a);
                let (bl, bh) = self.r(b);
                (al.min(bl), ah.max(bh))
            }
            N::Cat(a, b) => {
                let bw = self.width(b);
                let (al, ah) = self.r(a);
                let (bl, bh) = self.r(b);
                ((al << bw) | bl, (ah << bw) | bh)
            }
            N::Ext(a, lo) => {
                let (al, ah) = self.r(a);
                let (l2, h2) = (al >> lo, ah >> lo);
                if h2 <= m {
                    (l2, h2)
                } else if (l2 & !m) == (h2 & !m) {
                    (l2 & m, h2 & m)
                } else {
                    full
                }
            }
            N::ZExt(a) => self.r(a),
            N::SExt(a) => {
                let aw = self.width(a);
                let (l, h) = self.r(a);
                if h < (1u128 << (aw - 1)) {
                    (l, h)
                } else if l >= (1u128 << (aw - 1)) {
                    ((sx(l, aw) as u128) & m, (sx(h, aw) as u128) & m)
                } else {
                    full
                }
            }
            N::Fp(..) => full,
            N::Bin(op, a, b) => {
                let (al, ah) = self.r(a);
                let (bl, bh) = self.r(b);
                match op {
                    B::Add => {
                        if w < 128 {
                            let (l, h) = (al + bl, ah + bh);
                            if h <= m {
                                (l, h)
                            } else if l > m && h <= 2 * m + 1 {
                                (l & m, h & m)
                            } else {
                                full
                            }
                        } else {
                            full
                        }
                    }
                    B::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else {
                            full
                        }
                    }
                    B::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => full,
                    },
                    B::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    B::URem => {
                        if bl > 0 {
                            (0, ah.min(bh - 1))
                        } else {
                            (0, ah)
                        }
                    }
                    B::And => (0, ah.min(bh)),
                    B::Or | B::Xor => {
                        let h = ah | bh;
                        let hb = mask(bits_for(h));
                        (if op == B::Or { al.max(bl) } else { 0 }, hb.min(m))
                    }
                    B::LShr => (0, ah),
                    B::Eq => {
                        if ah < bl || bh < al {
                            (0, 0)
                        } else if al == ah && bl == bh && al == bl {
                            (1, 1)
                        } else {
                            (0, 1)
                        }
                    }
                    B::Ult => {
                        if ah < bl {
                            (1, 1)
                        } else if al >= bh {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                    B::Slt => (0, 1),
                    _ => full,
                }
            }
        }
    }

    // ---- constructors -----------------------------------------------------
    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match self.node(a) {
            N::K(v) => self.k(!v, w),
            N::Not(x) => x,
            _ => self.raw(N::Not(a), w),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(B::Eq, a, b)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            N::K(v) => self.k(v, w),
            N::ZExt(x) => self.raw(N::ZExt(x), w),
            N::Ite(c, x, y) if self.as_k(x).is_some() && self.as_k(y).is_some() => {
                let x2 = self.zext(x, w);
                let y2 = self.zext(y, w);
                self.ite(c, x2, y2)
            }
            N::Ext(x, 0) if self.hi[x as usize] >> aw == 0 => {
                let xw = self.width(x);
                if xw > w {
                    self.ext(x, 0, w)
                } else {
                    self.zext(x, w)
                }
            }
            _ => self.raw(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.as_k(a) {
            return self.k(sx(v, aw) as u128, w);
        }
        if self.hi[a as usize] < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        if aw == 1 {
            let x = self.k(u128::MAX, w);
            let y = self.k(0, w);
            return self.ite(a, x, y);
        }
        if let N::SExt(x) = self.node(a) {
            return self.raw(N::SExt(x), w);
        }
        self.raw(N::SExt(a), w)
    }
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.width(a);
        debug_assert!(lo + w <= aw);
        if w == aw {
            return a;
        }
        match self.node(a) {
            N::K(v) => return self.k(v >> lo, w),
            N::Ext(x, l2) => return self.ext(x, l2 as u32 + lo, w),
            N::Cat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    return self.ext(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.ext(l, lo, w);
                }
                let hp = self.ext(h, 0, lo + w - lw);
                let lp = self.ext(l, lo, lw - lo);
                return self.cat(hp, lp);
            }
            N::ZExt(x) => {
                let xw = self.width(x);
                if lo >= xw {
                    return self.k(0, w);
                }
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                let p = self.ext(x, lo, xw - lo);
                return self.zext(p, w);
            }
            N::SExt(x) => {
                let xw = self.width(x);
                if lo + w <= xw {
                    return self.ext(x, lo, w);
                }
                if lo < xw {
                    let p = self.ext(x, lo, xw - lo);
                    return self.sext(p, w);
                }
                let s = self.ext(x, xw - 1, 1);
                return self.sext(s, w);
            }
            N::Ite(c, x, y) => {
                let (kx, ky) = (self.as_k(x).is_some(), self.as_k(y).is_some());
                if kx || ky {
                    let x2 = self.ext(x, lo, w);
                    let y2 = self.ext(y, lo, w);
                    return self.ite(c, x2, y2);
                }
            }
            N::Not(x) => {
                let p = self.ext(x, lo, w);
                return self.not(p);
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let x2 = self.ext(x, lo, w);
                let y2 = self.ext(y, lo, w);
                return self.bin(op, x2, y2);
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let x2 = self.ext(x, 0, w);
                let y2 = self.ext(y, 0, w);
                return self.bin(op, x2, y2);
            }
            _ => {}
        }
        if lo > 0 && self.hi[a as usize] >> lo == 0 {
            return self.k(0, w);
        }
        self.raw(N::Ext(a, lo as u16), w)
    }
    /// Like `ext`, but leaves arithmetic and choices whole, so that a value
    /// written to memory byte by byte is recognised when it is read back.
    pub fn ext_lazy(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.width(a);
        if w == aw {
            return a;
        }
        match self.node(a) {
            N::K(_) => return self.ext(a, lo, w),
            N::Ext(x, l2) => return self.ext_lazy(x, l2 as u32 + lo, w),
            N::Cat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    return self.ext_lazy(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.ext_lazy(l, lo, w);
                }
            }
            N::ZExt(x) => {
                let xw = self.width(x);
                if lo >= xw {
                    return self.k(0, w);
                }
                if lo + w <= xw {
                    return self.ext_lazy(x, lo, w);
                }
                return self.ext(a, lo, w);
            }
            _ => {}
        }
        if lo > 0 && self.hi[a as usize] >> lo == 0 {
            return self.k(0, w);
        }
        self.raw(N::Ext(a, lo as u16), w)
    }
    /// The value of an extract as the simplifier would have built it.
    pub fn settle(&mut self, a: E) -> E {
        match self.node(a) {
            N::Ext(x, l) => {
                let w = self.width(a);
                self.ext(x, l as u32, w)
            }
            N::ZExt(x) => {
                let w = self.width(a);
                let y = self.settle(x);
                if y == x { a } else { self.zext(y, w) }
            }
            N::Cat(p, q) => {
                let (p2, q2) = (self.settle(p), self.settle(q));
                if p2 == p && q2 == q { a } else { self.cat(p2, q2) }
            }
            _ => a,
        }
    }
    pub fn cat(&mut self, a: E, b: E) -> E {
        let (aw, bw) = (self.width(a), self.width(b));
        let w = aw + bw;
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return self.k((x << bw) | y, w);
        }
        if self.as_k(a) == Some(0) {
            return self.zext(b, w);
        }
        if let N::ZExt(x) = self.node(a) {
            let p = self.cat(x, b);
            return self.zext(p, w);
        }
        if let Some(m) = self.merge(a, b) {
            return m;
        }
        if let N::Cat(p, q) = self.node(a) {
            if let Some(m) = self.merge(q, b) {
                return self.cat(p, m);
            }
            if self.as_k(q).is_some() && self.as_k(b).is_some() {
                let m = self.cat(q, b);
                return self.cat(p, m);
            }
        }
        if let N::Cat(p, q) = self.node(b) {
            if let Some(m) = self.merge(a, p) {
                return self.cat(m, q);
            }
        }
        self.raw(N::Cat(a, b), w)
    }
    /// Adjacent extracts of one value.
    fn merge(&mut self, a: E, b: E) -> Option<E> {
        let bw = self.width(b);
        let (xb, lb) = match self.node(b) {
            N::Ext(x, l) => (x, l as u32),
            _ => return self.merge_low(a, b),
        };
        match self.node(a) {
            N::Ext(x, l) if x == xb && l as u32 == lb + bw => Some(self.ext_lazy(x, lb, bw + self.width(a))),
            _ => None,
        }
    }
    fn merge_low(&mut self, _a: E, _b: E) -> Option<E> {
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_k(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.node(c) {
            return self.ite(x, b, a);
        }
        let w = self.width(a);
        if w == 1 {
            match (self.as_k(a), self.as_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let N::Ite(c2, x, y) = self.node(b) {
            // ite(c, a, ite(c2, a, y)) = ite(c|c2, a, y)
            if x == a {
                let d = self.or(c, c2);
                return self.ite(d, a, y);
            }
        }
        self.raw(N::Ite(c, a, b), w)
    }
    fn fold(op: B, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        (match op {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::UDiv => if b == 0 { m } else { a / b },
            B::URem => if b == 0 { a } else { a % b },
            B::SDiv => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 { m } else { x.wrapping_div(y) as u128 }
            }
            B::SRem => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 { a } else { x.wrapping_rem(y) as u128 }
            }
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::Shl => if b >= w as u128 { 0 } else { a << b },
            B::LShr => if b >= w as u128 { 0 } else { a >> b },
            B::AShr => {
                let s = if b >= w as u128 { w as u128 - 1 } else { b };
                (sx(a, w) >> s) as u128
            }
            B::Eq => return (a == b) as u128,
            B::Ult => return (a < b) as u128,
            B::Slt => return (sx(a, w) < sx(b, w)) as u128,
        }) & m
    }
    /// Splits into (width, None = zero bits | Some) segments, high first.
    fn segs(&mut self, e: E, out: &mut Vec<(u32, Option<E>)>) {
        let w = self.width(e);
        match self.node(e) {
            N::K(0) => out.push((w, None)),
            N::ZExt(x) => {
                let xw = self.width(x);
                out.push((w - xw, None));
                self.segs(x, out);
            }
            N::Cat(a, b) => {
                self.segs(a, out);
                self.segs(b, out);
            }
            _ => out.push((w, Some(e))),
        }
    }
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let has_zero = |c: &Ctx, e: E| matches!(c.node(e), N::ZExt(_) | N::Cat(..));
        if !has_zero(self, a) || !has_zero(self, b) {
            return None;
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        sa.reverse();
        sb.reverse();
        let mut acc: Option<E> = None;
        let mut parts = vec![];
        while let (Some((wa, ea)), Some((wb, eb))) = (sa.pop(), sb.pop()) {
            let w = wa.min(wb);
            // take the top w bits of each
            let (ta, tb);
            if wa > w {
                ta = ea.map(|x| self.ext(x, wa - w, w));
                let rest = ea.map(|x| self.ext(x, 0, wa - w));
                sa.push((wa - w, rest));
            } else {
                ta = ea;
            }
            if wb > w {
                tb = eb.map(|x| self.ext(x, wb - w, w));
                let rest = eb.map(|x| self.ext(x, 0, wb - w));
                sb.push((wb - w, rest));
            } else {
                tb = eb;
            }
            match (ta, tb) {
                (Some(_), Some(_)) => return None,
                (Some(x), None) | (None, Some(x)) => parts.push(x),
                (None, None) => parts.push(self.k(0, w)),
            }
        }
        for p in parts {
            acc = Some(match acc {
                None => p,
                Some(q) => self.cat(q, p),
            });
        }
        acc
    }
    pub fn bin(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{:?}", op);
        let rw = if matches!(op, B::Eq | B::Ult | B::Slt) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return self.k(Self::fold(op, w, x, y), rw);
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq);
        if comm && (self.as_k(a).is_some() || (self.as_k(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.as_k(b);
        let ka = self.as_k(a);
        let m = mask(w);
        // push a constant operand into an ite of constants
        if let (Some(_), N::Ite(c, x, y)) = (kb, self.node(a)) {
            let both = self.as_k(x).is_some() && self.as_k(y).is_some();
            let cmp_one = rw == 1 && (self.as_k(x).is_some() || self.as_k(y).is_some());
            if both || cmp_one {
                let p = self.bin(op, x, b);
                let q = self.bin(op, y, b);
                return self.ite(c, p, q);
            }
        }
        if let (Some(_), N::Ite(c, x, y)) = (ka, self.node(b)) {
            if self.as_k(x).is_some() && self.as_k(y).is_some() {
                let p = self.bin(op, a, x);
                let q = self.bin(op, a, y);
                return self.ite(c, p, q);
            }
        }
        match op {
            B::Add => {
                if kb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
                if let (Some(k2), N::Bin(B::Add, x, y)) = (kb, self.node(a)) {
                    if let Some(k1) = self.as_k(y) {
                        let k = self.k(k1.wrapping_add(k2), w);
                        return self.bin(B::Add, x, k);
                    }
                }
                if kb.is_none() {
                    for (p, q) in [(a, b), (b, a)] {
                        if let N::Bin(B::Add, x, y) = self.node(q) {
                            if self.as_k(y).is_some() {
                                let s = self.bin(B::Add, p, x);
                                return self.bin(B::Add, s, y);
                            }
                        }
                        // p + (x - p) = x
                        if let N::Bin(B::Sub, x, y) = self.node(q) {
                            if y == p {
                                return x;
                            }
                        }
                    }
                    if let Some(r) = self.disjoint_or(a, b) {
                        return r;
                    }
                }
            }
            B::Sub => {
                if a == b {
                    return self.k(0, w);
                }
                if let Some(k) = kb {
                    let nk = self.k(k.wrapping_neg(), w);
                    return self.bin(B::Add, a, nk);
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
                let split = |c: &Ctx, e: E| -> (E, u128) {
                    if let N::Bin(B::Add, x, y) = c.node(e) {
                        if let Some(k) = c.as_k(y) {
                            return (x, k);
                        }
                    }
                    (e, 0)
                };
                let (xa, k1) = split(self, a);
                let (xb, k2) = split(self, b);
                if xa == xb {
                    return self.k(k1.wrapping_sub(k2), w);
                }
                if k1 != 0 || k2 != 0 {
                    let d = self.bin(B::Sub, xa, xb);
                    let k = self.k(k1.wrapping_sub(k2), w);
                    return self.bin(B::Add, d, k);
                }
                if let N::Bin(B::Add, x, y) = self.node(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
                if let N::Bin(B::Add, x, y) = self.node(b) {
                    if x == a {
                        let z = self.k(0, w);
                        return self.bin(B::Sub, z, y);
                    }
                    if y == a {
                        let z = self.k(0, w);
                        return self.bin(B::Sub, z, x);
                    }
                }
            }
            B::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::And, a, b);
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(k.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, s);
                    }
                }
                if let Some(h) = self.hi[a as usize].checked_mul(self.hi[b as usize]) {
                    let need = bits_for(h).max(1);
                    if need < w {
                        let x = self.ext(a, 0, need);
                        let y = self.ext(b, 0, need);
                        let p = self.bin_raw(B::Mul, x, y, need);
                        return self.zext(p, w);
                    }
                }
            }
            B::UDiv | B::URem => {
                if kb == Some(1) {
                    return if op == B::UDiv { a } else { self.k(0, w) };
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        if op == B::UDiv {
                            let p = self.ext(a, s, w - s);
                            return self.zext(p, w);
                        } else {
                            let p = self.ext(a, 0, s);
                            return self.zext(p, w);
                        }
                    }
                }
                if self.hi[a as usize] < self.lo[b as usize] {
                    return if op == B::UDiv { self.k(0, w) } else { a };
                }
                let need = bits_for(self.hi[a as usize].max(self.hi[b as usize])).max(1);
                if need < w && self.lo[b as usize] > 0 {
                    let x = self.ext(a, 0, need);
                    let y = self.ext(b, 0, need);
                    let p = self.bin_raw(op, x, y, need);
                    return self.zext(p, w);
                }
            }
            B::SDiv | B::SRem => {
                let half = 1u128 << (w - 1);
                if self.hi[a as usize] < half && self.hi[b as usize] < half {
                    return self.bin(if op == B::SDiv { B::UDiv } else { B::URem }, a, b);
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if let Some(k) = kb {
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    let run = k >> tz;
                    if (run & (run + 1)) == 0 && w > 1 {
                        let n = bits_for(run);
                        let p = self.ext(a, tz, n);
                        let p = if tz > 0 {
                            let z = self.k(0, tz);
                            self.cat(p, z)
                        } else {
                            p
                        };
                        return self.zext(p, w);
                    }
                    if self.hi[a as usize] <= mask(tz) && tz > 0 {
                        return self.k(0, w);
                    }
                    if let N::Bin(B::And, x, y) = self.node(a) {
                        if let Some(k1) = self.as_k(y) {
                            let kk = self.k(k & k1, w);
                            return self.bin(B::And, x, kk);
                        }
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.k(0, 1);
                    }
                    if let N::Bin(B::And, x, y) = self.node(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                    if let N::Bin(B::And, x, y) = self.node(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                }
                // zext & zext
                if let (N::ZExt(x), N::ZExt(y)) = (self.node(a), self.node(b)) {
                    if self.width(x) == self.width(y) {
                        let p = self.bin(B::And, x, y);
                        return self.zext(p, w);
                    }
                }
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.k(1, 1);
                    }
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.node(a), self.node(b)) {
                    if self.width(x) == self.width(y) {
                        let p = self.bin(B::Or, x, y);
                        return self.zext(p, w);
                    }
                }
                if let Some(r) = self.disjoint_or(a, b) {
                    return r;
                }
            }
            B::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return self.not(a);
                }
                if let (Some(k2), N::Bin(B::Xor, x, y)) = (kb, self.node(a)) {
                    if let Some(k1) = self.as_k(y) {
                        let k = self.k(k1 ^ k2, w);
                        return self.bin(B::Xor, x, k);
                    }
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.node(a), self.node(b)) {
                    if self.width(x) == self.width(y) {
                        let p = self.bin(B::Xor, x, y);
                        return self.zext(p, w);
                    }
                }
                if w > 1 && kb.is_none() {
                    if let Some(r) = self.disjoint_or(a, b) {
                        return r;
                    }
                }
            }
            B::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let k = k as u32;
                    let p = self.ext(a, 0, w - k);
                    let z = self.k(0, k);
                    return self.cat(p, z);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            B::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let k = k as u32;
                    let p = self.ext(a, k, w - k);
                    return self.zext(p, w);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            B::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let p = self.ext(a, k, w - k);
                    return self.sext(p, w);
                }
                if self.hi[a as usize] < 1u128 << (w - 1) {
                    return self.bin(B::LShr, a, b);
                }
            }
            B::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(B::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = kb {
                    if k < self.lo[a as usize] || k > self.hi[a as usize] {
                        return self.k(0, 1);
                    }
                    match self.node(a) {
                        N::Bin(B::Add, x, y) => {
                            if let Some(k1) = self.as_k(y) {
                                let kk = self.k(k.wrapping_sub(k1), w);
                                return self.bin(B::Eq, x, kk);
                            }
                        }
                        N::Bin(B::Xor, x, y) => {
                            if let Some(k1) = self.as_k(y) {
                                let kk = self.k(k ^ k1, w);
                                return self.bin(B::Eq, x, kk);
                            }
                            if k == 0 {
                                return self.bin(B::Eq, x, y);
                            }
                        }
                        N::Bin(B::Sub, x, y) if k == 0 => return self.bin(B::Eq, x, y),
                        N::Bin(B::Or, x, y) if k == 0 => {
                            let p = self.bin(B::Eq, x, b);
                            let q = self.bin(B::Eq, y, b);
                            return self.and(p, q);
                        }
                        N::Not(x) => {
                            let kk = self.k(!k, w);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::ZExt(x) => {
                            let xw = self.width(x);
                            let kk = self.k(k, xw);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::SExt(x) => {
                            let xw = self.width(x);
                            if (sx(k & mask(xw), xw) as u128) & m != k {
                                return self.k(0, 1);
                            }
                            let kk = self.k(k, xw);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::Cat(x, y) => {
                            let (xw, yw) = (self.width(x), self.width(y));
                            let kx = self.k(k >> yw, xw);
                            let ky = self.k(k, yw);
                            let p = self.bin(B::Eq, x, kx);
                            let q = self.bin(B::Eq, y, ky);
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                } else {
                    match (self.node(a), self.node(b)) {
                        (N::ZExt(x), N::ZExt(y)) => {
                            let (xw, yw) = (self.width(x), self.width(y));
                            let mw = xw.max(yw);
                            if mw < w {
                                let x2 = self.zext(x, mw);
                                let y2 = self.zext(y, mw);
                                return self.bin(B::Eq, x2, y2);
                            }
                        }
                        (N::SExt(x), N::SExt(y)) if self.width(x) == self.width(y) => return self.bin(B::Eq, x, y),
                        (N::Cat(x, y), N::Cat(x2, y2)) if self.width(x) == self.width(x2) => {
                            let p = self.bin(B::Eq, x, x2);
                            let q = self.bin(B::Eq, y, y2);
                            return self.and(p, q);
                        }
                        (N::Bin(B::Add, x, y), _) if x == b => {
                            let z = self.k(0, w);
                            return self.bin(B::Eq, y, z);
                        }
                        (_, N::Bin(B::Add, x, y)) if x == a => {
                            let z = self.k(0, w);
                            return self.bin(B::Eq, y, z);
                        }
                        _ => {}
                    }
                }
            }
            B::Ult => {
                if a == b {
                    return self.k(0, 1);
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.and(n, b);
                }
                if kb == Some(1) {
                    let z = self.k(0, w);
                    return self.bin(B::Eq, a, z);
                }
                if ka == Some(0) {
                    let z = self.bin(B::Eq, b, a);
                    return self.not(z);
                }
                if ka == Some(m - 1) {
                    let z = self.k(m, w);
                    return self.bin(B::Eq, b, z);
                }
                if self.hi[a as usize] < self.lo[b as usize] {
                    return self.k(1, 1);
                }
                if self.lo[a as usize] >= self.hi[b as usize] {
                    return self.k(0, 1);
                }
                // a sum that cannot wrap is not below its own terms
                if let N::Bin(B::Add, x, y) = self.node(a) {
                    if x == b || y == b {
                        if let Some(h) = self.hi[x as usize].checked_add(self.hi[y as usize]) {
                            if h <= m {
                                return self.k(0, 1);
                            }
                        }
                    }
                }
                // drop zero high bits
                let need = bits_for(self.hi[a as usize].max(self.hi[b as usize])).max(1);
                if need < w && (matches!(self.node(a), N::ZExt(_)) || matches!(self.node(b), N::ZExt(_))) {
                    let x = self.ext(a, 0, need);
                    let y = self.ext(b, 0, need);
                    return self.bin(B::Ult, x, y);
                }
            }
            B::Slt => {
                if a == b {
                    return self.k(0, 1);
                }
                let half = 1u128 << (w - 1);
                let (an, bn) = (self.hi[a as usize] < half, self.hi[b as usize] < half);
                if an && bn {
                    return self.bin(B::Ult, a, b);
                }
                let (ag, bg) = (self.lo[a as usize] >= half, self.lo[b as usize] >= half);
                if an && bg {
                    return self.k(0, 1);
                }
                if ag && bn {
                    return self.k(1, 1);
                }
                if kb == Some(0) {
                    return self.ext(a, w - 1, 1);
                }
                if ka == Some(m) {
                    let s = self.ext(b, w - 1, 1);
                    return self.not(s);
                }
            }
        }
        self.raw(N::Bin(op, a, b), rw)
    }
    fn bin_raw(&mut self, op: B, mut a: E, mut b: E, w: u32) -> E {
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            return self.k(Self::fold(op, w, x, y), w);
        }
        if op == B::Mul && (self.as_k(a).is_some() || (self.as_k(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        self.raw(N::Bin(op, a, b), w)
    }
    pub fn fp(&mut self, op: F, a: E, b: E, w: u32) -> E {
        if let (Some(x), Some(y)) = (self.as_k(a), self.as_k(b)) {
            let aw = self.width(a);
            return self.k(fp_eval(op, w, aw, x, y), w);
        }
        self.raw(N::Fp(op, a, b), w)
    }

    // ---- evaluation --------------------------------------------------------
    /// The values of e for each of `vals` as the value of its only variable.
    pub fn eval_over(&self, e: E, var: u32, vals: &[u128]) -> Vec<u128> {
        // nodes in evaluation order
        let mut pos: std::collections::HashMap<E, u32> = std::collections::HashMap::new();
        let mut order: Vec<(N, u32, [u32; 3], [u32; 3])> = vec![];
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if pos.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let kids: ([E; 3], usize) = match n {
                N::K(_) | N::Var(_) => ([0, 0, 0], 0),
                N::Not(a) | N::Ext(a, _) | N::ZExt(a) | N::SExt(a) => ([a, 0, 0], 1),
                N::Bin(_, a, b) | N::Cat(a, b) | N::Fp(_, a, b) => ([a, b, 0], 2),
                N::Ite(c, a, b) => ([c, a, b], 3),
            };
            let mut ready = true;
            for &k in &kids.0[..kids.1] {
                if !pos.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let (mut ix, mut ws) = ([0; 3], [0; 3]);
            for i in 0..kids.1 {
                ix[i] = pos[&kids.0[i]];
                ws[i] = self.width(kids.0[i]);
            }
            pos.insert(x, order.len() as u32);
            order.push((n, self.width(x), ix, ws));
        }
        let mut out = Vec::with_capacity(vals.len());
        let mut memo = vec![0u128; order.len()];
        for &val in vals {
            for (i, &(n, w, ix, ws)) in order.iter().enumerate() {
                let v = |k: usize| memo[ix[k] as usize];
                let r = match n {
                    N::K(v) => v,
                    N::Var(i) => {
                        debug_assert!(i as u32 == var);
                        val
                    }
                    N::Not(_) => !v(0) & mask(w),
                    N::Ext(_, lo) => (v(0) >> lo) & mask(w),
                    N::ZExt(_) => v(0),
                    N::SExt(_) => (sx(v(0), ws[0]) as u128) & mask(w),
                    N::Bin(op, _, _) => Self::fold(op, ws[0], v(0), v(1)),
                    N::Cat(_, _) => (v(0) << ws[1]) | v(1),
                    N::Ite(..) => if v(0) == 1 { v(1) } else { v(2) },
                    N::Fp(op, _, _) => fp_eval(op, w, ws[0], v(0), v(1)),
                };
                memo[i] = r;
            }
            out.push(memo[order.len() - 1]);
        }
        out
    }
    pub fn eval(&self, e: E, md: &mut Model) -> u128 {
        if md.memo.len() < self.nodes.len() {
            md.memo.resize(self.nodes.len(), 0);
            md.done.resize(self.nodes.len(), false);
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if md.done[x as usize] {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let kids: [E; 3] = match n {
                N::K(_) | N::Var(_) => [0, 0, 0],
                N::Not(a) | N::Ext(a, _) | N::ZExt(a) | N::SExt(a) => [a, 0, 0],
                N::Bin(_, a, b) | N::Cat(a, b) | N::Fp(_, a, b) => [a, b, 0],
                N::Ite(c, a, b) => [c, a, b],
            };
            let mut ready = true;
            for k in kids {
                if k != 0 && !md.done[k as usize] {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let w = self.width(x);
            let v = |e: E| md.memo[e as usize];
            let r = match n {
                N::K(v) => v,
                N::Var(i) => md.vals.get(i as usize).copied().unwrap_or(self.vars[i as usize].lo),
                N::Not(a) => !v(a) & mask(w),
                N::Ext(a, lo) => (v(a) >> lo) & mask(w),
                N::ZExt(a) => v(a),
                N::SExt(a) => (sx(v(a), self.width(a)) as u128) & mask(w),
                N::Bin(op, a, b) => Self::fold(op, self.width(a), v(a), v(b)),
                N::Cat(a, b) => (v(a) << self.width(b)) | v(b),
                N::Ite(c, a, b) => if v(c) == 1 { v(a) } else { v(b) },
                N::Fp(op, a, b) => fp_eval(op, w, self.width(a), v(a), v(b)),
            };
            md.memo[x as usize] = r;
            md.done[x as usize] = true;
            stack.pop();
        }
        md.memo[e as usize]
    }
}

#[derive(Clone, Default)]
pub struct Model {
    pub vals: Vec<u128>,
    pub memo: Vec<u128>,
    pub done: Vec<bool>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Model {
        Model { vals, memo: vec![], done: vec![] }
    }
}
