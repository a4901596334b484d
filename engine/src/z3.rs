//! Minimal binding to libz3's C API.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_to_string(c: P, s: P) -> *const std::os::raw::c_char;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_fresh_const(c: P, p: *const c_char, s: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

pub enum SatRes {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    cache: Vec<P>,  // bit-vector (or bool for width 1) terms
    fp_mode: bool,
    rlimit: u32,
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::abort();
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = std::ptr::null_mut();
            let mut r = Solver { c, s, cache: vec![], fp_mode: false, rlimit };
            r.fresh();
            r
        }
    }
    fn sym(&self, s: &str) -> P {
        let x = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, x.as_ptr()) }
    }
    /// A new solver; without push/pop Z3 uses its bit-blasting tactic rather
    /// than the much slower incremental core.
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            self.s = Z3_mk_solver_for_logic(self.c, self.sym(if self.fp_mode { "QF_BVFP" } else { "QF_BV" }));
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.sym("rlimit"), self.rlimit);
            Z3_solver_set_params(self.c, self.s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    fn bvsort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    /// Width-1 terms are Z3 booleans, everything else bit-vectors.
    fn tr(&mut self, cx: &Ctx, e: E) -> P {
        if self.cache.len() < cx.nodes.len() {
            self.cache.resize(cx.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.cache[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = cx.nodes[x as usize];
            let kids: [E; 3] = match n {
                N::K(_) | N::Var(_) => [0, 0, 0],
                N::Not(a) | N::Ext(a, _) | N::ZExt(a) | N::SExt(a) => [a, 0, 0],
                N::Bin(_, a, b) | N::Cat(a, b) | N::Fp(_, a, b) => [a, b, 0],
                N::Ite(c, a, b) => [c, a, b],
            };
            let mut ready = true;
            for k in kids {
                if k != 0 && self.cache[k as usize].is_null() {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let t = self.tr1(cx, x, n);
            self.cache[x as usize] = t;
        }
        self.cache[e as usize]
    }
    fn boolsort(&self, w: u32) -> bool {
        w == 1
    }
    fn bv(&self, cx: &Ctx, e: E) -> P {
        // as a bit-vector, also for width 1
        let t = self.cache[e as usize];
        if cx.width(e) == 1 {
            unsafe {
                let s = self.bvsort(1);
                Z3_mk_ite(self.c, t, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
            }
        } else {
            t
        }
    }
    fn tobool(&self, bv1: P) -> P {
        unsafe { Z3_mk_eq(self.c, bv1, Z3_mk_unsigned_int64(self.c, 1, self.bvsort(1))) }
    }
    fn tr1(&mut self, cx: &Ctx, x: E, n: N) -> P {
        let c = self.c;
        let w = cx.width(x);
        unsafe {
            match n {
                N::K(v) => {
                    let r = if w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, self.bvsort(w))
                    } else {
                        let s = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), self.bvsort(w))
                    };
                    if w == 1 {
                        self.tobool(r)
                    } else {
                        r
                    }
                }
                N::Var(_) => {
                    let p = CString::new("v").unwrap();
                    let r = Z3_mk_fresh_const(c, p.as_ptr(), self.bvsort(w));
                    if w == 1 {
                        self.tobool(r)
                    } else {
                        r
                    }
                }
                N::Not(a) => {
                    let t = self.cache[a as usize];
                    if w == 1 {
                        Z3_mk_not(c, t)
                    } else {
                        Z3_mk_bvnot(c, t)
                    }
                }
                N::Ext(a, lo) => {
                    let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, self.bv(cx, a));
                    if w == 1 {
                        self.tobool(r)
                    } else {
                        r
                    }
                }
                N::ZExt(a) => {
                    let aw = cx.width(a);
                    if aw == 1 {
                        let s = self.bvsort(w);
                        Z3_mk_ite(c, self.cache[a as usize], Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                    } else {
                        Z3_mk_zero_ext(c, w - aw, self.cache[a as usize])
                    }
                }
                N::SExt(a) => Z3_mk_sign_ext(c, w - cx.width(a), self.bv(cx, a)),
                N::Cat(a, b) => Z3_mk_concat(c, self.bv(cx, a), self.bv(cx, b)),
                N::Ite(k, a, b) => Z3_mk_ite(c, self.cache[k as usize], self.cache[a as usize], self.cache[b as usize]),
                N::Bin(op, a, b) => {
                    let (p, q) = (self.cache[a as usize], self.cache[b as usize]);
                    if self.boolsort(cx.width(a)) {
                        let pq = [p, q];
                        match op {
                            B::And | B::Mul => Z3_mk_and(c, 2, pq.as_ptr()),
                            B::Or => Z3_mk_or(c, 2, pq.as_ptr()),
                            B::Xor | B::Add | B::Sub => Z3_mk_xor(c, p, q),
                            B::Eq => Z3_mk_eq(c, p, q),
                            _ => {
                                let (p, q) = (self.bv(cx, a), self.bv(cx, b));
                                let r = self.bvop(op, p, q);
                                if matches!(op, B::Ult | B::Slt) { r } else { self.tobool(r) }
                            }
                        }
                    } else {
                        self.bvop(op, p, q)
                    }
                }
                N::Fp(op, a, b) => {
                    self.fp_mode = true;
                    let aw = cx.width(a);
                    let sort = |w: u32| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    let fl = |e: E| Z3_mk_fpa_to_fp_bv(c, self.cache[e as usize], sort(cx.width(e)));
                    let rne = Z3_mk_fpa_round_nearest_ties_to_even(c);
                    match op {
                        F::Add => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, fl(a), fl(b))),
                        F::Sub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, fl(a), fl(b))),
                        F::Mul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, fl(a), fl(b))),
                        F::Div => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, fl(a), fl(b))),
                        F::Eq => Z3_mk_fpa_eq(c, fl(a), fl(b)),
                        F::Lt => Z3_mk_fpa_lt(c, fl(a), fl(b)),
                        F::Le => Z3_mk_fpa_leq(c, fl(a), fl(b)),
                        F::Uno => {
                            let pq = [Z3_mk_fpa_is_nan(c, fl(a)), Z3_mk_fpa_is_nan(c, fl(b))];
                            Z3_mk_or(c, 2, pq.as_ptr())
                        }
                        F::FromU => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, self.bv(cx, a), sort(w))),
                        F::FromS => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, self.bv(cx, a), sort(w))),
                        F::Cvt => {
                            if aw == w {
                                self.cache[a as usize]
                            } else {
                                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fl(a), sort(w)))
                            }
                        }
                        F::ToU => Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_round_toward_zero(c), fl(a), w),
                        F::ToS => Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_round_toward_zero(c), fl(a), w),
                    }
                }
            }
        }
    }
    fn bvop(&self, op: B, p: P, q: P) -> P {
        let c = self.c;
        unsafe {
            match op {
                B::Add => Z3_mk_bvadd(c, p, q),
                B::Sub => Z3_mk_bvsub(c, p, q),
                B::Mul => Z3_mk_bvmul(c, p, q),
                B::UDiv => Z3_mk_bvudiv(c, p, q),
                B::SDiv => Z3_mk_bvsdiv(c, p, q),
                B::URem => Z3_mk_bvurem(c, p, q),
                B::SRem => Z3_mk_bvsrem(c, p, q),
                B::And => Z3_mk_bvand(c, p, q),
                B::Or => Z3_mk_bvor(c, p, q),
                B::Xor => Z3_mk_bvxor(c, p, q),
                B::Shl => Z3_mk_bvshl(c, p, q),
                B::LShr => Z3_mk_bvlshr(c, p, q),
                B::AShr => Z3_mk_bvashr(c, p, q),
                B::Eq => Z3_mk_eq(c, p, q),
                B::Ult => Z3_mk_bvult(c, p, q),
                B::Slt => Z3_mk_bvslt(c, p, q),
            }
        }
    }
    /// Are the constraints satisfiable together with the declared bounds of
    /// `vars`?  The model gives values to exactly those variables.
    pub fn check(&mut self, cx: &Ctx, cs: &[E], vars: &[(E, u128, u128)]) -> SatRes {
        let mut ts: Vec<P> = cs.iter().map(|&e| self.tr(cx, e)).collect();
        for &(var, lo, hi) in vars {
            let w = cx.width(var);
            let t = self.tr(cx, var);
            if w == 1 || (lo == 0 && hi == mask(w)) {
                continue;
            }
            unsafe {
                let num = |v: u128| {
                    let s = CString::new(v.to_string()).unwrap();
                    Z3_mk_numeral(self.c, s.as_ptr(), self.bvsort(w))
                };
                ts.push(Z3_mk_bvule(self.c, num(lo), t));
                ts.push(Z3_mk_bvule(self.c, t, num(hi)));
            }
        }
        self.fresh();
        unsafe {
            for t in ts {
                Z3_solver_assert(self.c, self.s, t);
            }
            if let Ok(d) = std::env::var("ZSYM_DUMP") {
                static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
                let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), k), t + "(check-sat)\n");
            }
            let r = Z3_solver_check(self.c, self.s);
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![0u128; vars.len()];
                for (i, &(v, _, _)) in vars.iter().enumerate() {
                    let a = self.bv(cx, v);
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, a, true, &mut o) {
                        let mut u = 0u64;
                        if cx.width(v) <= 64 && Z3_get_numeral_uint64(self.c, o, &mut u) {
                            vals[i] = u as u128;
                        } else {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap();
                            vals[i] = s.parse().unwrap();
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                SatRes::Sat(vals)
            } else if r == -1 {
                SatRes::Unsat
            } else {
                SatRes::Unknown
            }
        }
    }
}
