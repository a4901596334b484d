//! Everything outside the analysed program: compiler intrinsics, libc, the
//! harness' own intrinsics (sym_*), and the panic machinery.
use crate::exec::*;
use crate::expr::*;
use crate::fs;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;
use std::sync::atomic::Ordering::*;

pub struct Env {
    pub events: Vec<String>,
    pub sched: Vec<usize>,
    pub log: Vec<String>,
    pub nops: u64,
    pub fs: fs::Fs,
    pub preemptions: u64,
    pub pauses: u64,
    pub last_panic: String,
    pub keys: u64,
    pub tsd: Vec<(usize, u64, u64)>,
    pub expect_panic: bool,
}
impl Env {
    pub fn new() -> Env {
        Env {
            events: vec![],
            sched: vec![],
            log: vec![],
            nops: 0,
            fs: fs::Fs::new(),
            preemptions: 0,
            pauses: 0,
            last_panic: String::new(),
            keys: 0,
            tsd: vec![],
            expect_panic: false,
        }
    }
}

pub fn thread_done(m: &mut Machine) {
    m.switch_away();
}

fn arg(m: &mut Machine, c: &Cc, i: usize) -> u64 {
    let w = c.tys[i].1.bits();
    let v = c.args[i].clone();
    m.concretise(&v, w)
}
fn text(m: &mut Machine, p: u64, n: u64) -> String {
    let b = m.rd_concrete(p, n);
    String::from_utf8_lossy(&b).into_owned()
}

// ---- panics -------------------------------------------------------------------
fn location(m: &mut Machine, p: u64) -> String {
    let o = (p >> 32) as usize;
    if p == 0 || o >= m.objs.len() || !m.objs[o].alive || (p & 0xffff_ffff) + 24 > m.objs[o].size {
        return "?".into();
    }
    let f = m.load_int(p, 8);
    let n = m.load_int(p + 8, 8);
    let l = m.load_int(p + 16, 4);
    match (f, n, l) {
        (V::C(f), V::C(n), V::C(l)) if n < 400 => {
            let s = text(m, f, n);
            format!("{}:{}", s, l)
        }
        _ => "?".into(),
    }
}
fn panicked(m: &mut Machine, c: &Cc) -> Flow {
    let k = c.args.len();
    let loc = if k > 0 && matches!(c.tys[k - 1].1, Ty::Ptr) {
        let a = arg(m, c, k - 1);
        location(m, a)
    } else {
        "?".into()
    };
    let mut msg = format!("panic at {}", loc);
    if c.name.ends_with("9panicking5panic") && k == 3 {
        let (a, b) = (arg(m, c, 0), arg(m, c, 1));
        let s = text(m, a, b);
        msg = format!("panic at {}: {}", loc, s);
    }
    m.env.log.push(msg.clone());
    m.env.last_panic = msg.clone();
    let t = &m.threads[m.cur];
    if !t.frames.iter().any(|f| f.catch) {
        m.violation(&msg, true);
        m.end_path("uncaught panic");
    }
    Flow::Throw(1)
}
fn aborted(m: &mut Machine, c: &Cc) -> Flow {
    let msg = format!("process abort ({})", c.name);
    m.violation(&msg, true);
    m.end_path("abort")
}

pub fn hook(name: &str) -> Option<Nat> {
    if name.ends_with("9panicking9panic_fmt")
        || name.ends_with("9panicking5panic")
        || name.ends_with("9panicking18panic_bounds_check")
        || name.contains("9panicking11panic_const")
        || name.ends_with("9panicking16panic_display")
        || name.ends_with("9panicking15panic_with_hook")
        || name.contains("3std9panicking11begin_panic")
    {
        return Some(panicked);
    }
    if name.ends_with("9panicking18panic_nounwind_fmt")
        || name.ends_with("9panicking14panic_nounwind")
        || name.ends_with("9panicking26panic_nounwind_nobacktrace")
        || name.ends_with("9panicking19panic_cannot_unwind")
        || name.ends_with("9panicking16panic_in_cleanup")
        || name.ends_with("rust_begin_unwind")
        || name.ends_with("___rust_start_panic")
        || name.ends_with("18handle_alloc_error")
    {
        return Some(aborted);
    }
    if let Some(n) = harness(name) {
        return Some(n);
    }
    None
}

// ---- harness intrinsics ----------------------------------------------------------
fn harness(name: &str) -> Option<Nat> {
    Some(match name {
        "sym_u64" => sym_u64,
        "sym_bytes" => sym_bytes,
        "sym_assume" => sym_assume,
        "sym_assert" => sym_assert,
        "sym_reach" => sym_reach,
        "sym_observe" => sym_observe,
        "sym_catch" => sym_catch,
        "sym_crashable" => sym_catch,
        "sym_param" => |m, c| {
            let i = arg(m, c, 0) as usize;
            Flow::Val(V::C(m.cfg.params.get(i).copied().unwrap_or(0)))
        },
        "sym_base" => sym_base,
        "sym_fault" => |m, c| {
            m.env.fs.fault_mask = arg(m, c, 0);
            m.env.fs.fault_budget = arg(m, c, 1);
            m.env.fs.counts = [0; 9];
            Flow::Void
        },
        "sym_faults_fired" => |m, _| Flow::Val(V::C(m.env.fs.faults_fired)),
        "sym_short_reads" => |m, c| {
            m.env.fs.short_reads = arg(m, c, 0);
            Flow::Void
        },
        "sym_short_writes" => |m, c| {
            m.env.fs.short_writes = arg(m, c, 0);
            Flow::Void
        },
        "sym_crash" => |m, c| {
            m.env.fs.crash_budget = arg(m, c, 0);
            m.env.fs.mut_count = 0;
            Flow::Void
        },
        "sym_escaped" => |m, _| Flow::Val(V::C(m.env.fs.escaped)),
        "sym_mutations" => |m, _| Flow::Val(V::C(m.env.fs.mutations)),
        "sym_snap" => |m, _| {
            let s = m.env.fs.snap();
            m.env.fs.snaps.push(s);
            Flow::Val(V::C(m.env.fs.snaps.len() as u64 - 1))
        },
        "sym_same" => sym_same,
        "sym_bytes_eq" => sym_bytes_eq,
        "sym_ite" => |m, c| {
            // (cond, a, b): select without branching
            match &c.args[0] {
                V::C(k) => Flow::Val(if k & 1 == 1 { c.args[1].clone() } else { c.args[2].clone() }),
                V::S(e) => {
                    let e = m.cx.ext(*e, 0, 1);
                    let r = m.select1(e, &c.args[1], &c.args[2], &Ty::Int(64));
                    Flow::Val(r)
                }
                _ => unreachable!(),
            }
        },
        "sym_and" => |m, c| logic(m, c, true),
        "sym_or" => |m, c| logic(m, c, false),
        "sym_concrete" => |m, c| {
            let v = arg(m, c, 0);
            Flow::Val(V::C(v))
        },
        "sym_max" => |m, c| {
            // an upper bound known without the solver
            let r = match &c.args[0] {
                V::C(x) => *x,
                V::S(e) => m.cx.hi[*e as usize] as u64,
                _ => unreachable!(),
            };
            Flow::Val(V::C(r))
        },
        "sym_is_engine" => |_, _| Flow::Val(V::C(1)),
        "sym_spawn" => sym_spawn,
        "sym_join" => sym_join,
        "sym_log" => |m, c| {
            let (p, n) = (arg(m, c, 0), arg(m, c, 1));
            let s = text(m, p, n);
            if m.cfg.verbose {
                eprintln!("{}", s);
            }
            m.env.log.push(s);
            Flow::Void
        },
        _ => return None,
    })
}
fn logic(m: &mut Machine, c: &Cc, and: bool) -> Flow {
    let w = c.tys[0].1.bits();
    let a = m.e(&c.args[0].clone(), w);
    let b = m.e(&c.args[1].clone(), w);
    let a = m.cx.ext(a, 0, 1);
    let b = m.cx.ext(b, 0, 1);
    let r = if and { m.cx.and(a, b) } else { m.cx.or(a, b) };
    let rw = match c.ret {
        Ty::Int(n) => *n,
        _ => 1,
    };
    let r = m.cx.zext(r, rw);
    Flow::Val(m.v(r))
}
/// (name, len, bits, lo, hi) -> u64
fn sym_u64(m: &mut Machine, c: &Cc) -> Flow {
    let (p, n) = (arg(m, c, 0), arg(m, c, 1));
    let name = text(m, p, n);
    let bits = arg(m, c, 2) as u32;
    let (lo, hi) = (arg(m, c, 3), arg(m, c, 4));
    let e = m.new_var(&name, bits, lo as u128, hi as u128);
    m.input_vars.push((name, e));
    let r = m.cx.zext(e, 64);
    Flow::Val(m.v(r))
}
/// (name, len, ptr, n)
fn sym_bytes(m: &mut Machine, c: &Cc) -> Flow {
    let (p, n) = (arg(m, c, 0), arg(m, c, 1));
    let name = text(m, p, n);
    let (b, k) = (arg(m, c, 2), arg(m, c, 3));
    let mut v = vec![];
    for i in 0..k {
        let nm = format!("{}[{}]", name, i);
        let e = m.new_var(&nm, 8, 0, 255);
        m.input_vars.push((nm, e));
        v.push(m.v(e));
    }
    m.wr_bytes(b, &v);
    Flow::Void
}
fn bit(m: &mut Machine, c: &Cc, i: usize) -> V {
    let w = c.tys[i].1.bits();
    match &c.args[i] {
        V::C(x) => V::C(x & 1),
        V::S(e) => {
            debug_assert_eq!(m.cx.width(*e), w);
            let x = m.cx.ext(*e, 0, 1);
            m.v(x)
        }
        _ => unreachable!(),
    }
}
fn sym_assume(m: &mut Machine, c: &Cc) -> Flow {
    match bit(m, c, 0) {
        V::C(1) => Flow::Void,
        V::C(_) => m.end_path("infeasible"),
        V::S(e) => match m.query(e) {
            None => m.inconclusive("solver gave up (assume)"),
            Some(None) => m.end_path("infeasible"),
            Some(md) => {
                m.assume_with(e, md);
                Flow::Void
            }
        },
        _ => unreachable!(),
    }
}
/// (cond, msg, len)
fn sym_assert(m: &mut Machine, c: &Cc) -> Flow {
    let (p, n) = (arg(m, c, 1), arg(m, c, 2));
    m.sh.asserts.fetch_add(1, Relaxed);
    match bit(m, c, 0) {
        V::C(1) => Flow::Void,
        V::C(_) => {
            let s = text(m, p, n);
            let s = if m.env.last_panic.is_empty() { s } else { format!("{} ({})", s, m.env.last_panic) };
            m.violation(&s, true);
            m.end_path("violation")
        }
        V::S(e) => {
            let ne = m.cx.not(e);
            m.sh.assert_queries.fetch_add(1, Relaxed);
            match m.query(ne) {
                None => m.inconclusive("solver gave up (assert)"),
                Some(None) => Flow::Void,
                Some(md) => {
                    let s = text(m, p, n);
                    m.violation_m(&s, md);
                    // go on with the inputs that satisfy it, if any
                    match m.query(e) {
                        None => m.inconclusive("solver gave up (assert)"),
                        Some(None) => m.end_path("violation"),
                        Some(md) => {
                            m.assume_with(e, md);
                            Flow::Void
                        }
                    }
                }
            }
        }
        _ => unreachable!(),
    }
}
fn sym_reach(m: &mut Machine, c: &Cc) -> Flow {
    let (p, n) = (arg(m, c, 0), arg(m, c, 1));
    let s = text(m, p, n);
    if !m.reached.contains(&s) {
        m.reached.push(s);
    }
    Flow::Void
}
/// (name, len, ptr, n)
fn sym_observe(m: &mut Machine, c: &Cc) -> Flow {
    let (p, n) = (arg(m, c, 0), arg(m, c, 1));
    let s = text(m, p, n);
    let (b, k) = (arg(m, c, 2), arg(m, c, 3));
    let v = m.rd_bytes(b, k);
    m.obs.push((s, v));
    Flow::Void
}
fn sym_catch(m: &mut Machine, c: &Cc) -> Flow {
    let f = arg(m, c, 0);
    let fi = m.fn_of_addr(f);
    m.env.last_panic.clear();
    m.push_call(fi, &[c.args[1].clone()], MAXU, None, true);
    Flow::Pushed
}
/// (ptr, cap) -> len
fn sym_base(m: &mut Machine, c: &Cc) -> Flow {
    let (p, cap) = (arg(m, c, 0), arg(m, c, 1));
    let s: &[u8] = b"/w/d/e/f/base";
    if m.env.fs.base.is_empty() {
        let mut d = 0;
        for n in [&b"w"[..], b"d", b"e", b"f"] {
            d = m.env.fs.mk(d, n, true);
        }
        m.env.fs.base = s.to_vec();
        m.env.fs.base_comps = s.split(|&c| c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
    }
    assert!(s.len() <= cap as usize);
    m.wr_concrete(p, s);
    Flow::Val(V::C(s.len() as u64))
}
/// (snapshot, skip ptr, skip len) -> bool: same files with the same content,
/// apart from those at or below the skipped path
fn sym_same(m: &mut Machine, c: &Cc) -> Flow {
    let i = arg(m, c, 0) as usize;
    let (p, n) = (arg(m, c, 1), arg(m, c, 2));
    let skip = m.rd_concrete(p, n);
    // several paths, one per line
    let keep = |q: &[u8]| -> bool { !skip.split(|&c| c == b'\n').any(|k| !k.is_empty() && (q == k || (q.starts_with(k) && q.get(k.len()) == Some(&b'/')))) };
    let a: Vec<_> = m.env.fs.snaps[i].iter().filter(|x| keep(&x.0)).cloned().collect();
    let b: Vec<_> = m.env.fs.snap().into_iter().filter(|x| keep(&x.0)).collect();
    let mut acc = m.cx.k(1, 1);
    if a.len() != b.len() {
        acc = m.cx.k(0, 1);
    } else {
        for (x, y) in a.iter().zip(&b) {
            if x.0 != y.0 {
                acc = m.cx.k(0, 1);
                break;
            }
            let e = fs::data_eq(m, &x.2, &y.2);
            acc = m.cx.and(acc, e);
        }
    }
    ret_bool(m, c, acc)
}
fn ret_bool(m: &mut Machine, c: &Cc, e: E) -> Flow {
    let w = match c.ret {
        Ty::Int(n) => *n,
        _ => 1,
    };
    let e = m.cx.zext(e, w);
    Flow::Val(m.v(e))
}
fn sym_bytes_eq(m: &mut Machine, c: &Cc) -> Flow {
    let (a, b, n) = (arg(m, c, 0), arg(m, c, 1), arg(m, c, 2));
    let e = bytes_eq(m, a, b, n);
    ret_bool(m, c, e)
}
fn bytes_eq(m: &mut Machine, a: u64, b: u64, n: u64) -> E {
    let (x, y) = (m.rd_bytes(a, n), m.rd_bytes(b, n));
    let mut acc = m.cx.k(1, 1);
    for (p, q) in x.iter().zip(&y) {
        if let (V::C(p), V::C(q)) = (p, q) {
            if p != q {
                return m.cx.k(0, 1);
            }
            continue;
        }
        let (p, q) = (m.e(p, 8), m.e(q, 8));
        let e = m.cx.eq(p, q);
        acc = m.cx.and(acc, e);
    }
    acc
}
/// (fn, data) -> thread id
fn sym_spawn(m: &mut Machine, c: &Cc) -> Flow {
    let f = arg(m, c, 0);
    let fi = m.fn_of_addr(f);
    let t = m.new_thread();
    let cur = m.cur;
    m.cur = t;
    m.push_call(fi, &[c.args[1].clone()], MAXU, None, false);
    m.cur = cur;
    Flow::Val(V::C(t as u64))
}
/// (preemption bound): run the spawned threads to completion
fn sym_join(m: &mut Machine, c: &Cc) -> Flow {
    let k = arg(m, c, 0);
    if (1..m.threads.len()).all(|i| m.threads[i].state == TState::Done) {
        m.threads.truncate(1);
        return Flow::Void;
    }
    m.env.preemptions = k;
    m.threads[0].state = TState::Join;
    m.switch_away();
    Flow::Yield
}

// ---- libc and intrinsics ------------------------------------------------------------
pub fn inline_asm(m: &mut Machine, _s: &str, args: &[V], ret: &Ty) -> V {
    match ret {
        Ty::Void => V::C(0),
        Ty::Struct(..) => m.zero(ret),
        _ if args.len() == 1 => args[0].clone(),
        _ => m.zero(ret),
    }
}

fn map(c: &Cc, m: &mut Machine, f: &dyn Fn(&mut Machine, u32, &[V]) -> V) -> Flow {
    match c.ret {
        Ty::Vec(n, et) => {
            let w = et.bits();
            let mut out = vec![];
            for i in 0..*n as usize {
                let a: Vec<V> = c
                    .args
                    .iter()
                    .map(|x| match x {
                        V::A(v) => v[i].clone(),
                        s => s.clone(),
                    })
                    .collect();
                out.push(f(m, w, &a));
            }
            Flow::Val(V::A(Rc::new(out)))
        }
        t => {
            let w = match t {
                Ty::Int(n) => *n,
                Ty::Ptr | Ty::Double => 64,
                Ty::Float => 32,
                _ => 64,
            };
            Flow::Val(f(m, w, c.args))
        }
    }
}
fn con(a: &[V]) -> Option<Vec<u64>> {
    a.iter()
        .map(|v| match v {
            V::C(x) => Some(*x),
            _ => None,
        })
        .collect()
}

fn minmax(m: &mut Machine, c: &Cc) -> Flow {
    let k = if c.name.starts_with("llvm.umax") {
        0
    } else if c.name.starts_with("llvm.umin") {
        1
    } else if c.name.starts_with("llvm.smax") {
        2
    } else {
        3
    };
    map(c, m, &move |m, w, a| {
        if w <= 64 {
            if let Some(x) = con(a) {
                let (p, q) = (x[0], x[1]);
                return V::C(match k {
                    0 => p.max(q),
                    1 => p.min(q),
                    2 => if s64(p, w) >= s64(q, w) { p } else { q },
                    _ => if s64(p, w) <= s64(q, w) { p } else { q },
                });
            }
        }
        let (x, y) = (m.e(&a[0], w), m.e(&a[1], w));
        let lt = m.cx.bin(if k < 2 { B::Ult } else { B::Slt }, x, y);
        let r = if k % 2 == 0 { m.cx.ite(lt, y, x) } else { m.cx.ite(lt, x, y) };
        m.v(r)
    })
}
fn with_overflow(m: &mut Machine, c: &Cc) -> Flow {
    let w = c.tys[0].1.bits();
    let n = &c.name["llvm.".len()..];
    let signed = n.starts_with('s');
    let op = match &n[1..4] {
        "add" => B::Add,
        "sub" => B::Sub,
        _ => B::Mul,
    };
    let (x, y) = (m.e(&c.args[0].clone(), w), m.e(&c.args[1].clone(), w));
    let r = m.cx.bin(op, x, y);
    let o = if signed {
        match op {
            B::Mul => {
                if w <= 64 {
                    let (a, b) = (m.cx.sext(x, 2 * w), m.cx.sext(y, 2 * w));
                    let p = m.cx.bin(B::Mul, a, b);
                    let q = m.cx.sext(r, 2 * w);
                    let e = m.cx.eq(p, q);
                    m.cx.not(e)
                } else {
                    m.inconclusive("smulo i128")
                }
            }
            _ => {
                let (a, b) = (m.cx.sext(x, w + 1), m.cx.sext(y, w + 1));
                let p = m.cx.bin(op, a, b);
                let q = m.cx.sext(r, w + 1);
                let e = m.cx.eq(p, q);
                m.cx.not(e)
            }
        }
    } else {
        match op {
            B::Add => m.cx.bin(B::Ult, r, x),
            B::Sub => m.cx.bin(B::Ult, x, y),
            _ => {
                if w <= 64 {
                    let (a, b) = (m.cx.zext(x, 2 * w), m.cx.zext(y, 2 * w));
                    let p = m.cx.bin(B::Mul, a, b);
                    let h = m.cx.ext(p, w, w);
                    let z = m.cx.k(0, w);
                    let e = m.cx.eq(h, z);
                    m.cx.not(e)
                } else {
                    match (m.cx.as_k(x), m.cx.as_k(y)) {
                        (Some(a), Some(b)) => {
                            let o = a.checked_mul(b).map_or(true, |p| p & !mask(w) != 0);
                            m.cx.k(o as u128, 1)
                        }
                        _ => m.inconclusive("umulo i128"),
                    }
                }
            }
        }
    };
    let (r, o) = (m.v(r), m.v(o));
    Flow::Val(V::A(Rc::new(vec![r, o])))
}
fn sat(m: &mut Machine, c: &Cc) -> Flow {
    let n = c.name["llvm.".len()..].to_string();
    map(c, m, &move |m, w, a| {
        let (x, y) = (m.e(&a[0], w), m.e(&a[1], w));
        let r = if n.starts_with("uadd") {
            let s = m.cx.bin(B::Add, x, y);
            let o = m.cx.bin(B::Ult, s, x);
            let k = m.cx.k(mask(w), w);
            m.cx.ite(o, k, s)
        } else if n.starts_with("usub") {
            let s = m.cx.bin(B::Sub, x, y);
            let o = m.cx.bin(B::Ult, x, y);
            let k = m.cx.k(0, w);
            m.cx.ite(o, k, s)
        } else {
            let op = if n.starts_with("sadd") { B::Add } else { B::Sub };
            let (p, q) = (m.cx.sext(x, w + 1), m.cx.sext(y, w + 1));
            let s = m.cx.bin(op, p, q);
            let max = m.cx.k(mask(w - 1), w + 1);
            let min = m.cx.k(!mask(w - 1) & mask(w + 1), w + 1);
            let hi = m.cx.bin(B::Slt, max, s);
            let lo = m.cx.bin(B::Slt, s, min);
            let t = m.cx.ite(hi, max, s);
            let t = m.cx.ite(lo, min, t);
            m.cx.ext(t, 0, w)
        };
        m.v(r)
    })
}
fn fsh(m: &mut Machine, c: &Cc) -> Flow {
    let left = c.name.starts_with("llvm.fshl");
    map(c, m, &move |m, w, a| {
        let (x, y, s) = (m.e(&a[0], w), m.e(&a[1], w), m.e(&a[2], w));
        if let Some(k) = m.cx.as_k(s) {
            let k = (k % w as u128) as u32;
            let cat = m.cx.cat(x, y);
            let lo = if left { w - k } else { k };
            if k == 0 {
                return m.v(if left { x } else { y });
            }
            let r = m.cx.ext(cat, lo, w);
            return m.v(r);
        }
        if w > 64 {
            m.inconclusive("funnel shift");
        }
        let kw = m.cx.k(w as u128, w);
        let s = m.cx.bin(B::URem, s, kw);
        let cat = m.cx.cat(x, y);
        let s2 = m.cx.zext(s, 2 * w);
        let r = if left {
            let t = m.cx.bin(B::Shl, cat, s2);
            m.cx.ext(t, w, w)
        } else {
            let t = m.cx.bin(B::LShr, cat, s2);
            m.cx.ext(t, 0, w)
        };
        m.v(r)
    })
}
fn bits(m: &mut Machine, c: &Cc) -> Flow {
    let n = c.name["llvm.".len()..].to_string();
    map(c, m, &move |m, w, a| {
        if w <= 64 {
            if let V::C(x) = a[0] {
                return V::C(if n.starts_with("ctpop") {
                    x.count_ones() as u64
                } else if n.starts_with("ctlz") {
                    (x.leading_zeros() - (64 - w)) as u64
                } else if n.starts_with("cttz") {
                    x.trailing_zeros().min(w) as u64
                } else if n.starts_with("bswap") {
                    x.swap_bytes() >> (64 - w)
                } else {
                    x.reverse_bits() >> (64 - w)
                });
            }
        }
        let x = m.e(&a[0], w);
        let r = if n.starts_with("bswap") {
            let mut acc = m.cx.ext(x, 0, 8);
            for i in 1..w / 8 {
                let b = m.cx.ext(x, i * 8, 8);
                acc = m.cx.cat(acc, b);
            }
            acc
        } else if n.starts_with("bitreverse") {
            let mut acc = m.cx.ext(x, 0, 1);
            for i in 1..w {
                let b = m.cx.ext(x, i, 1);
                acc = m.cx.cat(acc, b);
            }
            acc
        } else if n.starts_with("ctpop") {
            let mut acc = m.cx.k(0, w);
            for i in 0..w {
                let b = m.cx.ext(x, i, 1);
                let b = m.cx.zext(b, w);
                acc = m.cx.bin(B::Add, acc, b);
            }
            acc
        } else {
            let lz = n.starts_with("ctlz");
            let cttz64 = !lz && w == 64;
            let mut acc = m.cx.k(w as u128, w);
            for i in 0..w {
                let pos = if lz { i } else { w - 1 - i };
                let b = m.cx.ext(x, pos, 1);
                let k = m.cx.k(if lz { w - 1 - pos } else { pos } as u128, w);
                acc = m.cx.ite(b, k, acc);
            }
            if cttz64 {
                // a position found by scanning eight bytes at a time: the
                // scanning code goes on from there
                let v = m.v(acc);
                return V::C(m.concretise(&v, w));
            }
            acc
        };
        m.v(r)
    })
}
fn cmp3(m: &mut Machine, c: &Cc) -> Flow {
    let w = c.tys[0].1.bits();
    let rw = c.ret.bits();
    let (x, y) = (m.e(&c.args[0].clone(), w), m.e(&c.args[1].clone(), w));
    let op = if c.name.starts_with("llvm.u") { B::Ult } else { B::Slt };
    let l = m.cx.bin(op, x, y);
    let g = m.cx.bin(op, y, x);
    let (p, n, z) = (m.cx.k(1, rw), m.cx.k(u128::MAX, rw), m.cx.k(0, rw));
    let t = m.cx.ite(g, p, z);
    let r = m.cx.ite(l, n, t);
    Flow::Val(m.v(r))
}
fn abs(m: &mut Machine, c: &Cc) -> Flow {
    map(c, m, &|m, w, a| {
        let x = m.e(&a[0], w);
        let z = m.cx.k(0, w);
        let n = m.cx.bin(B::Sub, z, x);
        let l = m.cx.bin(B::Slt, x, z);
        let r = m.cx.ite(l, n, x);
        m.v(r)
    })
}
fn fpsat(m: &mut Machine, c: &Cc) -> Flow {
    let aw = c.tys[0].1.bits();
    let w = c.ret.bits();
    let signed = c.name.starts_with("llvm.fptosi");
    match &c.args[0] {
        V::C(x) => {
            let d = if aw == 32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
            let r = if signed {
                let i = d as i64;
                let max = mask(w - 1) as i64;
                m64(i.clamp(-max - 1, max) as u64, w)
            } else {
                (d as u64).min(mask(w) as u64)
            };
            Flow::Val(V::C(r))
        }
        _ => m.inconclusive("symbolic float to int"),
    }
}
/// llvm.is.fpclass: class tests on the bit pattern.
fn fpclass(m: &mut Machine, c: &Cc) -> Flow {
    let w = c.tys[0].1.bits();
    let (ew, fw) = match w {
        16 => (5, 10),
        32 => (8, 23),
        _ => (11, 52),
    };
    let k = arg(m, c, 1);
    let x = m.e(&c.args[0].clone(), w);
    let ex = m.cx.ext(x, fw, ew);
    let fr = m.cx.ext(x, 0, fw);
    let neg = m.cx.ext(x, w - 1, 1);
    let quiet = m.cx.ext(x, fw - 1, 1);
    let (k0, kf) = (m.cx.k(0, ew), m.cx.k(0, fw));
    let ones = m.cx.k(mask(ew), ew);
    let ez = m.cx.bin(B::Eq, ex, k0);
    let eo = m.cx.bin(B::Eq, ex, ones);
    let fz = m.cx.bin(B::Eq, fr, kf);
    let (pos, nfz, nez, neo, nq) = (m.cx.not(neg), m.cx.not(fz), m.cx.not(ez), m.cx.not(eo), m.cx.not(quiet));
    let normal = m.cx.and(nez, neo);
    let sub = m.cx.and(ez, nfz);
    let zero = m.cx.and(ez, fz);
    let inf = m.cx.and(eo, fz);
    let nan = m.cx.and(eo, nfz);
    let cls = [(nan, nq), (nan, quiet), (inf, neg), (normal, neg), (sub, neg), (zero, neg), (zero, pos), (sub, pos), (normal, pos), (inf, pos)];
    let mut r = m.cx.k(0, 1);
    for (i, (a, b)) in cls.iter().enumerate() {
        if k >> i & 1 == 1 {
            let t = m.cx.and(*a, *b);
            r = m.cx.or(r, t);
        }
    }
    let v = m.v(r);
    Flow::Val(v)
}
fn funary(m: &mut Machine, c: &Cc) -> Flow {
    let name = c.name.to_string();
    map(c, m, &move |m, w, a| {
        if name.starts_with("llvm.fabs") {
            let x = m.e(&a[0], w);
            let k = m.cx.k(mask(w - 1), w);
            let r = m.cx.bin(B::And, x, k);
            return m.v(r);
        }
        if name.starts_with("llvm.copysign") {
            let x = m.e(&a[0], w);
            let y = m.e(&a[1], w);
            let k = m.cx.k(mask(w - 1), w);
            let r = m.cx.bin(B::And, x, k);
            let nk = m.cx.not(k);
            let s = m.cx.bin(B::And, y, nk);
            let r = m.cx.or(r, s);
            return m.v(r);
        }
        let v: Vec<f64> = match con(a) {
            Some(v) => v.iter().map(|&x| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) }).collect(),
            None => m.inconclusive(&format!("symbolic {}", name)),
        };
        let base = name.strip_prefix("llvm.").unwrap_or(&name);
        let base = base.split('.').next().unwrap();
        let r = match base {
            "floor" => v[0].floor(),
            "ceil" => v[0].ceil(),
            "trunc" => v[0].trunc(),
            "round" => v[0].round(),
            "rint" | "nearbyint" => v[0].round_ties_even(),
            "sqrt" => v[0].sqrt(),
            "pow" => v[0].powf(v[1]),
            "log" => v[0].ln(),
            "log2" => v[0].log2(),
            "exp" => v[0].exp(),
            "minnum" => v[0].min(v[1]),
            "maxnum" => v[0].max(v[1]),
            _ => m.inconclusive(&format!("float intrinsic {}", name)),
        };
        V::C(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })
    })
}
fn memcpy(m: &mut Machine, c: &Cc) -> Flow {
    let n = arg(m, c, 2);
    let (d, s) = (arg(m, c, 0), arg(m, c, 1));
    m.memcpy(d, s, n);
    if matches!(c.ret, Ty::Void) {
        Flow::Void
    } else {
        Flow::Val(V::C(d))
    }
}
fn memset(m: &mut Machine, c: &Cc) -> Flow {
    let n = arg(m, c, 2);
    let d = arg(m, c, 0);
    let w = c.tys[1].1.bits();
    match &c.args[1] {
        V::C(x) => {
            let (o, off) = m.at(d, n);
            if n > 0 {
                let ob = &mut m.objs[o];
                ob.clear_sym(off, n as usize);
                ob.data[off..off + n as usize].fill(*x as u8);
            }
        }
        V::S(e) => {
            let b = if w > 8 { m.cx.ext(*e, 0, 8) } else { *e };
            let v = vec![V::S(b); n as usize];
            m.wr_bytes(d, &v);
        }
        _ => unreachable!(),
    }
    if matches!(c.ret, Ty::Void) {
        Flow::Void
    } else {
        Flow::Val(V::C(d))
    }
}
fn bcmp(m: &mut Machine, c: &Cc) -> Flow {
    let n = arg(m, c, 2);
    let (a, b) = (arg(m, c, 0), arg(m, c, 1));
    let e = bytes_eq(m, a, b, n);
    let (z, o) = (m.cx.k(0, 32), m.cx.k(1, 32));
    let r = m.cx.ite(e, z, o);
    Flow::Val(m.v(r))
}
fn memcmp(m: &mut Machine, c: &Cc) -> Flow {
    let n = arg(m, c, 2);
    let (a, b) = (arg(m, c, 0), arg(m, c, 1));
    let (x, y) = (m.rd_bytes(a, n), m.rd_bytes(b, n));
    let mut acc = m.cx.k(0, 32);
    let (p, q) = (m.cx.k(1, 32), m.cx.k(u128::MAX, 32));
    for (u, v) in x.iter().zip(&y).rev() {
        let (u, v) = (m.e(u, 8), m.e(v, 8));
        let l = m.cx.bin(B::Ult, u, v);
        let g = m.cx.bin(B::Ult, v, u);
        let t = m.cx.ite(g, p, acc);
        acc = m.cx.ite(l, q, t);
    }
    Flow::Val(m.v(acc))
}
fn malloc_n(m: &mut Machine, n: u64) -> u64 {
    if n > 1 << 28 {
        m.inconclusive(&format!("allocation of {} bytes", n));
    }
    m.new_obj(n, Kind::Heap)
}
fn free_at(m: &mut Machine, p: u64) {
    if p == 0 {
        return;
    }
    let o = (p >> 32) as usize;
    if o >= m.objs.len() || !m.objs[o].alive || m.objs[o].kind != Kind::Heap || p & 0xffff_ffff != 0 {
        m.violation("invalid free", true);
        m.end_path("fault");
    }
    let ob = &mut m.objs[o];
    ob.alive = false;
    ob.data = vec![];
    ob.sym = vec![];
    ob.nsym = 0;
}
fn malloc(m: &mut Machine, c: &Cc) -> Flow {
    let n = arg(m, c, 0);
    Flow::Val(V::C(malloc_n(m, n)))
}
fn calloc(m: &mut Machine, c: &Cc) -> Flow {
    let (a, b) = (arg(m, c, 0), arg(m, c, 1));
    Flow::Val(V::C(malloc_n(m, a.saturating_mul(b))))
}
fn realloc(m: &mut Machine, c: &Cc) -> Flow {
    let p = arg(m, c, 0);
    let n = arg(m, c, 1);
    let q = malloc_n(m, n);
    if p != 0 {
        let old = m.objs[(p >> 32) as usize].size;
        m.memcpy(q, p, old.min(n));
        free_at(m, p);
    }
    Flow::Val(V::C(q))
}
fn posix_memalign(m: &mut Machine, c: &Cc) -> Flow {
    let out = arg(m, c, 0);
    let n = arg(m, c, 2);
    let q = malloc_n(m, n);
    m.store_int(out, 8, &V::C(q));
    Flow::Val(V::C(0))
}
fn strlen(m: &mut Machine, c: &Cc) -> Flow {
    let p = arg(m, c, 0);
    let s = m.cstr(p);
    Flow::Val(V::C(s.len() as u64))
}
fn memchr(m: &mut Machine, c: &Cc) -> Flow {
    let p = arg(m, c, 0);
    let ch = arg(m, c, 1) & 255;
    let n = arg(m, c, 2);
    let back = c.name == "memrchr";
    for i in 0..n {
        let i = if back { n - 1 - i } else { i };
        let b = m.rd_concrete(p + i, 1)[0];
        if b as u64 == ch {
            return Flow::Val(V::C(p + i));
        }
    }
    Flow::Val(V::C(0))
}
fn syscall(m: &mut Machine, c: &Cc) -> Flow {
    match arg(m, c, 0) {
        332 => {
            let d = arg(m, c, 1);
            let p = arg(m, c, 2);
            let f = arg(m, c, 3);
            let b = arg(m, c, 5);
            fs::statx_call(m, d, p, f, b)
        }
        318 => {
            let p = arg(m, c, 1);
            let n = arg(m, c, 2);
            m.wr_concrete(p, &vec![0x5a; n as usize]);
            Flow::Val(V::C(n))
        }
        202 => Flow::Val(V::C(0)),
        186 => Flow::Val(V::C(100 + m.cur as u64)),
        _ => m.fail(fs::ENOSYS),
    }
}
fn zero(m: &mut Machine, c: &Cc) -> Flow {
    match c.ret {
        Ty::Void => Flow::Void,
        t => Flow::Val(m.zero(t)),
    }
}
fn nop(_m: &mut Machine, _c: &Cc) -> Flow {
    Flow::Void
}

pub fn native(name: &str) -> Option<Nat> {
    if let Some(n) = name.strip_prefix("llvm.") {
        let s = |p: &str| n.starts_with(p);
        return Some(if s("memcpy") || s("memmove") {
            memcpy
        } else if s("memset") {
            memset
        } else if s("umax.") || s("umin.") || s("smax.") || s("smin.") {
            minmax
        } else if n.contains(".with.overflow.") {
            with_overflow
        } else if s("uadd.sat") || s("usub.sat") || s("sadd.sat") || s("ssub.sat") {
            sat
        } else if s("fshl") || s("fshr") {
            fsh
        } else if s("ctpop") || s("ctlz") || s("cttz") || s("bswap") || s("bitreverse") {
            bits
        } else if s("ucmp") || s("scmp") {
            cmp3
        } else if s("abs.") {
            abs
        } else if s("fptoui.sat") || s("fptosi.sat") {
            fpsat
        } else if s("fabs") || s("floor") || s("ceil") || s("trunc") || s("round") || s("rint") || s("nearbyint") || s("sqrt")
            || s("pow") || s("log") || s("exp.") || s("copysign") || s("minnum") || s("maxnum")
        {
            funary
        } else if s("is.fpclass") {
            fpclass
        } else if s("is.constant") {
            zero
        } else if s("threadlocal.address") {
            |m, c| {
                let a = arg(m, c, 0);
                let r = m.tls_addr(a);
                Flow::Val(V::C(r))
            }
        } else if s("assume") || s("lifetime") || s("experimental.noalias") || s("invariant") || s("x86.sse2.pause") || s("dbg") || s("prefetch") || s("sideeffect") || s("fake.use") {
            nop
        } else if s("expect") {
            |_m, c| Flow::Val(c.args[0].clone())
        } else if s("ptrmask") {
            |m, c| {
                let a = m.e(&c.args[0].clone(), 64);
                let b = m.e(&c.args[1].clone(), 64);
                let r = m.cx.and(a, b);
                Flow::Val(m.v(r))
            }
        } else if s("trap") || s("ubsantrap") {
            aborted
        } else if s("vector.reduce.") {
            reduce
        } else if s("stacksave") {
            |m, _| {
                let t = &m.threads[m.cur];
                Flow::Val(V::C(((t.stack as u64) << 32) | t.sp))
            }
        } else if s("stackrestore") {
            nop
        } else if s("objectsize") {
            |m, c| {
                let w = c.ret.bits();
                let mn = arg(m, c, 1) & 1;
                Flow::Val(V::C(if mn == 1 { 0 } else { m64(u64::MAX, w) }))
            }
        } else {
            return None;
        });
    }
    Some(match name {
        "memcpy" | "memmove" => memcpy,
        "memset" => memset,
        "bcmp" => bcmp,
        "memcmp" => memcmp,
        "memchr" | "memrchr" => memchr,
        "strlen" => strlen,
        "malloc" => malloc,
        "calloc" => calloc,
        "realloc" => realloc,
        "free" => |m, c| {
            let p = arg(m, c, 0);
            free_at(m, p);
            Flow::Void
        },
        "posix_memalign" => posix_memalign,
        "aligned_alloc" => |m, c| {
            let n = arg(m, c, 1);
            Flow::Val(V::C(malloc_n(m, n)))
        },
        "__errno_location" => |m, _| {
            let a = m.threads[m.cur].errno;
            Flow::Val(V::C(a))
        },
        "abort" | "exit" | "_exit" | "__stack_chk_fail" | "__assert_fail" => aborted,
        "getenv" => zero,
        "getcwd" => |m, c| {
            let p = arg(m, c, 0);
            m.wr_concrete(p, b"/\0");
            Flow::Val(V::C(p))
        },
        "getpid" | "gettid" => |_, _| Flow::Val(V::C(100)),
        "pthread_self" => |m, _| Flow::Val(V::C(m.cur as u64 + 1)),
        "__cxa_thread_atexit_impl" | "atexit" | "pthread_key_delete" | "munmap" | "madvise" | "sigaltstack"
        | "sigaction" | "signal" | "poll" | "pthread_getattr_np" | "pthread_attr_destroy" | "_Unwind_Backtrace" | "dl_iterate_phdr" | "isatty" => zero,
        "pthread_key_create" => |m, c| {
            m.env.keys += 1;
            let p = arg(m, c, 0);
            let k = m.env.keys;
            m.store_int(p, 4, &V::C(k));
            Flow::Val(V::C(0))
        },
        "pthread_setspecific" => |m, c| {
            let k = arg(m, c, 0);
            let v = arg(m, c, 1);
            let t = m.cur;
            m.env.tsd.retain(|x| !(x.0 == t && x.1 == k));
            m.env.tsd.push((t, k, v));
            Flow::Val(V::C(0))
        },
        "pthread_getspecific" => |m, c| {
            let k = arg(m, c, 0);
            let t = m.cur;
            let v = m.env.tsd.iter().find(|x| x.0 == t && x.1 == k).map(|x| x.2).unwrap_or(0);
            Flow::Val(V::C(v))
        },
        "__xpg_strerror_r" | "strerror_r" => |m, c| {
            let p = arg(m, c, 1);
            m.wr_concrete(p, b"err\0");
            Flow::Val(V::C(0))
        },
        "clock_gettime" => |m, c| {
            let p = arg(m, c, 1);
            m.store_int(p, 8, &V::C(1_600_000_000));
            m.store_int(p + 8, 8, &V::C(0));
            Flow::Val(V::C(0))
        },
        "getrandom" => |m, c| {
            let p = arg(m, c, 0);
            let n = arg(m, c, 1);
            m.wr_concrete(p, &vec![0x5a; n as usize]);
            Flow::Val(V::C(n))
        },
        "syscall" => syscall,
        "open64" | "open" => fs::open64,
        "openat64" | "openat" => fs::openat64,
        "close" => fs::close,
        "fcntl" | "fcntl64" => fs::fcntl,
        "read" => fs::read,
        "write" => fs::write,
        "writev" => fs::writev,
        "lseek64" | "lseek" => fs::lseek64,
        "ftruncate64" | "ftruncate" => fs::ftruncate64,
        "flock" => fs::flock,
        "mkdir" => fs::mkdir,
        "stat64" | "lstat64" => fs::stat64,
        "fstat64" => fs::fstat64,
        "unlink" | "rmdir" => fs::unlink,
        "unlinkat" => fs::unlinkat,
        "rename" => fs::rename,
        "opendir" => fs::opendir,
        "fdopendir" => fs::fdopendir,
        "readdir64" => fs::readdir64,
        "closedir" => fs::closedir,
        "dirfd" => fs::dirfd,
        "fsync" | "fdatasync" => fs::fsync,
        "nanosleep" | "clock_nanosleep" | "usleep" | "sched_yield" => fs::pause,
        "sendfile64" | "sendfile" | "copy_file_range" | "splice" => fs::not_there,
        "pread64" | "pread" => fs::pread,
        "pwrite64" | "pwrite" => fs::pwrite,
        "readv" => fs::readv,
        "fchmod" | "chmod" | "utimensat" | "futimens" => fs::fsync,
        "readlink" => fs::readlink,
        "access" => fs::access,
        "pow" | "log" | "floor" | "ceil" | "round" | "log2" | "exp" => funary,
        _ => return None,
    })
}
fn reduce(m: &mut Machine, c: &Cc) -> Flow {
    let n = c.name["llvm.vector.reduce.".len()..].to_string();
    let (et, v) = match (&c.tys[0].1, &c.args[0]) {
        (Ty::Vec(_, et), V::A(v)) => ((**et).clone(), v.clone()),
        _ => m.inconclusive("vector.reduce"),
    };
    let w = et.bits();
    let mut acc = m.e(&v[0], w);
    for x in &v[1..] {
        let x = m.e(x, w);
        acc = if n.starts_with("add") {
            m.cx.bin(B::Add, acc, x)
        } else if n.starts_with("mul") {
            m.cx.bin(B::Mul, acc, x)
        } else if n.starts_with("and") {
            m.cx.bin(B::And, acc, x)
        } else if n.starts_with("or") {
            m.cx.bin(B::Or, acc, x)
        } else if n.starts_with("xor") {
            m.cx.bin(B::Xor, acc, x)
        } else {
            let s = n.starts_with('s');
            let lt = m.cx.bin(if s { B::Slt } else { B::Ult }, acc, x);
            if n[1..].starts_with("max") {
                m.cx.ite(lt, x, acc)
            } else if n[1..].starts_with("min") {
                m.cx.ite(lt, acc, x)
            } else {
                m.inconclusive(&format!("reduce {}", n))
            }
        };
    }
    Flow::Val(m.v(acc))
}
