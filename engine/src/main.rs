#![allow(dangerous_implicit_autorefs)]
#![allow(static_mut_refs, dead_code, suspicious_runtime_symbol_definitions)]
//! zsym: symbolic execution of optimised LLVM IR with an SMT solver.
mod decode;
mod env;
mod exec;
mod expr;
mod fs;
mod ir;
mod mem;
mod sys;
mod z3;

use exec::*;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering::*;
use std::time::Instant;
use sys::*;

static mut SHARED: *const Shared = std::ptr::null();
extern "C" fn on_alarm(_s: i32) {
    unsafe {
        (*SHARED).timeout.store(1, Relaxed);
        (*SHARED).stop.store(1, Relaxed);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let ir = get("--ir").expect("--ir");
    let entry = get("--entry").expect("--entry");
    let out = get("--out").expect("--out");
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().expect("number")).unwrap_or(d);
    let jobs = num("--jobs", 8) as i64;
    let time = num("--time", 600) as u32;
    let verbose = args.iter().any(|a| a == "-v");
    let params: Vec<u64> = get("--param").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();

    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ir).expect("read ir");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(src)));
    let parse_ms = t0.elapsed().as_millis();
    let sh: &'static Shared = unsafe { &*(map_shared(4096) as *const Shared) };
    let cov = map_shared(m.funcs.len() + 1);
    unsafe { SHARED = sh };
    sh.active.store(1, SeqCst);
    sh.max_active.store(jobs, SeqCst);
    std::fs::create_dir_all(&out).expect("out dir");
    let recs = format!("{}/records.jsonl", out);
    let mut f = std::fs::OpenOptions::new().create(true).write(true).read(true).truncate(true).append(false).open(&recs).expect("records");
    // appended to by every exploring process
    let fa = std::fs::OpenOptions::new().append(true).open(&recs).unwrap();
    let cfg = Config {
        params,
        max_steps: num("--steps", 400_000_000),
        max_viol: num("--max-viol", 4),
        keep_ok: num("--keep-ok", 24),
        rlimit: num("--rlimit", 0) as u32,
        cov,
        out_fd: fa.as_raw_fd(),
        verbose,
    };
    unsafe {
        prctl(36, 1, 0, 0, 0); // child subreaper
        signal(14, on_alarm as *const () as usize);
        siginterrupt(14, 1);
        let pid = fork();
        if pid == 0 {
            std::panic::set_hook(Box::new(move |i| {
                let s = format!("{{\"kind\":\"inconclusive\",\"msg\":{}}}\n", jstr(&format!("engine: {}", i)));
                write(cfg_fd(), s.as_ptr(), s.len());
                if verbose {
                    eprintln!("{} {}", i, std::backtrace::Backtrace::force_capture());
                }
                (*SHARED).inconclusive.fetch_add(1, Relaxed);
                (*SHARED).stop.store(1, Relaxed);
                _exit(7);
            }));
            CFG_FD = cfg.out_fd;
            let mut mc = Machine::new(m, sh, cfg);
            mc.new_thread();
            let fi = *m.fidx.get(&entry).unwrap_or_else(|| panic!("no entry {}", entry));
            mc.push_call(fi as u32, &[], MAXU, None, false);
            mc.run();
        }
        alarm(time);
        let mut root_bad = false;
        let mut killed = false;
        loop {
            let mut st = 0;
            let r = waitpid(-1, &mut st, 0);
            if r < 0 {
                let e = std::io::Error::last_os_error();
                if e.kind() == std::io::ErrorKind::Interrupted {
                    if !killed && sh.timeout.load(Relaxed) != 0 {
                        killed = true;
                        alarm(20);
                    } else if killed {
                        // processes that do not notice the deadline
                        kill_tree(getpid());
                    }
                    continue;
                }
                break;
            }
            if st != 0 && st >> 8 != 7 {
                if sh.timeout.load(Relaxed) == 0 {
                    root_bad = true;
                    let s = format!("{{\"kind\":\"inconclusive\",\"msg\":\"exploration process ended with status {}\"}}\n", st);
                    write(fa.as_raw_fd(), s.as_ptr(), s.len());
                }
            }
        }
        if root_bad {
            sh.inconclusive.fetch_add(1, Relaxed);
        }
    }
    let nf: Vec<&str> = (0..m.funcs.len()).filter(|&i| unsafe { *cov.add(i) } != 0).map(|i| m.funcs[i].name.as_str()).collect();
    let mut s = String::from("{");
    s.push_str(&format!("\"entry\":{},\"wall_ms\":{},\"parse_ms\":{},\"z3\":{}", jstr(&entry), t0.elapsed().as_millis(), parse_ms, jstr(&z3::version())));
    let c = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    for (k, v) in [
        ("paths", c(&sh.paths)),
        ("paths_ok", c(&sh.paths_ok)),
        ("paths_infeasible", c(&sh.paths_infeasible)),
        ("violations", c(&sh.violations)),
        ("inconclusive", c(&sh.inconclusive)),
        ("forks", c(&sh.forks)),
        ("queries", c(&sh.queries)),
        ("q_sat", c(&sh.q_sat)),
        ("q_unsat", c(&sh.q_unsat)),
        ("q_unknown", c(&sh.q_unknown)),
        ("q_cached", c(&sh.q_cached)),
        ("q_table", c(&sh.q_table)),
        ("asserts", c(&sh.asserts)),
        ("assert_queries", c(&sh.assert_queries)),
        ("solver_us", c(&sh.solver_us)),
        ("max_query_us", c(&sh.max_q_us)),
        ("instructions", c(&sh.instrs)),
        ("fs_ops", c(&sh.fs_ops)),
        ("timeout", c(&sh.timeout)),
    ] {
        s.push_str(&format!(",\"{}\":{}", k, v));
    }
    s.push_str(",\"functions\":[");
    s.push_str(&nf.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    std::fs::write(format!("{}/summary.json", out), &s).unwrap();
    let mut t = String::new();
    f.seek(SeekFrom::Start(0)).unwrap();
    let _ = f.read_to_string(&mut t);
    if verbose {
        let _ = std::io::stdout().write_all(t.as_bytes());
    }
    let v = c(&sh.violations);
    let bad = c(&sh.inconclusive) > 0 || c(&sh.timeout) > 0;
    println!(
        "{} paths={} ok={} infeasible={} violations={} inconclusive={} timeout={} queries={} solver_ms={} instrs={} wall_ms={}",
        entry, c(&sh.paths), c(&sh.paths_ok), c(&sh.paths_infeasible), v, c(&sh.inconclusive), c(&sh.timeout), c(&sh.queries), c(&sh.solver_us) / 1000, c(&sh.instrs), t0.elapsed().as_millis()
    );
    std::process::exit(if v > 0 { 1 } else if bad { 2 } else { 0 });
}
static mut CFG_FD: i32 = 2;
fn cfg_fd() -> i32 {
    unsafe { CFG_FD }
}
fn kill_tree(me: i32) {
    // every descendant: walk /proc
    let mut par: Vec<(i32, i32)> = vec![];
    if let Ok(d) = std::fs::read_dir("/proc") {
        for e in d.flatten() {
            if let Ok(p) = e.file_name().to_string_lossy().parse::<i32>() {
                if let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", p)) {
                    if let Some(k) = s.rfind(')') {
                        let pp: i32 = s[k + 2..].split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                        par.push((p, pp));
                    }
                }
            }
        }
    }
    let mut kids = vec![me];
    let mut i = 0;
    while i < kids.len() {
        for (p, pp) in &par {
            if *pp == kids[i] {
                kids.push(*p);
            }
        }
        i += 1;
    }
    for k in &kids[1..] {
        unsafe { kill(*k, 9) };
    }
}
