//! The few libc calls the engine itself needs, and the counters that the
//! forked exploration processes share.
use std::sync::atomic::*;

#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub max_active: AtomicI64,
    pub paths: AtomicU64,
    pub paths_ok: AtomicU64,
    pub paths_infeasible: AtomicU64,
    pub violations: AtomicU64,
    pub inconclusive: AtomicU64,
    pub forks: AtomicU64,
    pub queries: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub q_cached: AtomicU64,
    pub q_table: AtomicU64,
    pub asserts: AtomicU64,
    pub assert_queries: AtomicU64,
    pub solver_us: AtomicU64,
    pub instrs: AtomicU64,
    pub stop: AtomicU64,
    pub timeout: AtomicU64,
    pub max_q_us: AtomicU64,
    pub nfuncs: AtomicU64,
    pub dedup: AtomicU64,
    pub states: AtomicU64,
    pub fs_ops: AtomicU64,
}

extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn signal(n: i32, h: usize) -> usize;
    pub fn open(p: *const i8, fl: i32, ...) -> i32;
    pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
    pub fn siginterrupt(n: i32, f: i32) -> i32;
    pub fn sched_yield() -> i32;
    pub fn usleep(u: u32) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn kill(p: i32, s: i32) -> i32;
    pub fn setpgid(a: i32, b: i32) -> i32;
    pub fn getpid() -> i32;
}

pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    p
}
