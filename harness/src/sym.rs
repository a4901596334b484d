//! Bindings of the symbolic executor's intrinsics.  The native replayer
//! (../replay) implements the same symbols over a recorded assignment.
use std::mem::MaybeUninit;

extern "C" {
    fn sym_u64(n: *const u8, l: usize, bits: u32, lo: u64, hi: u64) -> u64;
    fn sym_bytes(n: *const u8, l: usize, p: *mut u8, k: usize);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, m: *const u8, l: usize);
    fn sym_reach(n: *const u8, l: usize);
    fn sym_observe(n: *const u8, l: usize, p: *const u8, k: usize);
    fn sym_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
    fn sym_crashable(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
    fn sym_param(i: u64) -> u64;
    fn sym_base(p: *mut u8, cap: usize) -> usize;
    fn sym_fault(mask: u64, budget: u64);
    fn sym_faults_fired() -> u64;
    fn sym_short_writes(n: u64);
    fn sym_short_reads(n: u64);
    fn sym_crash(n: u64);
    fn sym_escaped() -> u64;
    fn sym_mutations() -> u64;
    fn sym_snap() -> u64;
    fn sym_same(id: u64, p: *const u8, l: usize) -> bool;
    fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_ite(c: bool, a: u64, b: u64) -> u64;
    fn sym_and(a: bool, b: bool) -> bool;
    fn sym_or(a: bool, b: bool) -> bool;
    fn sym_concrete(x: u64) -> u64;
    fn sym_max(x: u64) -> u64;
    fn sym_is_engine() -> u64;
    fn sym_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64;
    fn sym_join(preemptions: u64);
    fn sym_log(p: *const u8, l: usize);
}

/// A `bits`-wide input in `lo..=hi`.
pub fn var(n: &str, bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe { sym_u64(n.as_ptr(), n.len(), bits, lo, hi) }
}
pub fn u8_(n: &str) -> u8 {
    var(n, 8, 0, 255) as u8
}
pub fn u16_(n: &str) -> u16 {
    var(n, 16, 0, 0xffff) as u16
}
pub fn u32_(n: &str) -> u32 {
    var(n, 32, 0, 0xffff_ffff) as u32
}
pub fn u64_(n: &str) -> u64 {
    var(n, 64, 0, u64::MAX)
}
pub fn bool_(n: &str) -> bool {
    var(n, 1, 0, 1) == 1
}
/// One of `0..n`, explored case by case (forks).
pub fn choice(n: &str, k: u64) -> u64 {
    concrete(var(n, 16, 0, k - 1))
}
pub fn bytes(n: &str, k: usize) -> Vec<u8> {
    let mut v = vec![0u8; k];
    unsafe { sym_bytes(n.as_ptr(), n.len(), v.as_mut_ptr(), k) };
    v
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn reach(n: &str) {
    unsafe { sym_reach(n.as_ptr(), n.len()) }
}
pub fn observe(n: &str, b: &[u8]) {
    unsafe { sym_observe(n.as_ptr(), n.len(), b.as_ptr(), b.len()) }
}
pub fn observe_u64(n: &str, x: u64) {
    observe(n, &x.to_le_bytes())
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Stop {
    Panic,
    Crash,
}
struct Job<F, R> {
    f: Option<F>,
    r: MaybeUninit<R>,
}
extern "C-unwind" fn tramp<F: FnOnce() -> R, R>(d: *mut u8) {
    let j = unsafe { &mut *(d as *mut Job<F, R>) };
    let f = j.f.take();
    if let Some(f) = f {
        j.r.write(f());
    }
}
/// Run `f`; a panic in it comes back as a value.
pub fn catch<F: FnOnce() -> R, R>(f: F) -> Result<R, Stop> {
    let mut j = Job { f: Some(f), r: MaybeUninit::uninit() };
    let k = unsafe { sym_catch(tramp::<F, R>, &mut j as *mut _ as *mut u8) };
    match k {
        0 => Ok(unsafe { j.r.assume_init_read() }),
        1 => Err(Stop::Panic),
        _ => Err(Stop::Crash),
    }
}
/// Run `f` in a process that may be killed at any file-system mutation; only
/// its file-system effects survive.  True when it was killed.
pub fn crashable<F: FnOnce()>(f: F) -> bool {
    let mut j = Job::<F, ()> { f: Some(f), r: MaybeUninit::uninit() };
    let k = unsafe { sym_crashable(tramp::<F, ()>, &mut j as *mut _ as *mut u8) };
    k == 2
}
pub fn param(i: u64) -> u64 {
    unsafe { sym_param(i) }
}
pub fn base() -> String {
    let mut b = vec![0u8; 4096];
    let n = unsafe { sym_base(b.as_mut_ptr(), b.len()) };
    b.truncate(n);
    unsafe { String::from_utf8_unchecked(b) }
}
pub const F_OPEN: u64 = 1;
pub const F_READ: u64 = 2;
pub const F_WRITE: u64 = 4;
pub const F_STAT: u64 = 8;
pub const F_MKDIR: u64 = 16;
pub const F_FLOCK: u64 = 32;
pub const F_TRUNC: u64 = 64;
pub const F_UNLINK: u64 = 128;
pub const F_READDIR: u64 = 256;
/// From here on up to `budget` system calls of the categories in `mask` fail.
pub fn fault(mask: u64, budget: u64) {
    unsafe { sym_fault(mask, budget) }
}
pub fn faults_fired() -> u64 {
    unsafe { sym_faults_fired() }
}
pub fn short_writes(n: u64) {
    unsafe { sym_short_writes(n) }
}
/// Up to `n` reads of a file give only part of what was asked for.
pub fn short_reads(n: u64) {
    unsafe { sym_short_reads(n) }
}
pub fn crash(n: u64) {
    unsafe { sym_crash(n) }
}
pub fn escaped() -> u64 {
    unsafe { sym_escaped() }
}
pub fn mutations() -> u64 {
    unsafe { sym_mutations() }
}
pub fn snap() -> u64 {
    unsafe { sym_snap() }
}
pub fn same(id: u64, skip: &str) -> bool {
    unsafe { sym_same(id, skip.as_ptr(), skip.len()) }
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sym_ite(c, a, b) }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sym_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sym_or(a, b) }
}
pub fn implies(a: bool, b: bool) -> bool {
    or(!a, b)
}
pub fn concrete(x: u64) -> u64 {
    unsafe { sym_concrete(x) }
}
pub fn upper(x: u64) -> u64 {
    unsafe { sym_max(x) }
}
pub fn is_engine() -> bool {
    unsafe { sym_is_engine() == 1 }
}
pub fn spawn<F: FnOnce() + 'static>(f: F) -> u64 {
    let j = Box::leak(Box::new(Job::<F, ()> { f: Some(f), r: MaybeUninit::uninit() }));
    unsafe { sym_spawn(tramp::<F, ()>, j as *mut _ as *mut u8) }
}
pub fn join(preemptions: u64) {
    unsafe { sym_join(preemptions) }
}
pub fn log(s: &str) {
    unsafe { sym_log(s.as_ptr(), s.len()) }
}
