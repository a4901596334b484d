//! Runs one harness entry natively over a recorded assignment: the inputs the
//! solver chose, the failing system calls, the crash point and the thread
//! schedule.  The file-system calls below stand in for libc's, do the real
//! work through raw system calls inside a scratch directory, and refuse every
//! mutation outside the hierarchy's base directory.
//!
//! zr REPLAY-FILE     exit 0: the run ended well (observations on stdout)
//!                    exit 10: VIOLATION <message>   exit 11: diverged
#![allow(clippy::missing_safety_doc, static_mut_refs)]
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

const CATS: [&str; 9] = ["open", "read", "write", "stat", "mkdir", "flock", "ftruncate", "unlink", "readdir"];

#[derive(Default)]
struct St {
    inputs: HashMap<String, VecDeque<u64>>,
    params: Vec<u64>,
    faults: Vec<(usize, u64, i32)>,
    shorts: Vec<(u64, usize)>,
    short_reads: Vec<(u64, usize)>,
    crash: Option<(u64, usize)>,
    crash_on: bool,
    in_child: bool,
    base: Vec<u8>,
    comps: Vec<Vec<u8>>,
    escaped: u64,
    mutations: u64,
    mut_count: u64,
    counts: [u64; 9],
    fault_on: u64,
    fired: u64,
    snaps: Vec<Vec<(Vec<u8>, Vec<u8>)>>,
    out: String,
    // threads
    jobs: Vec<(extern "C-unwind" fn(*mut u8), usize)>,
    state: Vec<u8>, // 0 run, 1 blocked, 2 done
    granted: Vec<bool>,
    cur: usize,
    joining: bool,
    sched: VecDeque<usize>,
    locked: Vec<c_int>,
    writable: Vec<c_int>,
}
static ST: Mutex<Option<St>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();
static ACTIVE: AtomicBool = AtomicBool::new(false);
thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; }

fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    let mut g = match ST.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.as_mut().unwrap())
}
fn emit(code: i32, line: &str) -> ! {
    let s = st(|s| {
        s.out.push_str(line);
        s.out.push('\n');
        s.out.clone()
    });
    unsafe {
        let b = s.as_bytes();
        let mut k = 0;
        while k < b.len() {
            let n = libc::syscall(libc::SYS_write, 1, b[k..].as_ptr(), b.len() - k);
            if n <= 0 {
                break;
            }
            k += n as usize;
        }
        libc::_exit(code)
    }
}
fn violation(m: &str) -> ! {
    emit(10, &format!("VIOLATION {}", m))
}
fn diverged(m: &str) -> ! {
    emit(11, &format!("DIVERGED {}", m))
}
unsafe fn text(p: *const u8, l: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).into_owned()
}

// ---- intrinsics ------------------------------------------------------------------
#[no_mangle]
unsafe extern "C" fn sym_u64(n: *const u8, l: usize, _bits: u32, lo: u64, hi: u64) -> u64 {
    let n = text(n, l);
    match st(|s| s.inputs.get_mut(&n).and_then(|q| q.pop_front())) {
        Some(v) => {
            if v < lo || v > hi {
                diverged(&format!("input {} = {} outside {}..={}", n, v, lo, hi));
            }
            v
        }
        None => lo,
    }
}
#[no_mangle]
unsafe extern "C" fn sym_bytes(n: *const u8, l: usize, p: *mut u8, k: usize) {
    let n = text(n, l);
    for i in 0..k {
        let nm = format!("{}[{}]", n, i);
        *p.add(i) = st(|s| s.inputs.get_mut(&nm).and_then(|q| q.pop_front())).unwrap_or(0) as u8;
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assume(c: bool) {
    if !c {
        diverged("assumption does not hold");
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert(c: bool, m: *const u8, l: usize) {
    if !c {
        let m = text(m, l);
        violation(&m);
    }
}
#[no_mangle]
unsafe extern "C" fn sym_reach(n: *const u8, l: usize) {
    let n = text(n, l);
    st(|s| s.out.push_str(&format!("REACH {}\n", n)));
}
#[no_mangle]
unsafe extern "C" fn sym_observe(n: *const u8, l: usize, p: *const u8, k: usize) {
    let n = text(n, l);
    let b: String = std::slice::from_raw_parts(p, k).iter().map(|x| format!("{:02x}", x)).collect();
    st(|s| s.out.push_str(&format!("OBS {} {}\n", n, b)));
}
#[no_mangle]
unsafe extern "C" fn sym_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
#[no_mangle]
unsafe extern "C" fn sym_crashable(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    if st(|s| s.crash.is_none() || !s.crash_on || s.in_child) {
        return sym_catch(f, d);
    }
    let pid = libc::fork();
    if pid == 0 {
        st(|s| s.in_child = true);
        return sym_catch(f, d);
    }
    let mut stt = 0;
    libc::waitpid(pid, &mut stt, 0);
    if libc::WIFEXITED(stt) {
        if libc::WEXITSTATUS(stt) == 99 {
            st(|s| {
                s.crash = None;
                s.crash_on = false;
            });
            return 2;
        }
        // the child went on to the end in our place
        libc::_exit(libc::WEXITSTATUS(stt));
    }
    libc::_exit(12)
}
#[no_mangle]
unsafe extern "C" fn sym_param(i: u64) -> u64 {
    st(|s| s.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
unsafe extern "C" fn sym_base(p: *mut u8, cap: usize) -> usize {
    let b = st(|s| s.base.clone());
    assert!(b.len() <= cap);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
    b.len()
}
#[no_mangle]
unsafe extern "C" fn sym_fault(mask: u64, budget: u64) {
    st(|s| {
        s.counts = [0; 9];
        s.fault_on = if budget > 0 { mask } else { 0 };
    })
}
#[no_mangle]
unsafe extern "C" fn sym_faults_fired() -> u64 {
    st(|s| s.fired)
}
#[no_mangle]
unsafe extern "C" fn sym_short_writes(_n: u64) {}
#[no_mangle]
unsafe extern "C" fn sym_short_reads(_n: u64) {}
#[no_mangle]
unsafe extern "C" fn sym_crash(n: u64) {
    st(|s| {
        s.crash_on = n > 0;
        s.mut_count = 0;
    })
}
#[no_mangle]
unsafe extern "C" fn sym_escaped() -> u64 {
    st(|s| s.escaped)
}
#[no_mangle]
unsafe extern "C" fn sym_mutations() -> u64 {
    st(|s| s.mutations)
}
fn walk() -> Vec<(Vec<u8>, Vec<u8>)> {
    use std::os::unix::ffi::OsStrExt;
    let base = st(|s| s.base.clone());
    let was = ACTIVE.swap(false, SeqCst);
    let mut out = vec![];
    let root = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(&base));
    let mut todo = vec![root.clone()];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    let r = p.strip_prefix(&root).unwrap().as_os_str().as_bytes().to_vec();
                    out.push((r, std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    out.sort();
    ACTIVE.store(was, SeqCst);
    out
}
#[no_mangle]
unsafe extern "C" fn sym_snap() -> u64 {
    let w = walk();
    st(|s| {
        s.snaps.push(w);
        s.snaps.len() as u64 - 1
    })
}
#[no_mangle]
unsafe extern "C" fn sym_same(id: u64, p: *const u8, l: usize) -> bool {
    let skip = std::slice::from_raw_parts(p, l).to_vec();
    // several paths, one per line
    let keep = |q: &[u8]| !skip.split(|&c| c == b'\n').any(|k| !k.is_empty() && (q == k || (q.starts_with(k) && q.get(k.len()) == Some(&b'/'))));
    let mut b = walk();
    let mut a = st(|s| s.snaps[id as usize].clone());
    a.retain(|x| keep(&x.0));
    b.retain(|x| keep(&x.0));
    a == b
}
#[no_mangle]
unsafe extern "C" fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}
#[no_mangle]
extern "C" fn sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn sym_and(a: bool, b: bool) -> bool {
    a && b
}
#[no_mangle]
extern "C" fn sym_or(a: bool, b: bool) -> bool {
    a || b
}
#[no_mangle]
extern "C" fn sym_concrete(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_max(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sym_is_engine() -> u64 {
    0
}
#[no_mangle]
unsafe extern "C" fn sym_log(_p: *const u8, _l: usize) {}
#[no_mangle]
unsafe extern "C" fn sym_spawn(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {
    st(|s| {
        s.jobs.push((f, d as usize));
        s.state.push(0);
        s.granted.push(false);
        s.jobs.len() as u64
    })
}
#[no_mangle]
unsafe extern "C" fn sym_join(_preemptions: u64) {
    let n = st(|s| s.jobs.len());
    st(|s| s.joining = true);
    let mut hs = vec![];
    st(|s| s.cur = usize::MAX);
    for t in 1..=n {
        let (f, d) = st(|s| s.jobs[t - 1]);
        hs.push(std::thread::spawn(move || {
            TID.with(|c| c.set(t));
            wait_turn(t);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d as *mut u8))).is_err() {
                violation("panic in a thread");
            }
            st(|s| s.state[t] = 2);
            switch_away(false);
        }));
    }
    switch_away(false);
    wait_turn(0);
    for h in hs {
        let _ = h.join();
    }
}

// ---- the recorded schedule ---------------------------------------------------------
fn wait_turn(t: usize) {
    let mut g = ST.lock().unwrap();
    while g.as_ref().unwrap().cur != t {
        g = TURN.wait(g).unwrap();
    }
}
/// The running thread cannot go on: hand over.
fn switch_away(wait: bool) {
    let me = TID.with(|c| c.get());
    let dead = st(|s| {
        let r: Vec<usize> = (1..s.state.len()).filter(|&i| s.state[i] == 0).collect();
        if r.is_empty() {
            if (1..s.state.len()).all(|i| s.state[i] == 2) {
                s.cur = 0;
                TURN.notify_all();
                return 0;
            }
            return 1;
        }
        let t = s.sched.pop_front().unwrap_or(r[0]);
        if !r.contains(&t) {
            return 2;
        }
        s.granted[t] = true;
        s.cur = t;
        TURN.notify_all();
        0
    });
    match dead {
        1 => violation("deadlock: every thread waits for a file lock"),
        2 => diverged("schedule"),
        _ => {}
    }
    if wait {
        wait_turn(me);
    }
}
fn sched_point() {
    let me = TID.with(|c| c.get());
    if me == 0 {
        return;
    }
    let go = st(|s| {
        if s.granted[me] {
            s.granted[me] = false;
            return 0;
        }
        let t = s.sched.pop_front().unwrap_or(me);
        if t == me {
            return 0;
        }
        if t >= s.state.len() || s.state[t] != 0 {
            return 2;
        }
        s.granted[t] = true;
        s.cur = t;
        TURN.notify_all();
        1
    });
    match go {
        1 => {
            wait_turn(me);
            st(|s| s.granted[me] = false);
        }
        2 => diverged("schedule"),
        _ => {}
    }
}

// ---- file system calls -------------------------------------------------------------
fn active() -> bool {
    ACTIVE.load(SeqCst)
}
fn errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// Counts the call; true if it has to fail (errno is set).
fn pre(cat: usize) -> bool {
    let e = st(|s| {
        let k = s.counts[cat];
        s.counts[cat] += 1;
        if s.fault_on >> cat & 1 == 1 {
            if let Some(i) = s.faults.iter().position(|f| f.0 == cat && f.1 == k) {
                s.fired += 1;
                return Some(s.faults.remove(i).2);
            }
        }
        None
    });
    match e {
        Some(e) => {
            errno(e);
            true
        }
        None => false,
    }
}
/// True if the path leaves the base directory; counted.
unsafe fn escapes(dirfd: c_int, p: *const c_char) -> bool {
    let mut p = CStr::from_ptr(p).to_bytes().to_vec();
    if p.first() != Some(&b'/') {
        let mut full = vec![0u8; 4096];
        let link = if dirfd == libc::AT_FDCWD { "/proc/self/cwd\0".to_string() } else { format!("/proc/self/fd/{}\0", dirfd) };
        let n = libc::syscall(libc::SYS_readlink, link.as_ptr(), full.as_mut_ptr(), full.len());
        full.truncate(n.max(0) as usize);
        full.push(b'/');
        full.extend_from_slice(&p);
        p = full;
    }
    st(|s| {
        let mut v: Vec<&[u8]> = vec![];
        for c in p.split(|&c| c == b'/') {
            match c {
                b"" | b"." => {}
                b".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        let n = v.len().min(s.comps.len());
        let esc = !(0..n).all(|i| v[i] == &s.comps[i][..]);
        if esc {
            s.escaped += 1;
        }
        esc
    })
}
unsafe fn exists(dirfd: c_int, p: *const c_char) -> bool {
    let mut b: libc::stat64 = std::mem::zeroed();
    libc::syscall(libc::SYS_newfstatat, dirfd, p, &mut b, 0x100) == 0
}
/// The process dies before its k-th mutation, perhaps with part of it done.
fn crash_here() -> Option<usize> {
    st(|s| match s.crash {
        Some((k, part)) if s.crash_on && s.in_child && k == s.mut_count => Some(part),
        _ => None,
    })
}
fn mutated() {
    st(|s| {
        s.mutations += 1;
        s.mut_count += 1;
    })
}
fn die() -> ! {
    unsafe { libc::_exit(99) }
}
unsafe fn open_impl(dirfd: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    if !active() {
        return libc::syscall(libc::SYS_openat, dirfd, p, fl, mode) as c_int;
    }
    sched_point();
    let esc = escapes(dirfd, p);
    if pre(0) {
        return -1;
    }
    let wr = fl & 3 != 0 || fl & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if esc && wr {
        errno(libc::EACCES);
        return -1;
    }
    let there = exists(dirfd, p);
    let mut change = fl & libc::O_CREAT != 0 && !there;
    if there && fl & libc::O_TRUNC != 0 && fl & 3 != 0 && !(fl & libc::O_CREAT != 0 && fl & libc::O_EXCL != 0) {
        let mut b: libc::stat64 = std::mem::zeroed();
        libc::syscall(libc::SYS_newfstatat, dirfd, p, &mut b, 0);
        change = b.st_size > 0 && b.st_mode & libc::S_IFMT == libc::S_IFREG;
    }
    if change {
        // only if the call is going to succeed: probe the directory
        if let Some(_) = crash_here() {
            let pb = CStr::from_ptr(p).to_bytes();
            let dir: Vec<u8> = match pb.iter().rposition(|&c| c == b'/') {
                Some(0) => b"/\0".to_vec(),
                Some(k) => [&pb[..k], b"\0"].concat(),
                None => b".\0".to_vec(),
            };
            if exists(dirfd, dir.as_ptr() as *const c_char) {
                die();
            }
        }
    }
    let r = libc::syscall(libc::SYS_openat, dirfd, p, fl, mode) as c_int;
    if r >= 0 && change {
        mutated();
    }
    if r >= 0 && wr {
        st(|s| s.writable.push(r));
    }
    r
}
#[no_mangle]
unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open_impl(libc::AT_FDCWD, p, fl, mode)
}
#[no_mangle]
unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open_impl(d, p, fl, mode)
}
fn wake() {
    st(|s| s.state.iter_mut().for_each(|x| if *x == 1 { *x = 0 }));
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        sched_point();
    }
    let r = libc::syscall(libc::SYS_close, fd) as c_int;
    if active() {
        let was = st(|s| {
            s.writable.retain(|&f| f != fd);
            let k = s.locked.iter().position(|&f| f == fd);
            if let Some(k) = k {
                s.locked.remove(k);
            }
            k.is_some()
        });
        if was {
            wake();
        }
    }
    r
}
fn read_len(n: usize) -> Option<usize> {
    if !active() {
        return Some(n);
    }
    sched_point();
    if pre(1) {
        return None;
    }
    let k = st(|s| s.counts[1] - 1);
    Some(st(|s| s.short_reads.iter().find(|x| x.0 == k).map(|x| x.1)).map_or(n, |m| m.min(n)))
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    match read_len(n) {
        Some(n) => libc::syscall(libc::SYS_read, fd, b, n) as isize,
        None => -1,
    }
}
#[no_mangle]
unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, at: i64) -> isize {
    match read_len(n) {
        Some(n) => libc::syscall(libc::SYS_pread64, fd, b, n, at) as isize,
        None => -1,
    }
}
#[no_mangle]
unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    let total = (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum();
    let mut left = match read_len(total) {
        Some(l) => l,
        None => return -1,
    };
    let mut v: Vec<libc::iovec> = (0..n as usize).map(|i| *iov.add(i)).collect();
    for x in v.iter_mut() {
        x.iov_len = x.iov_len.min(left);
        left -= x.iov_len;
    }
    libc::syscall(libc::SYS_readv, fd, v.as_ptr(), n) as isize
}
/// The system calls for which the standard library has a fallback.
#[no_mangle]
unsafe extern "C" fn sendfile64(o: c_int, i: c_int, at: *mut i64, n: usize) -> isize {
    if active() {
        errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_sendfile, o, i, at, n) as isize
}
#[no_mangle]
unsafe extern "C" fn copy_file_range(i: c_int, ia: *mut i64, o: c_int, oa: *mut i64, n: usize, f: c_uint) -> isize {
    if active() {
        errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, i, ia, o, oa, n, f) as isize
}
#[no_mangle]
unsafe extern "C" fn splice(i: c_int, ia: *mut i64, o: c_int, oa: *mut i64, n: usize, f: c_uint) -> isize {
    if active() {
        errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_splice, i, ia, o, oa, n, f) as isize
}
/// Sleeping or giving way: the schedule says who goes on.
fn pause() {
    let me = TID.with(|c| c.get());
    if !active() || me == 0 || st(|s| s.state.len()) < 2 {
        return;
    }
    sched_point();
}
#[no_mangle]
unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> c_int {
    if active() {
        pause();
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, a, b) as c_int
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const c_void, b: *mut c_void) -> c_int {
    if active() {
        pause();
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, c, f, a, b) == 0 { 0 } else { *libc::__errno_location() }
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        pause();
        return 0;
    }
    libc::syscall(libc::SYS_sched_yield) as c_int
}
unsafe fn do_write(fd: c_int, b: *const u8, n: usize) -> isize {
    do_write_at(fd, b, n, None)
}
unsafe fn do_write_at(fd: c_int, b: *const u8, mut n: usize, at: Option<i64>) -> isize {
    let put = |n: usize| match at {
        None => libc::syscall(libc::SYS_write, fd, b, n) as isize,
        Some(at) => libc::syscall(libc::SYS_pwrite64, fd, b, n, at) as isize,
    };
    if !active() || fd == 1 || fd == 2 {
        return put(n);
    }
    sched_point();
    if pre(2) {
        return -1;
    }
    if n > 0 {
        if let Some(part) = crash_here() {
            if part > 0 {
                put(part.min(n));
            }
            die();
        }
    }
    let k = st(|s| s.counts[2] - 1);
    if let Some(m) = st(|s| s.shorts.iter().find(|x| x.0 == k).map(|x| x.1)) {
        n = m.min(n);
    }
    let r = put(n);
    if r >= 0 {
        mutated();
    }
    r
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    do_write(fd, b as *const u8, n)
}
#[no_mangle]
unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, at: i64) -> isize {
    do_write_at(fd, b as *const u8, n, Some(at))
}
#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    let mut v: Vec<u8> = vec![];
    for i in 0..n as usize {
        let x = &*iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    do_write(fd, v.as_ptr(), v.len())
}
#[no_mangle]
unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if active() {
        sched_point();
        if pre(6) {
            return -1;
        }
        if crash_here().is_some() {
            die();
        }
        mutated();
    }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !active() {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    sched_point();
    if op & libc::LOCK_UN != 0 {
        let r = libc::syscall(libc::SYS_flock, fd, op) as c_int;
        let was = st(|s| {
            let k = s.locked.iter().position(|&f| f == fd);
            if let Some(k) = k {
                s.locked.remove(k);
            }
            k.is_some()
        });
        if was {
            wake();
        }
        return r;
    }
    loop {
        let r = libc::syscall(libc::SYS_flock, fd, op | libc::LOCK_NB) as c_int;
        if r < 0 && *libc::__errno_location() == libc::EWOULDBLOCK && op & libc::LOCK_NB == 0 {
            let me = TID.with(|c| c.get());
            if me == 0 {
                violation("deadlock: waits for a file lock it holds itself");
            }
            st(|s| s.state[me] = 1);
            switch_away(true);
            st(|s| s.granted[me] = false);
            continue;
        }
        if r < 0 {
            return r;
        }
        if pre(5) {
            let e = *libc::__errno_location();
            libc::syscall(libc::SYS_flock, fd, libc::LOCK_UN);
            errno(e);
            return -1;
        }
        st(|s| s.locked.push(fd));
        return r;
    }
}
#[no_mangle]
unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    if active() {
        sched_point();
        let esc = escapes(libc::AT_FDCWD, p);
        if pre(4) {
            return -1;
        }
        if esc {
            errno(libc::EACCES);
            return -1;
        }
        if crash_here().is_some() {
            // would it succeed?
            if libc::syscall(libc::SYS_mkdir, p, mode) == 0 {
                libc::syscall(libc::SYS_rmdir, p);
                die();
            }
            return -1;
        }
    }
    let r = libc::syscall(libc::SYS_mkdir, p, mode) as c_int;
    if active() && r == 0 {
        mutated();
    }
    r
}
#[no_mangle]
unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut c_void) -> c_int {
    if active() && !p.is_null() && !b.is_null() && !(*p == 0 && fl & 0x1000 != 0) {
        sched_point();
        escapes(d, p);
        if pre(3) {
            return -1;
        }
    }
    libc::syscall(libc::SYS_statx, d, p, fl, mask, b) as c_int
}
unsafe fn stat_impl(p: *const c_char, b: *mut c_void, fl: c_int) -> c_int {
    if active() {
        sched_point();
        escapes(libc::AT_FDCWD, p);
        if pre(3) {
            return -1;
        }
    }
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, b, fl) as c_int
}
#[no_mangle]
unsafe extern "C" fn stat64(p: *const c_char, b: *mut c_void) -> c_int {
    stat_impl(p, b, 0)
}
#[no_mangle]
unsafe extern "C" fn lstat64(p: *const c_char, b: *mut c_void) -> c_int {
    stat_impl(p, b, 0x100)
}
#[no_mangle]
unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if active() {
        sched_point();
        escapes(libc::AT_FDCWD, p);
        if pre(3) {
            return -1;
        }
    }
    libc::syscall(libc::SYS_access, p, m) as c_int
}
unsafe fn unlink_impl(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if active() {
        sched_point();
        let esc = escapes(d, p);
        if pre(7) {
            return -1;
        }
        if esc {
            errno(libc::EACCES);
            return -1;
        }
        if crash_here().is_some() {
            let mut b: libc::stat64 = std::mem::zeroed();
            if libc::syscall(libc::SYS_newfstatat, d, p, &mut b, 0x100) == 0 {
                let dir = b.st_mode & libc::S_IFMT == libc::S_IFDIR;
                if !dir && fl == 0 {
                    die();
                }
                if dir && fl != 0 {
                    if libc::syscall(libc::SYS_unlinkat, d, p, fl) == 0 {
                        libc::syscall(libc::SYS_mkdirat, d, p, 0o755);
                        die();
                    }
                    return -1;
                }
            }
        }
    }
    let r = libc::syscall(libc::SYS_unlinkat, d, p, fl) as c_int;
    if active() && r == 0 {
        mutated();
    }
    r
}
#[no_mangle]
unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlink_impl(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlink_impl(libc::AT_FDCWD, p, 0x200)
}
#[no_mangle]
unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    unlink_impl(d, p, fl)
}
#[no_mangle]
unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
    if active() {
        sched_point();
        let e1 = escapes(libc::AT_FDCWD, p);
        let e2 = escapes(libc::AT_FDCWD, q);
        if pre(7) {
            return -1;
        }
        if e1 || e2 {
            errno(libc::EACCES);
            return -1;
        }
        if crash_here().is_some() && exists(libc::AT_FDCWD, p) {
            die();
        }
    }
    let r = libc::syscall(libc::SYS_rename, p, q) as c_int;
    if active() && r == 0 {
        mutated();
    }
    r
}
#[no_mangle]
unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() {
        sched_point();
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if active() {
        sched_point();
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}

// directory streams: entries in name order, like the model's
struct Dir {
    fd: c_int,
    ents: Vec<libc::dirent64>,
    next: usize,
}
unsafe fn dir_of(fd: c_int) -> *mut c_void {
    let mut ents: Vec<libc::dirent64> = vec![];
    let mut buf = vec![0u8; 65536];
    loop {
        let n = libc::syscall(libc::SYS_getdents64, fd, buf.as_mut_ptr(), buf.len());
        if n <= 0 {
            break;
        }
        let mut o = 0;
        while o < n as usize {
            let rl = u16::from_le_bytes([buf[o + 16], buf[o + 17]]) as usize;
            let mut e: libc::dirent64 = std::mem::zeroed();
            std::ptr::copy_nonoverlapping(buf[o..].as_ptr(), &mut e as *mut _ as *mut u8, rl.min(std::mem::size_of::<libc::dirent64>()));
            ents.push(e);
            o += rl;
        }
    }
    let name = |e: &libc::dirent64| CStr::from_ptr(e.d_name.as_ptr()).to_bytes().to_vec();
    ents.sort_by_key(|e| {
        let n = name(e);
        (!(n == b"." || n == b".."), n)
    });
    Box::into_raw(Box::new(Dir { fd, ents, next: 0 })) as *mut c_void
}
#[no_mangle]
unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if active() {
        sched_point();
        escapes(libc::AT_FDCWD, p);
        if pre(8) {
            return std::ptr::null_mut();
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as c_int;
    if fd < 0 {
        return std::ptr::null_mut();
    }
    dir_of(fd)
}
#[no_mangle]
unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    dir_of(fd)
}
#[no_mangle]
unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if active() {
        sched_point();
        if pre(8) {
            return std::ptr::null_mut();
        }
    }
    let d = &mut *(d as *mut Dir);
    if d.next >= d.ents.len() {
        return std::ptr::null_mut();
    }
    d.next += 1;
    &mut d.ents[d.next - 1]
}
#[no_mangle]
unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let d = Box::from_raw(d as *mut Dir);
    libc::syscall(libc::SYS_close, d.fd) as c_int
}
#[no_mangle]
unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut Dir)).fd
}

fn main() {
    let f = std::env::args().nth(1).expect("zr REPLAY-FILE");
    let t = std::fs::read_to_string(&f).expect("replay file");
    let mut s = St::default();
    s.state.push(3);
    s.granted.push(false);
    let mut entry = String::new();
    for l in t.lines() {
        let w: Vec<&str> = l.split('\t').collect();
        match w[0] {
            "entry" => entry = w[1].to_string(),
            "param" => s.params.push(w[1].parse().unwrap()),
            "input" => s.inputs.entry(w[1].to_string()).or_default().push_back(w[2].parse().unwrap()),
            "sched" => s.sched.push_back(w[1].parse().unwrap()),
            "event" => {
                let e: Vec<&str> = w[1].split(' ').collect();
                match e[0] {
                    "fault" => s.faults.push((CATS.iter().position(|c| *c == e[1]).unwrap(), e[2].parse().unwrap(), e[3].parse().unwrap())),
                    "shortr" => s.short_reads.push((e[1].parse().unwrap(), e[2].parse().unwrap())),
                    "short" => s.shorts.push((e[1].parse().unwrap(), e[2].parse().unwrap())),
                    "crash" => s.crash = Some((e[1].parse().unwrap(), e[2].parse().unwrap())),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    let top = std::path::PathBuf::from(std::env::var("ZR_SCRATCH").expect("ZR_SCRATCH: an empty scratch directory"));
    let top = top.canonicalize().unwrap();
    std::fs::create_dir_all(top.join("w/d/e/f")).unwrap();
    let base = top.join("w/d/e/f/base").to_str().unwrap().as_bytes().to_vec();
    s.comps = base.split(|&c| c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
    s.base = base;
    *ST.lock().unwrap() = Some(s);
    let mut es = vec![];
    es.extend(zh::entries());
    let f = match es.iter().find(|e| e.0 == entry) {
        Some(e) => e.1,
        None => diverged("no such entry"),
    };
    unsafe { libc::alarm(60) };
    let lastp = std::sync::Arc::new(Mutex::new(String::new()));
    let lp = lastp.clone();
    std::panic::set_hook(Box::new(move |i| {
        *lp.lock().unwrap() = format!("{}", i).replace('\n', " ");
    }));
    ACTIVE.store(true, SeqCst);
    let r = std::panic::catch_unwind(|| f());
    ACTIVE.store(false, SeqCst);
    if r.is_err() {
        let m = lastp.lock().unwrap().clone();
        violation(&format!("panic: {}", m));
    }
    emit(0, "OK");
}
