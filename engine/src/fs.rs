//! Model of the POSIX file system calls the library reaches through libc.
//!
//! One in-memory tree of inodes; file bytes may be symbolic.  Every call can
//! be made to fail, be the point where the process dies, or be a scheduling
//! point between threads: those choices are symbolic variables of the path.
use crate::exec::*;
use crate::expr::*;
use std::collections::HashMap;

pub const ENOENT: u64 = 2;
pub const EIO: u64 = 5;
pub const EBADF: u64 = 9;
pub const EACCES: u64 = 13;
pub const EEXIST: u64 = 17;
pub const ENOTDIR: u64 = 20;
pub const EISDIR: u64 = 21;
pub const EINVAL: u64 = 22;
pub const EMFILE: u64 = 24;
pub const ENOSPC: u64 = 28;
pub const ERANGE: u64 = 34;
pub const ENOSYS: u64 = 38;
pub const ENOTEMPTY: u64 = 39;
pub const ENOLCK: u64 = 37;

// categories of operations, in the order of the fault mask
pub const CATS: [&str; 9] = ["open", "read", "write", "stat", "mkdir", "flock", "ftruncate", "unlink", "readdir"];
pub const C_OPEN: usize = 0;
pub const C_READ: usize = 1;
pub const C_WRITE: usize = 2;
pub const C_STAT: usize = 3;
pub const C_MKDIR: usize = 4;
pub const C_FLOCK: usize = 5;
pub const C_TRUNC: usize = 6;
pub const C_UNLINK: usize = 7;
pub const C_DIR: usize = 8;
const CAT_ERR: [u64; 9] = [EACCES, EIO, ENOSPC, EACCES, EACCES, ENOLCK, EIO, EACCES, EIO];

#[derive(Clone, Debug)]
pub struct Inode {
    pub dir: bool,
    pub ents: Vec<(Vec<u8>, usize)>,
    pub data: Vec<u32>, // < 256: that byte; otherwise expression + 256
    pub nlink: u32,
    pub parent: usize,
    pub excl: Option<usize>, // open file description holding the lock
    pub shared: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Ofd {
    pub ino: usize,
    pub pos: u64,
    pub flags: u64,
    pub refs: u32,
}

pub struct DirStream {
    pub ents: Vec<(Vec<u8>, usize, u8)>,
    pub next: usize,
    pub fd: usize,
    pub buf: u64,
}

pub struct Fs {
    pub ino: Vec<Inode>,
    pub ofds: Vec<Option<Ofd>>,
    pub fds: Vec<Option<usize>>,
    pub dirs: HashMap<u64, DirStream>,
    pub base: Vec<u8>,
    pub base_comps: Vec<Vec<u8>>,
    pub escaped: u64,
    pub mutations: u64,
    pub fault_mask: u64,
    pub fault_budget: u64,
    pub faults_fired: u64,
    pub counts: [u64; 9],
    pub crash_budget: u64,
    pub mut_count: u64,
    pub short_writes: u64,
    pub short_reads: u64,
    pub snaps: Vec<Vec<(Vec<u8>, bool, Vec<u32>)>>,
}

impl Fs {
    pub fn new() -> Fs {
        let root = Inode { dir: true, ents: vec![], data: vec![], nlink: 2, parent: 0, excl: None, shared: vec![] };
        Fs {
            ino: vec![root],
            ofds: vec![],
            fds: vec![None, None, None],
            dirs: HashMap::new(),
            base: vec![],
            base_comps: vec![],
            escaped: 0,
            mutations: 0,
            fault_mask: 0,
            fault_budget: 0,
            faults_fired: 0,
            counts: [0; 9],
            crash_budget: 0,
            mut_count: 0,
            short_writes: 0,
            short_reads: 0,
            snaps: vec![],
        }
    }
    pub fn child(&self, d: usize, n: &[u8]) -> Option<usize> {
        self.ino[d].ents.iter().find(|e| e.0 == n).map(|e| e.1)
    }
    pub fn mk(&mut self, d: usize, n: &[u8], dir: bool) -> usize {
        let i = self.ino.len();
        self.ino.push(Inode { dir, ents: vec![], data: vec![], nlink: 1, parent: d, excl: None, shared: vec![] });
        self.ino[d].ents.push((n.to_vec(), i));
        i
    }
    /// Resolve a path: (parent directory, last name, inode if it exists).
    /// The name is empty when the path denotes a directory by "..", "." or "/".
    pub fn resolve_at(&mut self, start: usize, p: &[u8]) -> Result<(usize, Vec<u8>, Option<usize>), u64> {
        if p.is_empty() {
            return Err(ENOENT);
        }
        let mut cur = if p[0] == b'/' { 0 } else { start };
        let comps: Vec<&[u8]> = p.split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        let trailing = p.ends_with(b"/") || p.ends_with(b"/.");
        if comps.is_empty() {
            return Ok((cur, vec![], Some(cur)));
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if !self.ino[cur].dir {
                return Err(ENOTDIR);
            }
            if *c == b".." {
                cur = self.ino[cur].parent;
                if last {
                    return Ok((cur, vec![], Some(cur)));
                }
                continue;
            }
            if c.len() > 255 {
                return Err(36);
            }
            match self.child(cur, c) {
                Some(n) => {
                    if last {
                        if trailing && !self.ino[n].dir {
                            return Err(ENOTDIR);
                        }
                        return Ok((cur, c.to_vec(), Some(n)));
                    }
                    cur = n;
                }
                None => {
                    if last {
                        return Ok((cur, c.to_vec(), None));
                    }
                    return Err(ENOENT);
                }
            }
        }
        unreachable!()
    }
    pub fn base_ino(&self) -> Option<usize> {
        let mut c = 0;
        for n in &self.base_comps {
            c = self.child(c, n)?;
        }
        Some(c)
    }
    /// Lexical form of a path: does it denote something outside the base
    /// directory that is not one of its ancestors (or the base itself)?
    pub fn note_escape(&mut self, p: &[u8]) -> bool {
        self.note_escape_at(0, p)
    }
    fn abs_of(&self, mut i: usize) -> Vec<u8> {
        let mut parts: Vec<&[u8]> = vec![];
        while i != 0 {
            let p = self.ino[i].parent;
            match self.ino[p].ents.iter().find(|e| e.1 == i) {
                Some(e) => parts.push(&e.0),
                None => break,
            }
            i = p;
        }
        let mut v = vec![];
        for p in parts.iter().rev() {
            v.push(b'/');
            v.extend_from_slice(p);
        }
        v
    }
    pub fn note_escape_at(&mut self, st: usize, p: &[u8]) -> bool {
        let mut full;
        let p = if st != 0 && p.first() != Some(&b'/') {
            full = self.abs_of(st);
            full.push(b'/');
            full.extend_from_slice(p);
            &full[..]
        } else {
            p
        };
        if self.base.is_empty() {
            return false;
        }
        let mut st: Vec<&[u8]> = vec![];
        for c in p.split(|&c| c == b'/') {
            match c {
                b"" | b"." => {}
                b".." => {
                    st.pop();
                }
                c => st.push(c),
            }
        }
        let b = &self.base_comps;
        let n = st.len().min(b.len());
        let common = (0..n).all(|i| st[i] == &b[i][..]);
        // a prefix of the base path, or something below it
        let ok = common;
        if !ok {
            self.escaped += 1;
        }
        !ok
    }
    pub fn snap(&self) -> Vec<(Vec<u8>, bool, Vec<u32>)> {
        let mut out = vec![];
        if let Some(b) = self.base_ino() {
            let mut st = vec![(vec![], b)];
            while let Some((p, i)) = st.pop() {
                for (n, c) in &self.ino[i].ents {
                    let mut q: Vec<u8> = p.clone();
                    if !q.is_empty() {
                        q.push(b'/');
                    }
                    q.extend_from_slice(n);
                    if self.ino[*c].dir {
                        st.push((q, *c));
                    } else {
                        out.push((q, false, self.ino[*c].data.clone()));
                    }
                }
            }
        }
        out.sort_by(|a, b| a.0.cmp(&b.0));
        out
    }
    fn unlock(&mut self, ofd: usize) -> bool {
        let ino = self.ofds[ofd].as_ref().unwrap().ino;
        let n = &mut self.ino[ino];
        let mut changed = false;
        if n.excl == Some(ofd) {
            n.excl = None;
            changed = true;
        }
        if let Some(k) = n.shared.iter().position(|&x| x == ofd) {
            n.shared.remove(k);
            changed = true;
        }
        changed
    }
    /// All descriptors vanish, as when the process dies.
    pub fn drop_all(&mut self) {
        for i in 0..self.ofds.len() {
            if self.ofds[i].is_some() {
                self.unlock(i);
                self.ofds[i] = None;
            }
        }
        for f in self.fds.iter_mut() {
            *f = None;
        }
        self.dirs.clear();
    }
    fn new_fd(&mut self, o: usize) -> usize {
        let n = self.fds.iter().skip(3).position(|f| f.is_none()).map(|k| k + 3);
        match n {
            Some(k) => {
                self.fds[k] = Some(o);
                k
            }
            None => {
                self.fds.push(Some(o));
                self.fds.len() - 1
            }
        }
    }
    fn new_ofd(&mut self, ino: usize, flags: u64) -> usize {
        let o = self.ofds.len();
        self.ofds.push(Some(Ofd { ino, pos: 0, flags, refs: 1 }));
        o
    }
    fn ofd(&self, fd: u64) -> Option<usize> {
        self.fds.get(fd as usize).copied().flatten()
    }
}

fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

impl Machine {
    pub fn set_errno(&mut self, e: u64) {
        let a = self.threads[self.cur].errno;
        self.store_int(a, 4, &V::C(e));
    }
    pub fn fail(&mut self, e: u64) -> Flow {
        self.set_errno(e);
        Flow::Val(V::C(u64::MAX))
    }
    fn fail32(&mut self, e: u64) -> Flow {
        self.set_errno(e);
        Flow::Val(V::C(0xffff_ffff))
    }
    /// Chooses the thread that runs next among `c` (a symbolic choice).
    fn choose(&mut self, c: &[usize]) -> usize {
        if c.len() == 1 {
            return c[0];
        }
        let n = self.env.sched.len();
        let e = self.new_var(&format!("sched{}", n), 8, 0, c.len() as u128 - 1);
        for (i, &t) in c.iter().enumerate() {
            if i + 1 == c.len() {
                return t;
            }
            let k = self.cx.k(i as u128, 8);
            let q = self.cx.eq(e, k);
            if self.branch(q, "schedule") {
                return t;
            }
        }
        unreachable!()
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|&i| self.threads[i].state == TState::Run).collect()
    }
    /// Pick another thread because the current one cannot continue.
    pub fn switch_away(&mut self) {
        let r = self.runnable();
        if r.is_empty() {
            let done = (1..self.threads.len()).all(|i| self.threads[i].state == TState::Done);
            if done && self.threads[0].state == TState::Join {
                self.threads[0].state = TState::Run;
                self.cur = 0;
                return;
            }
            self.violation("deadlock: every thread waits for a file lock", true);
            self.end_path("deadlock");
        }
        let t = self.choose(&r);
        self.env.sched.push(t);
        self.cur = t;
        self.threads[t].granted = true;
    }
    /// A scheduling point before a file system call.  True: go on.
    fn sched_point(&mut self) -> bool {
        if self.threads.len() < 2 || self.cur == 0 {
            return true;
        }
        if self.threads[self.cur].granted {
            self.threads[self.cur].granted = false;
            return true;
        }
        let mut r = self.runnable();
        if self.env.preemptions == 0 {
            r.retain(|&t| t == self.cur);
        } else {
            // the current thread first
            let c = self.cur;
            r.retain(|&t| t != c);
            r.insert(0, c);
        }
        let t = self.choose(&r);
        self.env.sched.push(t);
        if t == self.cur {
            return true;
        }
        self.env.preemptions -= 1;
        self.cur = t;
        self.threads[t].granted = true;
        false
    }
    /// Common prologue of every modelled call.  Some(errno): it fails.
    fn pre(&mut self, cat: usize, what: String) -> Option<u64> {
        self.env.nops += 1;
        let k = self.env.fs.counts[cat];
        self.env.fs.counts[cat] += 1;
        if self.env.log.len() < 4000 {
            let t = self.cur;
            self.env.log.push(if t == 0 { what.clone() } else { format!("[t{}] {}", t, what) });
        }
        if self.env.fs.fault_budget > 0 && self.env.fs.fault_mask >> cat & 1 == 1 {
            let e = self.new_var(&format!("fault_{}{}", CATS[cat], k), 1, 0, 1);
            if self.branch(e, "fault") {
                self.env.fs.fault_budget -= 1;
                self.env.fs.faults_fired += 1;
                let en = CAT_ERR[cat];
                self.env.events.push(format!("fault {} {} {}", CATS[cat], k, en));
                self.env.log.push(format!("  -> injected failure {}", en));
                return Some(en);
            }
        }
        None
    }
    /// May the process die right before this mutation?
    fn crash_here(&mut self, partial: &str) -> bool {
        if self.env.fs.crash_budget == 0 {
            return false;
        }
        let k = self.env.fs.mut_count;
        let e = self.new_var(&format!("crash{}{}", k, partial), 1, 0, 1);
        if self.branch(e, "crash") {
            self.env.fs.crash_budget = 0;
            self.env.events.push(format!("crash {}{}", k, if partial.is_empty() { " 0".to_string() } else { format!(" {}", partial) }));
            self.env.log.push("  -> the process dies here".into());
            true
        } else {
            false
        }
    }
    fn die(&mut self) -> Flow {
        self.env.fs.drop_all();
        Flow::Throw(2)
    }
    fn path(&mut self, v: &V) -> Vec<u8> {
        let a = self.concretise(v, 64);
        self.cstr(a)
    }
}

macro_rules! sched {
    ($m:expr) => {
        if !$m.sched_point() {
            return Flow::Yield;
        }
    };
}
fn arg(m: &mut Machine, c: &Cc, i: usize) -> u64 {
    let w = c.tys[i].1.bits();
    let v = c.args[i].clone();
    m.concretise(&v, w)
}
fn mutation(m: &mut Machine) {
    m.env.fs.mutations += 1;
    m.env.fs.mut_count += 1;
}

pub fn open64(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    let fl = arg(m, c, 1);
    do_open(m, 0, p, fl)
}
pub fn openat64(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let d = arg(m, c, 0);
    let p = m.path(&c.args[1]);
    let fl = arg(m, c, 2);
    let st = match m.env.fs.ofd(d) {
        Some(o) => m.env.fs.ofds[o].as_ref().unwrap().ino,
        None => 0,
    };
    do_open(m, st, p, fl)
}
fn do_open(m: &mut Machine, st: usize, p: Vec<u8>, fl: u64) -> Flow {
    m.env.fs.note_escape_at(st, &p);
    if let Some(e) = m.pre(C_OPEN, format!("open {} {:#o}", show(&p), fl)) {
        return m.fail32(e);
    }
    let (d, n, ino) = match m.env.fs.resolve_at(st, &p) {
        Ok(x) => x,
        Err(e) => return m.fail32(e),
    };
    let acc = fl & 3;
    let creat = fl & 0o100 != 0;
    let excl = fl & 0o200 != 0;
    let trunc = fl & 0o1000 != 0;
    let odir = fl & 0o200000 != 0;
    let ino = match ino {
        Some(i) => {
            if creat && excl {
                return m.fail32(EEXIST);
            }
            if m.env.fs.ino[i].dir {
                if acc != 0 || creat {
                    return m.fail32(EISDIR);
                }
            } else if odir {
                return m.fail32(ENOTDIR);
            }
            if trunc && acc != 0 && !m.env.fs.ino[i].data.is_empty() {
                if m.crash_here("") {
                    return m.die();
                }
                mutation(m);
                m.env.fs.ino[i].data.clear();
            }
            i
        }
        None => {
            if !creat {
                return m.fail32(ENOENT);
            }
            if p.ends_with(b"/") {
                return m.fail32(EISDIR);
            }
            if m.crash_here("") {
                return m.die();
            }
            mutation(m);
            m.env.fs.mk(d, &n, false)
        }
    };
    let o = m.env.fs.new_ofd(ino, fl);
    let fd = m.env.fs.new_fd(o);
    Flow::Val(V::C(fd as u64))
}
pub fn close(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    do_close(m, fd)
}
fn do_close(m: &mut Machine, fd: u64) -> Flow {
    m.env.nops += 1;
    match m.env.fs.ofd(fd) {
        None => m.fail32(EBADF),
        Some(o) => {
            m.env.fs.fds[fd as usize] = None;
            let r = m.env.fs.ofds[o].as_mut().unwrap();
            r.refs -= 1;
            if r.refs == 0 {
                let ch = m.env.fs.unlock(o);
                m.env.fs.ofds[o] = None;
                if ch {
                    wake(m);
                }
            }
            Flow::Val(V::C(0))
        }
    }
}
fn wake(m: &mut Machine) {
    for t in m.threads.iter_mut() {
        if t.state == TState::Blocked {
            t.state = TState::Run;
        }
    }
}
pub fn fcntl(m: &mut Machine, c: &Cc) -> Flow {
    let fd = arg(m, c, 0);
    let op = arg(m, c, 1);
    match op {
        // F_DUPFD, F_DUPFD_CLOEXEC
        0 | 1030 => match m.env.fs.ofd(fd) {
            Some(o) => {
                m.env.fs.ofds[o].as_mut().unwrap().refs += 1;
                let k = m.env.fs.new_fd(o);
                Flow::Val(V::C(k as u64))
            }
            None => m.fail32(EBADF),
        },
        1 | 2 | 3 | 4 => Flow::Val(V::C(0)),
        _ => m.inconclusive("fcntl"),
    }
}
pub fn read(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    let buf = arg(m, c, 1);
    let n = arg(m, c, 2);
    match do_read(m, fd, n, None) {
        Ok(b) => {
            m.wr_bytes(buf, &b);
            Flow::Val(V::C(b.len() as u64))
        }
        Err(e) => m.fail(e),
    }
}
pub fn pread(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    let buf = arg(m, c, 1);
    let n = arg(m, c, 2);
    let at = arg(m, c, 3);
    match do_read(m, fd, n, Some(at)) {
        Ok(b) => {
            m.wr_bytes(buf, &b);
            Flow::Val(V::C(b.len() as u64))
        }
        Err(e) => m.fail(e),
    }
}
pub fn readv(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    let iov = arg(m, c, 1);
    let k = arg(m, c, 2);
    let mut parts = vec![];
    let mut n = 0;
    for i in 0..k {
        let p = m.load_int(iov + i * 16, 8);
        let p = m.concretise(&p, 64);
        let l = m.load_int(iov + i * 16 + 8, 8);
        let l = m.concretise(&l, 64);
        parts.push((p, l));
        n += l;
    }
    match do_read(m, fd, n, None) {
        Ok(b) => {
            let mut at = 0;
            for (p, l) in parts {
                let k = (l as usize).min(b.len() - at);
                m.wr_bytes(p, &b[at..at + k]);
                at += k;
            }
            Flow::Val(V::C(b.len() as u64))
        }
        Err(e) => m.fail(e),
    }
}
fn do_read(m: &mut Machine, fd: u64, n: u64, at: Option<u64>) -> Result<Vec<V>, u64> {
    let o = match m.env.fs.ofd(fd) {
        Some(o) => o,
        None => return Err(EBADF),
    };
    if let Some(e) = m.pre(C_READ, format!("read fd{} {}", fd, n)) {
        return Err(e);
    }
    let f = m.env.fs.ofds[o].as_ref().unwrap();
    if f.flags & 3 == 1 {
        return Err(EBADF);
    }
    let (ino, pos) = (f.ino, at.unwrap_or(f.pos) as usize);
    if m.env.fs.ino[ino].dir {
        return Err(EISDIR);
    }
    let mut k = (n as usize).min(m.env.fs.ino[ino].data.len().saturating_sub(pos));
    if k > 1 && m.env.fs.short_reads > 0 {
        let i = m.env.fs.counts[C_READ] - 1;
        let e = m.new_var(&format!("shortr{}", i), 1, 0, 1);
        if m.branch(e, "short read") {
            m.env.fs.short_reads -= 1;
            m.env.events.push(format!("shortr {} {}", i, k / 2));
            k /= 2;
        }
    }
    let d = &m.env.fs.ino[ino].data;
    let b: Vec<V> = d[pos.min(d.len())..pos.min(d.len()) + k]
        .iter()
        .map(|&x| if x < 256 { V::C(x as u64) } else { V::S(x - 256) })
        .collect();
    if at.is_none() {
        m.env.fs.ofds[o].as_mut().unwrap().pos += k as u64;
    }
    Ok(b)
}
pub fn write(m: &mut Machine, c: &Cc) -> Flow {
    let fd = arg(m, c, 0);
    if fd == 1 || fd == 2 {
        let n = arg(m, c, 2);
        return Flow::Val(V::C(n));
    }
    sched!(m);
    let buf = arg(m, c, 1);
    let n = arg(m, c, 2);
    let b = m.rd_bytes(buf, n);
    do_write(m, fd, b)
}
pub fn pwrite(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    let buf = arg(m, c, 1);
    let n = arg(m, c, 2);
    let at = arg(m, c, 3);
    let o = match m.env.fs.ofd(fd) {
        Some(o) => o,
        None => return m.fail(EBADF),
    };
    let b = m.rd_bytes(buf, n);
    let old = m.env.fs.ofds[o].as_ref().unwrap().pos;
    m.env.fs.ofds[o].as_mut().unwrap().pos = at;
    let r = do_write(m, fd, b);
    if let Some(Some(f)) = m.env.fs.ofds.get_mut(o) {
        f.pos = old;
    }
    r
}
pub fn writev(m: &mut Machine, c: &Cc) -> Flow {
    let fd = arg(m, c, 0);
    let iov = arg(m, c, 1);
    let k = arg(m, c, 2);
    let mut b = vec![];
    for i in 0..k {
        let p = m.load_int(iov + i * 16, 8);
        let p = m.concretise(&p, 64);
        let n = m.load_int(iov + i * 16 + 8, 8);
        let n = m.concretise(&n, 64);
        b.extend(m.rd_bytes(p, n));
    }
    if fd == 1 || fd == 2 {
        return Flow::Val(V::C(b.len() as u64));
    }
    sched!(m);
    do_write(m, fd, b)
}
fn put(m: &mut Machine, o: usize, b: &[V]) {
    let f = m.env.fs.ofds[o].as_ref().unwrap();
    let ino = f.ino;
    let pos = if f.flags & 0o2000 != 0 { m.env.fs.ino[ino].data.len() } else { f.pos as usize };
    let d = &mut m.env.fs.ino[ino].data;
    if d.len() < pos + b.len() {
        d.resize(pos + b.len(), 0);
    }
    for (i, v) in b.iter().enumerate() {
        d[pos + i] = match v {
            V::C(x) => *x as u32 & 255,
            V::S(e) => *e + 256,
            _ => unreachable!(),
        };
    }
    m.env.fs.ofds[o].as_mut().unwrap().pos = (pos + b.len()) as u64;
}
fn do_write(m: &mut Machine, fd: u64, b: Vec<V>) -> Flow {
    let o = match m.env.fs.ofd(fd) {
        Some(o) => o,
        None => return m.fail(EBADF),
    };
    if m.env.fs.ofds[o].as_ref().unwrap().flags & 3 == 0 {
        return m.fail(EBADF);
    }
    let mut n = b.len();
    if let Some(e) = m.pre(C_WRITE, format!("write fd{} {}", fd, n)) {
        return m.fail(e);
    }
    if n > 0 {
        if m.crash_here("") {
            return m.die();
        }
        // the process can also die after part of the data was stored
        let cuts: Vec<usize> = if n <= 1 {
            vec![]
        } else if n <= 9 {
            (1..n).collect()
        } else {
            vec![1, n / 2, n - 1]
        };
        for k in cuts {
            if m.crash_here(&format!("{}", k)) {
                put(m, o, &b[..k]);
                return m.die();
            }
        }
    }
    if n > 1 && m.env.fs.short_writes > 0 {
        let k = m.env.fs.counts[C_WRITE] - 1;
        let e = m.new_var(&format!("short{}", k), 1, 0, 1);
        if m.branch(e, "short write") {
            m.env.fs.short_writes -= 1;
            m.env.events.push(format!("short {} {}", k, n / 2));
            n /= 2;
        }
    }
    mutation(m);
    put(m, o, &b[..n]);
    Flow::Val(V::C(n as u64))
}
pub fn lseek64(m: &mut Machine, c: &Cc) -> Flow {
    let fd = arg(m, c, 0);
    let off = arg(m, c, 1) as i64;
    let wh = arg(m, c, 2);
    let o = match m.env.fs.ofd(fd) {
        Some(o) => o,
        None => return m.fail(EBADF),
    };
    let f = m.env.fs.ofds[o].as_ref().unwrap();
    let base = match wh {
        0 => 0,
        1 => f.pos as i64,
        _ => m.env.fs.ino[f.ino].data.len() as i64,
    };
    if base + off < 0 {
        return m.fail(EINVAL);
    }
    m.env.fs.ofds[o].as_mut().unwrap().pos = (base + off) as u64;
    Flow::Val(V::C((base + off) as u64))
}
pub fn ftruncate64(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    let n = arg(m, c, 1) as usize;
    let o = match m.env.fs.ofd(fd) {
        Some(o) => o,
        None => return m.fail32(EBADF),
    };
    if let Some(e) = m.pre(C_TRUNC, format!("ftruncate fd{} {}", fd, n)) {
        return m.fail32(e);
    }
    if m.crash_here("") {
        return m.die();
    }
    let ino = m.env.fs.ofds[o].as_ref().unwrap().ino;
    mutation(m);
    m.env.fs.ino[ino].data.resize(n, 0);
    Flow::Val(V::C(0))
}
pub fn flock(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let fd = arg(m, c, 0);
    let op = arg(m, c, 1);
    let o = match m.env.fs.ofd(fd) {
        Some(o) => o,
        None => return m.fail32(EBADF),
    };
    let ino = m.env.fs.ofds[o].as_ref().unwrap().ino;
    if op & 8 != 0 {
        if m.env.fs.unlock(o) {
            wake(m);
        }
        return Flow::Val(V::C(0));
    }
    let free = {
        let n = &m.env.fs.ino[ino];
        let other_ex = n.excl.map_or(false, |x| x != o);
        let other_sh = n.shared.iter().any(|&x| x != o);
        if op & 3 == 2 {
            !other_ex && !other_sh
        } else {
            !other_ex
        }
    };
    if !free {
        if op & 4 != 0 {
            return m.fail32(11);
        }
        if m.threads.len() < 2 || m.cur == 0 {
            m.violation("deadlock: waits for a file lock it holds itself", true);
            m.end_path("deadlock");
        }
        m.threads[m.cur].state = TState::Blocked;
        m.env.log.push(format!("[t{}] flock blocks", m.cur));
        m.switch_away();
        return Flow::Yield;
    }
    if let Some(e) = m.pre(C_FLOCK, format!("flock fd{} {}", fd, op)) {
        return m.fail32(e);
    }
    m.env.fs.unlock(o);
    let n = &mut m.env.fs.ino[ino];
    if op & 3 == 2 {
        n.excl = Some(o);
    } else {
        n.shared.push(o);
    }
    Flow::Val(V::C(0))
}
pub fn mkdir(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    m.env.fs.note_escape(&p);
    if let Some(e) = m.pre(C_MKDIR, format!("mkdir {}", show(&p))) {
        return m.fail32(e);
    }
    match m.env.fs.resolve_at(0, &p) {
        Err(e) => m.fail32(e),
        Ok((_, _, Some(_))) => m.fail32(EEXIST),
        Ok((d, n, None)) => {
            if m.crash_here("") {
                return m.die();
            }
            mutation(m);
            m.env.fs.mk(d, &n, true);
            Flow::Val(V::C(0))
        }
    }
}
fn fill_stat(m: &mut Machine, ino: usize, buf: u64) {
    m.wr_concrete(buf, &[0; 144]);
    let n = m.env.fs.ino[ino].clone();
    m.store_int(buf + 8, 8, &V::C(ino as u64 + 2));
    m.store_int(buf + 16, 8, &V::C(n.nlink as u64));
    m.store_int(buf + 24, 4, &V::C(if n.dir { 0o40755 } else { 0o100644 }));
    m.store_int(buf + 48, 8, &V::C(n.data.len() as u64));
    m.store_int(buf + 56, 8, &V::C(4096));
}
pub fn stat64(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    let buf = arg(m, c, 1);
    m.env.fs.note_escape(&p);
    if let Some(e) = m.pre(C_STAT, format!("stat {}", show(&p))) {
        return m.fail32(e);
    }
    match m.env.fs.resolve_at(0, &p) {
        Err(e) => m.fail32(e),
        Ok((_, _, None)) => m.fail32(ENOENT),
        Ok((_, _, Some(i))) => {
            fill_stat(m, i, buf);
            Flow::Val(V::C(0))
        }
    }
}
pub fn fstat64(m: &mut Machine, c: &Cc) -> Flow {
    let fd = arg(m, c, 0);
    let buf = arg(m, c, 1);
    match m.env.fs.ofd(fd) {
        None => m.fail32(EBADF),
        Some(o) => {
            let i = m.env.fs.ofds[o].as_ref().unwrap().ino;
            fill_stat(m, i, buf);
            Flow::Val(V::C(0))
        }
    }
}
pub fn statx_call(m: &mut Machine, dfd: u64, p: u64, flags: u64, buf: u64) -> Flow {
    if buf == 0 || p == 0 {
        // std probes for the system call with null pointers
        return m.fail(14);
    }
    let path = m.cstr(p);
    let ino = if path.is_empty() && flags & 0x1000 != 0 {
        match m.env.fs.ofd(dfd) {
            Some(o) => m.env.fs.ofds[o].as_ref().unwrap().ino,
            None => return m.fail(EBADF),
        }
    } else {
        sched!(m);
        let st = m.env.fs.ofd(dfd).map(|o| m.env.fs.ofds[o].as_ref().unwrap().ino).unwrap_or(0);
        m.env.fs.note_escape_at(st, &path);
        if let Some(e) = m.pre(C_STAT, format!("statx {}", show(&path))) {
            return m.fail(e);
        }
        match m.env.fs.resolve_at(st, &path) {
            Err(e) => return m.fail(e),
            Ok((_, _, None)) => return m.fail(ENOENT),
            Ok((_, _, Some(i))) => i,
        }
    };
    m.wr_concrete(buf, &[0; 256]);
    let n = m.env.fs.ino[ino].clone();
    m.store_int(buf, 4, &V::C(0x7ff));
    m.store_int(buf + 4, 4, &V::C(4096));
    m.store_int(buf + 16, 4, &V::C(n.nlink as u64));
    m.store_int(buf + 28, 2, &V::C(if n.dir { 0o40755 } else { 0o100644 }));
    m.store_int(buf + 32, 8, &V::C(ino as u64 + 2));
    m.store_int(buf + 40, 8, &V::C(n.data.len() as u64));
    Flow::Val(V::C(0))
}
pub fn unlink(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    do_unlink(m, p, c.name == "rmdir", 0)
}
pub fn unlinkat(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let d = arg(m, c, 0);
    let p = m.path(&c.args[1]);
    let fl = arg(m, c, 2);
    let st = m.env.fs.ofd(d).map(|o| m.env.fs.ofds[o].as_ref().unwrap().ino).unwrap_or(0);
    do_unlink(m, p, fl & 0x200 != 0, st)
}
fn do_unlink(m: &mut Machine, p: Vec<u8>, rmdir: bool, st: usize) -> Flow {
    m.env.fs.note_escape_at(st, &p);
    if let Some(e) = m.pre(C_UNLINK, format!("{} {}", if rmdir { "rmdir" } else { "unlink" }, show(&p))) {
        return m.fail32(e);
    }
    match m.env.fs.resolve_at(st, &p) {
        Err(e) => m.fail32(e),
        Ok((_, _, None)) => m.fail32(ENOENT),
        Ok((d, n, Some(i))) => {
            if n.is_empty() {
                return m.fail32(EINVAL);
            }
            if rmdir != m.env.fs.ino[i].dir {
                return m.fail32(if rmdir { ENOTDIR } else { EISDIR });
            }
            if rmdir && !m.env.fs.ino[i].ents.is_empty() {
                return m.fail32(ENOTEMPTY);
            }
            if m.crash_here("") {
                return m.die();
            }
            mutation(m);
            m.env.fs.ino[d].ents.retain(|e| e.0 != n);
            m.env.fs.ino[i].nlink = 0;
            Flow::Val(V::C(0))
        }
    }
}
pub fn rename(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    let q = m.path(&c.args[1]);
    m.env.fs.note_escape(&p);
    m.env.fs.note_escape(&q);
    if let Some(e) = m.pre(C_UNLINK, format!("rename {} {}", show(&p), show(&q))) {
        return m.fail32(e);
    }
    let a = match m.env.fs.resolve_at(0, &p) {
        Ok((d, n, Some(i))) => (d, n, i),
        Ok(_) => return m.fail32(ENOENT),
        Err(e) => return m.fail32(e),
    };
    let (d2, n2, t) = match m.env.fs.resolve_at(0, &q) {
        Ok(x) => x,
        Err(e) => return m.fail32(e),
    };
    if let Some(t) = t {
        if t == a.2 {
            return Flow::Val(V::C(0));
        }
        let (sd, td) = (m.env.fs.ino[a.2].dir, m.env.fs.ino[t].dir);
        if td && !sd {
            return m.fail32(EISDIR);
        }
        if !td && sd {
            return m.fail32(ENOTDIR);
        }
        if td && !m.env.fs.ino[t].ents.is_empty() {
            return m.fail32(ENOTEMPTY);
        }
    }
    if m.crash_here("") {
        return m.die();
    }
    mutation(m);
    m.env.fs.ino[d2].ents.retain(|e| e.0 != n2);
    let (d, n, i) = a;
    m.env.fs.ino[d].ents.retain(|e| e.0 != n);
    m.env.fs.ino[d2].ents.push((n2, i));
    m.env.fs.ino[i].parent = d2;
    Flow::Val(V::C(0))
}
fn dir_stream(m: &mut Machine, ino: usize, fd: usize) -> Flow {
    let ents = &m.env.fs.ino[ino].ents;
    let mut v: Vec<(Vec<u8>, usize, u8)> = vec![(b".".to_vec(), ino, 4), (b"..".to_vec(), m.env.fs.ino[ino].parent, 4)];
    for (n, i) in ents {
        v.push((n.clone(), *i, if m.env.fs.ino[*i].dir { 4 } else { 8 }));
    }
    v[2..].sort();
    let buf = m.new_obj(512, crate::mem::Kind::Heap);
    m.env.fs.dirs.insert(buf, DirStream { ents: v, next: 0, fd, buf });
    Flow::Val(V::C(buf))
}
pub fn opendir(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    m.env.fs.note_escape(&p);
    if let Some(e) = m.pre(C_DIR, format!("opendir {}", show(&p))) {
        m.set_errno(e);
        return Flow::Val(V::C(0));
    }
    let r = m.env.fs.resolve_at(0, &p);
    let e = match r {
        Err(e) => e,
        Ok((_, _, None)) => ENOENT,
        Ok((_, _, Some(i))) if !m.env.fs.ino[i].dir => ENOTDIR,
        Ok((_, _, Some(i))) => {
            let o = m.env.fs.new_ofd(i, 0);
            let fd = m.env.fs.new_fd(o);
            return dir_stream(m, i, fd);
        }
    };
    m.set_errno(e);
    Flow::Val(V::C(0))
}
pub fn fdopendir(m: &mut Machine, c: &Cc) -> Flow {
    let fd = arg(m, c, 0);
    match m.env.fs.ofd(fd) {
        Some(o) => {
            let i = m.env.fs.ofds[o].as_ref().unwrap().ino;
            dir_stream(m, i, fd as usize)
        }
        None => {
            m.set_errno(EBADF);
            Flow::Val(V::C(0))
        }
    }
}
pub fn readdir64(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let d = arg(m, c, 0);
    if let Some(e) = m.pre(C_DIR, "readdir".into()) {
        m.set_errno(e);
        return Flow::Val(V::C(0));
    }
    let s = match m.env.fs.dirs.get_mut(&d) {
        Some(s) => s,
        None => m.inconclusive("readdir on an unknown stream"),
    };
    if s.next >= s.ents.len() {
        return Flow::Val(V::C(0));
    }
    let (n, i, t) = s.ents[s.next].clone();
    s.next += 1;
    let buf = s.buf;
    m.wr_concrete(buf, &[0; 280]);
    m.store_int(buf, 8, &V::C(i as u64 + 2));
    m.store_int(buf + 16, 2, &V::C(280));
    m.store_int(buf + 18, 1, &V::C(t as u64));
    m.wr_concrete(buf + 19, &n);
    Flow::Val(V::C(buf))
}
pub fn closedir(m: &mut Machine, c: &Cc) -> Flow {
    let d = arg(m, c, 0);
    match m.env.fs.dirs.remove(&d) {
        Some(s) => do_close(m, s.fd as u64),
        None => m.inconclusive("closedir"),
    }
}
pub fn dirfd(m: &mut Machine, c: &Cc) -> Flow {
    let d = arg(m, c, 0);
    match m.env.fs.dirs.get(&d) {
        Some(s) => Flow::Val(V::C(s.fd as u64)),
        None => m.inconclusive("dirfd"),
    }
}
/// Sleeping or giving way: other threads may run for a while, or not.
pub fn pause(m: &mut Machine, _c: &Cc) -> Flow {
    let c = m.cur;
    if m.threads.len() < 2 || c == 0 {
        return Flow::Val(V::C(0));
    }
    if m.threads[c].granted {
        m.threads[c].granted = false;
        return Flow::Val(V::C(0));
    }
    let mut r = m.runnable();
    r.retain(|&t| t != c);
    m.env.pauses += 1;
    if r.is_empty() || m.env.pauses <= 4 {
        r.insert(0, c);
    }
    let t = m.choose(&r);
    m.env.sched.push(t);
    if t == c {
        return Flow::Val(V::C(0));
    }
    m.cur = t;
    m.threads[t].granted = true;
    Flow::Yield
}
/// The system calls for which the standard library has a fallback.
pub fn not_there(m: &mut Machine, c: &Cc) -> Flow {
    match c.ret.bits() {
        32 => m.fail32(ENOSYS),
        _ => m.fail(ENOSYS),
    }
}
pub fn fsync(m: &mut Machine, _c: &Cc) -> Flow {
    sched!(m);
    Flow::Val(V::C(0))
}
pub fn readlink(m: &mut Machine, _c: &Cc) -> Flow {
    m.fail(EINVAL)
}
pub fn access(m: &mut Machine, c: &Cc) -> Flow {
    sched!(m);
    let p = m.path(&c.args[0]);
    m.env.fs.note_escape(&p);
    if let Some(e) = m.pre(C_STAT, format!("access {}", show(&p))) {
        return m.fail32(e);
    }
    match m.env.fs.resolve_at(0, &p) {
        Err(e) => m.fail32(e),
        Ok((_, _, None)) => m.fail32(ENOENT),
        Ok(_) => Flow::Val(V::C(0)),
    }
}
/// Byte-wise equality of two file contents.
pub fn data_eq(m: &mut Machine, a: &[u32], b: &[u32]) -> E {
    let mut acc = m.cx.k((a.len() == b.len()) as u128, 1);
    if a.len() != b.len() {
        return acc;
    }
    for (x, y) in a.iter().zip(b) {
        if x == y {
            continue;
        }
        let ex = if *x < 256 { m.cx.k(*x as u128, 8) } else { *x - 256 };
        let ey = if *y < 256 { m.cx.k(*y as u128, 8) } else { *y - 256 };
        let e = m.cx.eq(ex, ey);
        acc = m.cx.and(acc, e);
    }
    acc
}
