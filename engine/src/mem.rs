//! Byte-addressed memory: concrete bytes plus an overlay of symbolic bytes.
use crate::expr::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Null,
    Heap,
    Stack,
    Global,
    Func(u32),
}

pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Option<Box<[E; 64]>>>,
    pub nsym: u32,
    pub size: u64,
    pub alive: bool,
    pub kind: Kind,
}

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        Obj { data: vec![0; size as usize], sym: vec![], nsym: 0, size, alive: true, kind }
    }
    #[inline]
    pub fn sym_at(&self, off: usize) -> E {
        match self.sym.get(off >> 6) {
            Some(Some(p)) => p[off & 63],
            _ => 0,
        }
    }
    pub fn set_sym(&mut self, off: usize, e: E) {
        let pg = off >> 6;
        if e == 0 {
            if let Some(Some(p)) = self.sym.get_mut(pg) {
                if p[off & 63] != 0 {
                    p[off & 63] = 0;
                    self.nsym -= 1;
                }
            }
            return;
        }
        if self.sym.len() <= pg {
            self.sym.resize_with(pg + 1, || None);
        }
        let p = self.sym[pg].get_or_insert_with(|| Box::new([0; 64]));
        if p[off & 63] == 0 {
            self.nsym += 1;
        }
        p[off & 63] = e;
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if self.nsym == 0 || n == 0 {
            return;
        }
        let mut pg = off >> 6;
        let last = (off + n - 1) >> 6;
        while pg <= last && pg < self.sym.len() {
            if self.sym[pg].is_some() {
                let a = off.max(pg << 6);
                let b = (off + n).min((pg + 1) << 6);
                for o in a..b {
                    self.set_sym(o, 0);
                }
            }
            pg += 1;
        }
    }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        if self.nsym == 0 || n == 0 {
            return false;
        }
        let mut pg = off >> 6;
        let last = (off + n - 1) >> 6;
        while pg <= last && pg < self.sym.len() {
            if let Some(p) = &self.sym[pg] {
                let a = off.max(pg << 6);
                let b = (off + n).min((pg + 1) << 6);
                if p[a & 63..=((b - 1) & 63)].iter().any(|&e| e != 0) {
                    return true;
                }
            }
            pg += 1;
        }
        false
    }
}
