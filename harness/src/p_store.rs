//! A store other than the file-system store: values in memory, every call of
//! which can fail, be interrupted or move only part of the data (Z25), and its
//! listings (Z23).
use crate::some_or_return;
use crate::sym::*;
use crate::util::*;
use ndarray::Array;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::rc::Rc;
use zarr::chunk::{DataChunk, SliceDataChunk, VecDataChunk};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::EntryPointMetadata;

type Map = BTreeMap<String, Vec<u8>>;

/// What may still go wrong, and what has.
struct Trouble {
    left: Cell<u64>,
    hard: Cell<u64>,
    soft: Cell<u64>,
    kind: Cell<ErrorKind>,
    mix: Cell<bool>,
}
impl Trouble {
    /// 0: the call works; otherwise one of `n` troubles befalls it.
    fn here(&self, n: u64) -> u64 {
        if self.left.get() == 0 {
            return 0;
        }
        let t = choice("trouble", n + 1);
        if t > 0 {
            self.left.set(self.left.get() - 1);
        }
        t
    }
    fn fail(&self) -> Error {
        self.hard.set(self.hard.get() + 1);
        Error::from(self.kind.get())
    }
    fn call(&self) -> Result<()> {
        match self.here(1) {
            0 => Ok(()),
            _ => Err(self.fail()),
        }
    }
}
struct Mem {
    data: RefCell<Map>,
    entry: EntryPointMetadata,
    t: Rc<Trouble>,
}
struct MemReader {
    b: Vec<u8>,
    at: usize,
    t: Rc<Trouble>,
}
impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = self.b.len() - self.at;
        let mut n = buf.len().min(left);
        match self.t.here(if n > 1 { 3 } else { 2 }) {
            0 => (),
            1 => return Err(self.t.fail()),
            2 => {
                self.t.soft.set(1);
                return Err(Error::from(ErrorKind::Interrupted));
            }
            _ => n = 1,
        }
        buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
/// What has been written reaches the store when it is flushed.
struct MemWriter {
    held: Vec<u8>,
    out: Rc<RefCell<Vec<u8>>>,
    t: Rc<Trouble>,
}
impl Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut n = buf.len();
        match self.t.here(if n > 1 { 4 } else { 3 }) {
            0 => (),
            1 => return Err(self.t.fail()),
            2 => {
                self.t.soft.set(1);
                return Err(Error::from(ErrorKind::Interrupted));
            }
            3 => {
                if n > 0 {
                    self.t.hard.set(self.t.hard.get() + 1);
                }
                return Ok(0);
            }
            _ => n = 1,
        }
        self.held.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.t.call()?;
        self.out.borrow_mut().append(&mut self.held);
        Ok(())
    }
}
impl zarr::Hierarchy for Mem {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata {
        &self.entry
    }
}
impl ReadableStore for Mem {
    type GetReader = MemReader;
    fn exists(&self, key: &str) -> Result<bool> {
        self.t.call()?;
        Ok(self.data.borrow().contains_key(key))
    }
    fn get(&self, key: &str) -> Result<Option<MemReader>> {
        self.t.call()?;
        Ok(self.data.borrow().get(key).map(|b| MemReader { b: b.clone(), at: 0, t: self.t.clone() }))
    }
    fn uri(&self, key: &str) -> Result<String> {
        Ok(format!("mem:{}", key))
    }
}
impl WriteableStore for Mem {
    type SetWriter = MemWriter;
    fn set<F: FnOnce(MemWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
        self.t.call()?;
        let out = Rc::new(RefCell::new(vec![]));
        value(MemWriter { held: vec![], out: out.clone(), t: self.t.clone() })?;
        self.t.call()?;
        self.data.borrow_mut().insert(key.to_string(), out.borrow().clone());
        Ok(())
    }
    fn erase(&self, key: &str) -> Result<bool> {
        self.t.call()?;
        self.data.borrow_mut().remove(key);
        Ok(true)
    }
    fn erase_prefix(&self, prefix: &str) -> Result<bool> {
        self.t.call()?;
        let below = format!("{}/", prefix);
        self.data.borrow_mut().retain(|k, _| !k.starts_with(&below));
        Ok(true)
    }
}
impl ListableStore for Mem {
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>)> {
        self.t.call()?;
        let (mut keys, mut dirs): (Vec<String>, Vec<String>) = (vec![], vec![]);
        let data = self.data.borrow();
        for k in data.keys() {
            let (p, k) = (prefix, k.as_str());
            if let Some(r) = k.strip_prefix(p) {
                match r.find('/') {
                    None => keys.push(k.to_string()),
                    Some(i) => {
                        let d = format!("{}{}", p, &r[..=i]);
                        if dirs.last() != Some(&d) {
                            dirs.push(d);
                        }
                    }
                }
            }
        }
        if self.t.mix.get() {
            keys.reverse();
            dirs.extend(dirs.clone());
        }
        Ok((keys, dirs))
    }
}
fn mem() -> Mem {
    let t = Trouble { left: Cell::new(0), hard: Cell::new(0), soft: Cell::new(0), kind: Cell::new(ErrorKind::Other), mix: Cell::new(false) };
    Mem { data: Default::default(), entry: Default::default(), t: Rc::new(t) }
}
impl Mem {
    fn raw(&self, key: &str) -> Option<Vec<u8>> {
        self.data.borrow().get(key).cloned()
    }
    fn doc(&self, key: &str) -> Option<Value> {
        self.raw(key).and_then(|b| serde_json::from_slice(&b).ok())
    }
    /// All values but that of `key`.
    fn others(&self, key: &str) -> Map {
        let mut m = self.data.borrow().clone();
        m.remove(key);
        m
    }
    /// Runs an operation while `budget` calls of the store go wrong.
    fn troubled<R>(&self, budget: u64, what: &str, f: impl FnOnce() -> Result<R>) -> Option<Result<R>> {
        self.t.kind.set([ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData][choice("kind", 3) as usize]);
        self.t.left.set(budget);
        let r = no_panic(what, f);
        self.t.left.set(0);
        if let Some(Ok(_)) = &r {
            reach("done");
        } else if let Some(Err(_)) = &r {
            check(or(self.t.hard.get() > 0, self.t.soft.get() > 0), "an operation succeeds unless the store fails");
            reach("reported");
        }
        r
    }
}
fn same_map(a: &Map, b: &Map) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| and(r, and(x.0 == y.0, eq(x.1, y.1))))
}
fn chunk(at: &[u64], v: &[u16]) -> SliceDataChunk<u16, Vec<u16>> {
    SliceDataChunk::new(gc(at), v.to_vec())
}
const KEY: &str = "/data/root/a/c1/2";

fn setup(old: &[u16], compressed: bool) -> (Mem, ArrayMetadata) {
    let h = mem();
    let mut d = doc(&[4, 4], &[2, 1], json!("<u2"), "C", json!(9));
    d["attributes"] = json!({ "k": "old" });
    if compressed {
        d["compressor"] = json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {"level": 6}});
    }
    let m = meta_of(d);
    ok("an array is created", h.create_array("a", &m));
    ok("a group is created", h.create_group("g"));
    if !old.is_empty() {
        ok("a chunk is written", h.write_chunk("a", &m, &chunk(&[1, 2], old)));
    }
    ok("a chunk is written", h.write_chunk("a", &m, &chunk(&[0, 2], &[3, 4])));
    (h, m)
}

fn store_chunk(budget: u64, compressed: bool) {
    let stored = choice("stored", 2) == 1;
    let old: Vec<u16> = if stored { elems("old", 2) } else { vec![] };
    let (h, m) = setup(&old, compressed);
    let before = h.data.borrow().clone();
    match choice("op", 4) {
        0 => {
            let new: Vec<u16> = elems("new", 2);
            let r = some_or_return!(h.troubled(budget, "writing to a failing store does not panic", || h.write_chunk("a", &m, &chunk(&[1, 2], &new))));
            check(same_map(&before.iter().filter(|x| x.0 != KEY).map(|(k, v)| (k.clone(), v.clone())).collect(), &h.others(KEY)), "a failing chunk write changes no other value");
            if r.is_ok() {
                let c = some("a chunk whose write succeeded is there", ok("a chunk whose write succeeded is readable", h.read_chunk::<u16>("a", &m, gc(&[1, 2]))));
                check(eq(&le_all(c.get_data()), &le_all(&new)), "a chunk whose write succeeded is complete");
            }
        }
        1 => {
            let r = some_or_return!(h.troubled(budget, "reading from a failing store does not panic", || h.read_chunk::<u16>("a", &m, gc(&[1, 2]))));
            if let Ok(c) = r {
                check(c.is_some() == stored, "a read that succeeds tells whether a chunk is stored");
                if let Some(c) = c {
                    check(eq(&le_all(c.get_data()), &le_all(&old)), "a read that succeeds gives the stored elements");
                }
            }
        }
        2 => {
            let mut c = VecDataChunk::<u16>::new(gc(&[0, 0]), vec![5; choice("len", 4) as usize]);
            let r = some_or_return!(h.troubled(budget, "reading from a failing store does not panic", || h.read_chunk_into("a", &m, gc(&[1, 2]), &mut c)));
            if let Ok(c2) = r {
                check(c2.is_some() == stored, "a read that succeeds tells whether a chunk is stored");
                if c2.is_some() {
                    check(eq(&le_all(c.get_data()), &le_all(&old)), "a read that succeeds gives the stored elements");
                }
            }
        }
        _ => {
            let r = some_or_return!(h.troubled(budget, "deleting from a failing store does not panic", || h.delete_chunk("a", &m, &[1, 2])));
            check(same_map(&before.iter().filter(|x| x.0 != KEY).map(|(k, v)| (k.clone(), v.clone())).collect(), &h.others(KEY)), "a failing deletion changes no other value");
            if let Ok(true) = r {
                check(h.raw(KEY).is_none(), "a chunk whose deletion succeeded is gone");
            }
        }
    }
}
fn store_region(budget: u64) {
    let stored = choice("stored", 2) == 1;
    let old: Vec<u16> = if stored { elems("old", 2) } else { vec![] };
    let (h, m) = setup(&old, false);
    let cells = |h: &Mem| ok("a region is read", h.read_ndarray::<u16>("a", &m, &BoundingBox::new(gc(&[0, 0]), gc(&[4, 4]))));
    let was = cells(&h);
    // the lower half of chunk (0,2), the upper half of chunk (1,2)
    let bb = BoundingBox::new(gc(&[1, 2]), gc(&[2, 1]));
    if choice("op", 2) == 0 {
        let new: Vec<u16> = elems("new", 2);
        let a = Array::from_shape_vec((2, 1), new.clone()).unwrap().into_dyn();
        let r = some_or_return!(h.troubled(budget, "writing to a failing store does not panic", || h.write_ndarray("a", &m, gc(&[1, 2]), a.view())));
        let now = cells(&h);
        let (mut kept, mut done) = (true, true);
        for ((i, x), y) in was.indexed_iter().zip(now.iter()) {
            let at = (i[0], i[1]);
            if at == (1, 2) || at == (2, 2) {
                let w = eq(&(*y).le(), &new[at.0 - 1].le());
                done = and(done, w);
                kept = and(kept, or(w, eq(&(*x).le(), &(*y).le())));
            } else {
                kept = and(kept, eq(&(*x).le(), &(*y).le()));
            }
        }
        check(kept, "a failing region write leaves every other cell");
        if r.is_ok() {
            check(done, "a region whose write succeeded is complete");
        }
    } else {
        let r = some_or_return!(h.troubled(budget, "reading from a failing store does not panic", || h.read_ndarray::<u16>("a", &m, &bb)));
        if let Ok(v) = r {
            check(eq(&le_all(&[v[[0, 0]], v[[1, 0]]]), &le_all(&[was[[1, 2]], was[[2, 2]]])), "a region read that succeeds gives the stored elements");
        }
    }
}
fn store_meta(budget: u64) {
    let (h, m) = setup(&[], false);
    let before = h.data.borrow().clone();
    let kept = |key: &str| {
        let b: Map = before.iter().filter(|x| x.0 != key).map(|(k, v)| (k.clone(), v.clone())).collect();
        check(same_map(&b, &h.others(key)), "a failing operation changes no other value");
    };
    let set = |path: &str, key: &str| {
        let was = h.doc(key);
        let Some(r) = h.troubled(budget, "setting an attribute in a failing store does not panic", || h.set_attribute(path, "n".to_string(), 7)) else { return };
        kept(key);
        match (was, r) {
            (Some(mut d), Ok(())) => {
                d["attributes"]["n"] = json!(7);
                check(h.doc(key) == Some(d), "an attribute whose update succeeded is stored with the rest");
            }
            (None, Ok(())) => check(false, "attributes of a missing node are refused"),
            (w, Err(_)) => check(h.doc(key) == w, "a refused update leaves the metadata"),
        }
    };
    match choice("op", 8) {
        0 => set("a", "/meta/root/a.array.json"),
        1 => set("g", "/meta/root/g.group.json"),
        2 => {
            let at = ["n", "a/n", "g"][choice("at", 3) as usize];
            let key = format!("/meta/root/{}.group.json", at);
            let r = some_or_return!(h.troubled(budget, "creating a group in a failing store does not panic", || h.create_group(at)));
            kept(&key);
            if r.is_ok() {
                check(h.doc(&key).map_or(false, |d| d.is_object()), "a group whose creation succeeded is stored");
                ok("a created group is usable", h.set_attribute(at, "x".into(), 1));
            }
        }
        3 => {
            let at = ["n", "g/n"][choice("at", 2) as usize];
            let key = format!("/meta/root/{}.array.json", at);
            let r = some_or_return!(h.troubled(budget, "creating an array in a failing store does not panic", || h.create_array(at, &m)));
            kept(&key);
            if r.is_ok() {
                check(ok("a created array is readable", h.get_array_metadata(at)) == m, "an array whose creation succeeded is stored");
            }
        }
        4 => {
            let r = some_or_return!(h.troubled(budget, "reading metadata from a failing store does not panic", || h.get_array_metadata("a")));
            if let Ok(r) = r {
                check(r == m, "array metadata that is read is that stored");
            }
        }
        5 => {
            let (at, there) = [("a", json!({"k": "old"})), ("g", json!({}))][choice("at", 2) as usize].clone();
            let r = some_or_return!(h.troubled(budget, "reading attributes from a failing store does not panic", || h.list_attributes(at)));
            if let Ok(r) = r {
                check(Value::Object(r) == there, "attributes that are read are those stored");
            }
        }
        6 => {
            let (at, there, array) = [("a", true, true), ("g", true, false), ("n", false, false)][choice("at", 3) as usize];
            let r = some_or_return!(h.troubled(budget, "asking a failing store does not panic", || if choice("array", 2) == 1 {
                h.array_exists(at).map(|x| x == array)
            } else {
                HierarchyReader::exists(&h, at).map(|x| x == there)
            }));
            if let Ok(r) = r {
                check(r, "whether a node exists is told rightly or not at all");
            }
        }
        _ => {
            let at = ["a", "g"][choice("at", 2) as usize];
            let r = some_or_return!(h.troubled(budget, "removing from a failing store does not panic", || h.remove(at)));
            let mine = |k: &String| k.starts_with(&format!("/meta/root/{}.", at)) || k.starts_with(&format!("/data/root/{}/", at));
            let rest = |m: &Map| -> Map { m.iter().filter(|x| !mine(x.0)).map(|(k, v)| (k.clone(), v.clone())).collect() };
            check(same_map(&rest(&before), &rest(&h.data.borrow())), "a failing removal changes no other node");
            if r.is_ok() {
                check(!h.data.borrow().keys().any(|k| k.contains(&format!("root/{}.", at)) ), "a node whose removal succeeded has no metadata");
            }
        }
    }
}

/// Listings of a store that lists in its own order and may name a prefix twice.
fn store_list(n: u64, budget: u64) {
    const ALL: [&str; 9] = [
        "/zarr.json",
        "/meta/root/a.array.json",
        "/meta/root/a.group.json",
        "/meta/root/a/b.group.json",
        "/meta/root/a/c.d.array.json",
        "/meta/root/ab.array.json",
        "/meta/root/z/y/x.array.json",
        "/data/root/a/c0/0",
        "/data/root/ab/c0",
    ];
    let h = mem();
    let mut there = vec![];
    let mut from = 0;
    for _ in 0..n {
        let k = from + choice("key", ALL.len() as u64 + 1 - from as u64) as usize;
        if k == ALL.len() {
            break;
        }
        h.data.borrow_mut().insert(ALL[k].to_string(), vec![1]);
        there.push(ALL[k]);
        from = k + 1;
    }
    h.t.mix.set(choice("mix", 2) == 1);
    if choice("op", 2) == 0 {
        let p = ["", "/", "/meta/", "/meta/root/a", "/meta/root/a/", "/data/root/ab/", "/x"][choice("prefix", 7) as usize];
        let r = some_or_return!(h.troubled(budget, "listing a failing store does not panic", || if p.is_empty() { h.list() } else { h.list_prefix(p) }));
        if let Ok(mut r) = r {
            r.sort();
            if h.t.mix.get() {
                r.dedup();
            }
            let mut e: Vec<&str> = there.into_iter().filter(|k| k.starts_with(p)).collect();
            e.sort();
            check(r == e, "a listing has every key with the prefix and no other");
        }
    } else {
        let (at, p) = [("", "/meta/root/"), ("/", "/meta/root/"), ("a", "/meta/root/a/"), ("/z/", "/meta/root/z/"), ("ab", "/meta/root/ab/")][choice("node", 5) as usize];
        let r = some_or_return!(h.troubled(budget, "listing a failing store does not panic", || h.list_nodes(at)));
        if let Ok(r) = r {
            let mut e: Vec<String> = vec![];
            for k in there {
                let Some(x) = k.strip_prefix(p) else { continue };
                e.push(match x.split_once('/') {
                    Some((d, _)) => d.to_string(),
                    None => x.strip_suffix(".array.json").or(x.strip_suffix(".group.json")).unwrap().to_string(),
                });
            }
            e.sort();
            e.dedup();
            let mut r2 = r.clone();
            r2.sort();
            check(r2 == e, "a node's children are listed once each and no others are");
        }
    }
}
entries! {
/// Z23
h_store_list => { store_list(param(0), param(1)); }
/// Z25
h_store_chunk => { store_chunk(param(0), param(1) == 1); }
h_store_region => { store_region(param(0)); }
h_store_meta => { store_meta(param(0)); }
}
