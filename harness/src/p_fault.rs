//! Z25, Z26, Z27: failing storage, concurrent use, crashes.
use crate::some_or_return;
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Map, Value};
use ndarray::Array;
use zarr::chunk::{DataChunk, ReadableDataChunk, SliceDataChunk, VecDataChunk};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::storage::ListableStore;
use zarr::Hierarchy;

const READS: u64 = F_OPEN | F_READ | F_STAT | F_FLOCK | F_READDIR;
const WRITES: u64 = F_OPEN | F_WRITE | F_STAT | F_MKDIR | F_FLOCK | F_TRUNC | F_UNLINK;

fn small() -> ArrayMetadata {
    meta(&[4, 4], &[2, 1], "<u2", "C", json!(9))
}
fn chunk(at: &[u64], v: &[u16]) -> SliceDataChunk<u16, Vec<u16>> {
    SliceDataChunk::new(gc(at), v.to_vec())
}
fn doc_of(key: &str) -> Option<Value> {
    std::fs::read(format!("{}/{}", base(), key)).ok().and_then(|b| serde_json::from_slice(&b).ok())
}
/// A hierarchy with two arrays and a group; one chunk of "a" and one of "b".
fn setup(old: &[u16], other: &[u16]) -> (FilesystemHierarchy, ArrayMetadata) {
    let h = hier();
    let mut d = doc(&[4, 4], &[2, 1], json!("<u2"), "C", json!(9));
    d["attributes"] = json!({ "k": "old" });
    let m = meta_of(d);
    ok("an array is created", h.create_array("a", &m));
    ok("an array is created", h.create_array("b", &m));
    ok("a group is created", h.create_group("g"));
    ok("an attribute is set", h.set_attribute("g", "k".to_string(), "old"));
    if !old.is_empty() {
        ok("a chunk is written", h.write_chunk("a", &m, &chunk(&[1, 2], old)));
    }
    ok("a chunk is written", h.write_chunk("a", &m, &chunk(&[0, 2], other)));
    ok("a chunk is written", h.write_chunk("b", &m, &chunk(&[1, 2], other)));
    (h, m)
}
const KEY: &str = "data/root/a/c1/2";

// ---- Z25 ------------------------------------------------------------------------
/// Writing a chunk through failing storage.
fn fault_chunk(budget: u64, shorts: u64) {
    let old: Vec<u16> = if choice("stored", 2) == 1 { elems("old", 2) } else { vec![] };
    let other: Vec<u16> = elems("other", 2);
    let new: Vec<u16> = elems("new", 2);
    let (h, m) = setup(&old, &other);
    let s = snap();
    if shorts > 0 {
        short_writes(shorts);
    }
    fault(WRITES, budget);
    let r = no_panic("writing to failing storage does not panic", || h.write_chunk("a", &m, &chunk(&[1, 2], &new)));
    let fired = faults_fired();
    fault(0, 0);
    short_writes(0);
    let r = some_or_return!(r);
    check(same(s, KEY), "a failing chunk write changes no other value");
    if fired == 0 {
        ok("a chunk write succeeds unless the storage fails", r);
        reach("nofault");
    } else {
        reach("fault");
        if r.is_err() {
            reach("reported");
            return;
        }
    }
    let t = ok("a chunk whose write succeeded is readable", h.read_chunk::<u16>("a", &m, gc(&[1, 2])));
    let t = some("a chunk whose write succeeded is there", t);
    check(eq(&le_all(t.get_data()), &le_all(&new)), "a chunk whose write succeeded is complete");
}
/// Writing a chunk of more bytes than are buffered.
fn fault_long(n: usize) {
    let h = hier();
    let m = meta(&[n as u64], &[n as u32 as u64], "u1", "C", Value::Null);
    let mut new = vec![7u8; n];
    let v = bytes("v", 4);
    new[0] = v[0];
    new[n / 2] = v[1];
    new[n - 2] = v[2];
    new[n - 1] = v[3];
    short_writes(choice("short", 3));
    fault(F_WRITE, 1);
    let r = no_panic("writing to failing storage does not panic", || h.write_chunk("a", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), new.clone())));
    let fired = faults_fired();
    fault(0, 0);
    short_writes(0);
    let r = some_or_return!(r);
    if fired > 0 {
        check(r.is_err(), "a failing write is reported");
        reach("fault");
    } else {
        ok("a chunk write succeeds unless the storage fails", r);
        let t = some("a chunk whose write succeeded is there", ok("a chunk whose write succeeded is readable", h.read_chunk::<u8>("a", &m, gc(&[0]))));
        check(eq(t.get_data(), &new), "a chunk whose write succeeded is complete");
        reach("nofault");
    }
}
/// Creating nodes and setting attributes through failing storage.
fn fault_meta(budget: u64, shorts: u64) {
    let other: Vec<u16> = elems("other", 2);
    let (h, m) = setup(&[], &other);
    let v = json!(var("v", 8, 0, 100));
    let s = snap();
    let op = choice("op", 8);
    let mask = if choice("mask", 2) == 0 { READS } else { WRITES | READS };
    let (key, node) = match op {
        0 => ("meta/root/x/n.array.json", "x/n"),
        1 => ("meta/root/x/n.group.json", "x/n"),
        2 | 3 => ("meta/root/a.array.json", "a"),
        4 => ("meta/root/g.group.json", "g"),
        5 => ("meta/root/a.array.json", "a"),
        6 => ("meta/root/g.group.json", "g"),
        _ => ("meta/root/none.group.json", "none"),
    };
    if shorts > 0 {
        short_writes(shorts);
    }
    let mut attrs = Map::new();
    attrs.insert("j".to_string(), v.clone());
    fault(mask, budget);
    let r = no_panic("an update of failing storage does not panic", || match op {
        0 => h.create_array(node, &m),
        1 => h.create_group(node),
        2 => h.set_attribute(node, "k".to_string(), &v),
        3 => h.set_attributes(node, attrs.clone()),
        4 => h.set_attribute(node, "j".to_string(), &v),
        5 => h.create_array(node, &m),
        6 => h.create_array(node, &m),
        _ => h.set_attribute(node, "k".to_string(), &v),
    });
    let fired = faults_fired();
    fault(0, 0);
    short_writes(0);
    let r = some_or_return!(r);
    check(same(s, key), "a failing update changes no other value");
    reach(if fired > 0 { "fault" } else { "nofault" });
    match r {
        Err(e) => {
            if op >= 5 {
                check(same(s, ""), "a refused update changes nothing");
                if fired == 0 {
                    check(e.kind() == if op == 7 { std::io::ErrorKind::NotFound } else { std::io::ErrorKind::AlreadyExists }, "a refused update says why");
                }
            } else {
                check(fired > 0, "an update succeeds unless the storage fails");
                reach("reported");
            }
        }
        Ok(()) => {
            check(op < 5, "storage failures do not make a refused update succeed");
            let at = match op {
                0 | 1 => None,
                _ => Some(ok("attributes are listed", h.list_attributes(node))),
            };
            match op {
                0 => check(ok("a created array is readable", h.get_array_metadata(node)) == m, "an array whose creation succeeded is complete"),
                1 => {
                    check(ok("a node can be tested for", HierarchyReader::exists(&h, node)), "a group whose creation succeeded exists");
                    check(ok("attributes are listed", h.list_attributes(node)).is_empty(), "a group whose creation succeeded is complete");
                }
                2 => check(at == json!({ "k": v }).as_object().cloned(), "an attribute whose setting succeeded is stored"),
                _ => check(at == json!({ "k": "old", "j": v }).as_object().cloned(), "an attribute whose setting succeeded is stored"),
            }
            if op == 2 || op == 3 {
                let mut g = doc_of("meta/root/a.array.json").unwrap_or_default();
                g["attributes"] = json!({ "k": "old" });
                check(Some(g) == doc_of("meta/root/b.array.json"), "setting an attribute keeps the rest of the metadata");
            }
        }
    }
}
/// Reading through failing storage.
fn fault_read(budget: u64) {
    let old: Vec<u16> = elems("old", 2);
    let other: Vec<u16> = elems("other", 2);
    let (h, m) = setup(&old, &other);
    let s = snap();
    let op = choice("op", 13);
    let bx = |o: [u64; 2], n: [u64; 2]| BoundingBox::new(gc(&o), gc(&n));
    let mut buf = VecDataChunk::<u16>::new(gc(&[0, 0]), vec![1, 2, 3]);
    fault(READS, budget);
    // Some(true): the right answer; Some(false): a wrong one
    let r = no_panic("reading failing storage does not panic", || -> Option<bool> {
        match op {
            0 => h.read_chunk::<u16>("a", &m, gc(&[1, 2])).ok().map(|c| c.map_or(false, |c| eq(&le_all(c.get_data()), &le_all(&old)))),
            1 => h.read_chunk_into::<u16, _>("a", &m, gc(&[1, 2]), &mut buf).ok().map(|c| c.is_some() && eq(&le_all(buf.get_data()), &le_all(&old))),
            2 => h.read_chunk::<u16>("a", &m, gc(&[1, 1])).ok().map(|c| c.is_none()),
            3 => h.read_ndarray::<u16>("a", &m, &bx([1, 1], [3, 2])).ok().map(|a| {
                let want = [9, 9, 9, other[1], old[0], old[1]];
                // cells (1,1) (2,1) (3,1), then (1,2) (2,2) (3,2)
                let got = [a[[0, 0]], a[[1, 0]], a[[2, 0]], a[[0, 1]], a[[1, 1]], a[[2, 1]]];
                eq(&le_all(&got), &le_all(&want))
            }),
            4 => h.get_array_metadata("a").ok().map(|g| g == m),
            5 => h.array_exists("a").ok(),
            6 => h.array_exists("g").ok().map(|x| !x),
            7 => HierarchyReader::exists(&h, "g").ok(),
            8 => HierarchyReader::exists(&h, "none").ok().map(|x| !x),
            9 => h.list_attributes("g").ok().map(|a| a.get("k") == Some(&json!("old")) && a.len() == 1),
            10 => h.list_nodes("").ok().map(|l| l == ["a", "b", "g"]),
            11 => ListableStore::list_prefix(&h, "/data/").ok().map(|mut l| {
                l.sort();
                l == ["/data/root/a/c0/2", "/data/root/a/c1/2", "/data/root/b/c1/2"]
            }),
            _ => FilesystemHierarchy::open(base()).ok().map(|h| serde_json::to_value(h.get_entry_point_metadata()).map_or(false, |v| v["metadata_key_suffix"] == ".json")),
        }
    });
    let fired = faults_fired();
    fault(0, 0);
    let r = some_or_return!(r);
    check(r != Some(false), "a read during which the storage fails yields an error, not other data");
    if fired == 0 {
        check(r.is_some(), "a read succeeds unless the storage fails");
        reach("nofault");
    } else {
        reach("fault");
    }
    check(same(s, ""), "reading changes nothing");
}
/// Opening and creating hierarchies in failing storage.
fn fault_open(budget: u64, shorts: u64) {
    let there = choice("there", 3);
    if there == 1 {
        hier();
    } else if there == 2 {
        ok("directory", std::fs::create_dir_all(base()));
    }
    let before = doc_of("zarr.json");
    let s = if there > 0 { Some(snap()) } else { None };
    if shorts > 0 {
        short_writes(shorts);
    }
    fault(WRITES | READS, budget);
    let r = no_panic("opening failing storage does not panic", || FilesystemHierarchy::open_or_create(base()).map(|_| ()));
    let fired = faults_fired();
    fault(0, 0);
    short_writes(0);
    let r = some_or_return!(r);
    if there == 1 {
        check(s.map_or(true, |s| same(s, "")) && doc_of("zarr.json") == before, "a failing opening leaves an existing hierarchy alone");
    }
    if r.is_ok() {
        let h = ok("an opened hierarchy can be opened again", FilesystemHierarchy::open(base()));
        check(ok("a hierarchy has a version", h.get_version()).matches(&zarr::VERSION), "a created hierarchy is complete");
    } else {
        check(fired > 0, "a hierarchy opens unless the storage fails");
        reach("reported");
    }
    reach(if fired > 0 { "fault" } else { "nofault" });
}
/// Removing through failing storage.
fn fault_remove(budget: u64) {
    let h = hier();
    let m = small();
    for p in ["a", "a/b", "ab"] {
        ok("an array is created", h.create_array(p, &m));
        ok("a chunk is written", h.write_chunk(p, &m, &chunk(&[1, 2], &[1, 2])));
    }
    let s = snap();
    fault(READS | F_UNLINK, budget);
    let r = no_panic("removing from failing storage does not panic", || h.remove("a"));
    let fired = faults_fired();
    fault(0, 0);
    let r = some_or_return!(r);
    check(same(s, "meta/root/a.array.json\nmeta/root/a\ndata/root/a"), "a failing removal changes no other node");
    if r.is_ok() {
        for p in ["a", "a/b"] {
            check(!ok("a node can be tested for", HierarchyReader::exists(&h, p)), "a removal that succeeded removed the node");
            check(ok("a chunk can be looked up", h.read_chunk::<u16>(p, &m, gc(&[1, 2]))).is_none(), "a removal that succeeded removed the chunks");
        }
    } else {
        check(fired > 0, "a removal succeeds unless the storage fails");
        reach("reported");
    }
    reach(if fired > 0 { "fault" } else { "nofault" });
}
/// Writing a region through failing storage.
fn fault_region(budget: u64, writes: bool) {
    let h = hier();
    let m = meta(&[5], &[2], "u1", "C", json!(9));
    let mut cells: Vec<u8> = vec![9; 6];
    for i in 0..3 {
        if choice(&format!("stored{}", i), 2) == 1 {
            let v = bytes(&format!("v{}", i), 2);
            ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[i]), v.clone())));
            cells[2 * i as usize..][..2].copy_from_slice(&v);
        }
    }
    let at = choice("at", 2);
    let n = 3;
    let new = bytes("new", n);
    let a = Array::from_shape_vec(vec![n], new.clone());
    let a = ok("a block is built", a.map_err(|_| ())).into_dyn();
    let mask = if writes { WRITES | READS } else { F_READ | F_FLOCK };
    fault(mask, budget);
    let r = no_panic("writing a region to failing storage does not panic", || h.write_ndarray("a", &m, gc(&[at]), &a));
    let fired = faults_fired();
    fault(0, 0);
    let r = some_or_return!(r);
    if let Ok(()) = r {
        cells[at as usize..][..n].copy_from_slice(&new);
        let g = ok("the array is readable", h.read_ndarray::<u8>("a", &m, &BoundingBox::new(gc(&[0]), gc(&[5]))));
        let g: Vec<u8> = g.iter().cloned().collect();
        check(eq(&g, &cells[..5]), "after a region write that succeeded, exactly its cells have changed");
    } else {
        check(fired > 0, "a region write succeeds unless the storage fails");
        // no chunk holds anything that was neither stored nor written
        for i in 0..3u64 {
            if let Ok(Some(c)) = h.read_chunk::<u8>("a", &m, gc(&[i])) {
                for j in 0..2usize {
                    let p = 2 * i as usize + j;
                    let x = c.get_data()[j];
                    let inside = p >= at as usize && p < at as usize + n;
                    let good = if inside { or(x == cells[p], x == new[p - at as usize]) } else { x == cells[p] };
                    check(good, "a region write that failed stores nothing but the old and new cells");
                }
            }
        }
        reach("reported");
    }
    reach(if fired > 0 { "fault" } else { "nofault" });
}

// ---- Z26 ------------------------------------------------------------------------
/// What a concurrent operation came to: nothing yet, or its result; a read
/// gives the chunk it found.
type Slot = Option<Result<Option<Vec<u8>>, ()>>;
fn slot() -> *mut Slot {
    Box::into_raw(Box::new(None))
}
/// Runs one operation on chunk (1,2) of array "a" in its own thread.
fn start(h: &'static FilesystemHierarchy, m: &'static ArrayMetadata, op: u64, v: Vec<u16>) -> *mut Slot {
    let out = slot();
    spawn(move || {
        let r = no_panic("concurrent operations do not panic", || match op {
            0 => h.read_chunk::<u16>("a", m, gc(&[1, 2])).map(|c| c.map(|c| le_all(c.get_data()))).map_err(|_| ()),
            1 => h.write_chunk("a", m, &chunk(&[1, 2], &v)).map(|_| None).map_err(|_| ()),
            2 => h.delete_chunk("a", m, &[1, 2]).map(|_| None).map_err(|_| ()),
            3 => {
                let mut b = VecDataChunk::<u16>::new(gc(&[0, 0]), vec![1, 2, 3]);
                h.read_chunk_into::<u16, _>("a", m, gc(&[1, 2]), &mut b).map(|c| c.map(|_| le_all(b.get_data()))).map_err(|_| ())
            }
            _ => h.read_ndarray::<u16>("a", m, &BoundingBox::new(gc(&[2, 2]), gc(&[2, 1]))).map(|a| Some(le_all(&a.iter().cloned().collect::<Vec<u16>>()))).map_err(|_| ()),
        });
        unsafe { *out = r };
    });
    out
}
fn concurrent(ops: &[u64], preemptions: u64, shorts: u64, short_rds: u64) {
    let stored = choice("stored", 2) == 1;
    let old: Vec<u16> = if stored { elems("old", 2) } else { vec![] };
    let other: Vec<u16> = elems("other", 2);
    let (h, m) = setup(&old, &other);
    let h: &'static FilesystemHierarchy = Box::leak(Box::new(h));
    let m: &'static ArrayMetadata = Box::leak(Box::new(m));
    let h2: &'static FilesystemHierarchy = Box::leak(Box::new(ok("the hierarchy opens", FilesystemHierarchy::open(base()))));
    let new: Vec<Vec<u16>> = (0..ops.len()).map(|i| if ops[i] == 1 { elems(&format!("new{}", i), 2) } else { vec![] }).collect();
    let s = snap();
    short_writes(shorts);
    short_reads(short_rds);
    let mut slots: Vec<*mut Slot> = ops.iter().enumerate().map(|(i, &op)| start(if i % 2 == 0 { h } else { h2 }, m, op, new[i].clone())).collect();
    join(preemptions);
    short_writes(0);
    short_reads(0);
    check(same(s, KEY), "concurrent operations on one chunk leave every other value alone");
    let fill = le_all(&[9u16, 9]);
    // a value some write stored
    let known = |b: &[u8]| {
        let mut g = if stored { eq(b, &le_all(&old)) } else { false };
        for (i, &op) in ops.iter().enumerate() {
            if op == 1 {
                g = or(g, eq(b, &le_all(&new[i])));
            }
        }
        g
    };
    let mut wrote = false;
    let mut all_wrote = true;
    for (i, &op) in ops.iter().enumerate() {
        let r = unsafe { (*slots[i]).take() };
        let r = some("every concurrent operation comes to an end", r);
        if op == 1 {
            wrote |= r.is_ok();
            all_wrote &= r.is_ok();
        }
        if let (Ok(Some(b)), true) = (&r, op == 0 || op >= 3) {
            check(b.len() == 4, "a concurrent read returns a whole chunk");
            let good = known(b);
            check(if op == 4 { or(good, eq(b, &fill)) } else { good }, "a concurrent read returns a complete value that some write stored");
            reach("read");
        }
        if op == 1 || op == 2 {
            // nothing fails here: the lock makes every writer wait its turn
            if op == 1 {
                check(r.is_ok(), "a concurrent write succeeds");
            }
        }
    }
    // afterwards
    let deleted = ops.contains(&2);
    match h.read_chunk::<u16>("a", m, gc(&[1, 2])) {
        Err(_) => check(false, "after concurrent operations the chunk is readable"),
        Ok(None) => check(deleted || (!stored && !wrote), "a chunk that was written and not deleted is there"),
        Ok(Some(c)) => {
            let b = le_all(c.get_data());
            if wrote && all_wrote && !deleted {
                let mut g = false;
                for (i, &op) in ops.iter().enumerate() {
                    if op == 1 {
                        g = or(g, eq(&b, &le_all(&new[i])));
                    }
                }
                check(g, "after concurrent writes the chunk holds what one of them wrote");
            } else {
                check(known(&b), "after concurrent operations the chunk holds a value that was written");
                check(wrote || !deleted, "a deleted chunk does not come back");
            }
            reach("there");
        }
    }
    reach("done");
}
/// Concurrent operations on different chunks and nodes.
fn concurrent_apart(preemptions: u64) {
    let old: Vec<u16> = elems("old", 2);
    let other: Vec<u16> = elems("other", 2);
    let stored = choice("stored", 2) == 1;
    let (h, m) = setup(if stored { &old } else { &[] }, &other);
    let h: &'static FilesystemHierarchy = Box::leak(Box::new(h));
    let m: &'static ArrayMetadata = Box::leak(Box::new(m));
    let new: Vec<u16> = elems("new", 2);
    let a = start(h, m, [1, 2][choice("first", 2) as usize], new.clone());
    let out = slot();
    let k = choice("second", 9);
    let v = elems::<u16>("v", 2);
    let w = v.clone();
    let other2 = other.clone();
    spawn(move || {
        let r = no_panic("concurrent operations do not panic", || match k {
            0 => h.write_chunk("a", m, &chunk(&[1, 1], &w)).map_err(|_| ()),
            1 => h.write_chunk("a/n", m, &chunk(&[1, 2], &w)).map_err(|_| ()),
            2 => h.create_array("a/n", m).map_err(|_| ()),
            3 => h.set_attribute("a", "k".to_string(), "new").map_err(|_| ()),
            4 => h.remove("b").map_err(|_| ()),
            5 => h.create_group("x/y").map_err(|_| ()),
            6 => h.write_ndarray("a", m, gc(&[1, 3]), &Array::from_shape_vec(vec![2, 1], w).unwrap().into_dyn()).map_err(|_| ()),
            7 => h.read_ndarray::<u16>("a", m, &BoundingBox::new(gc(&[0, 2]), gc(&[2, 2]))).map_err(|_| ()).and_then(|r| {
                if eq(&le_all(&[r[[0, 0]], r[[1, 0]], r[[0, 1]], r[[1, 1]]]), &le_all(&[other2[0], other2[1], 9, 9])) { Ok(()) } else { Err(()) }
            }),
            _ => h.delete_chunk("a", m, &[0, 2]).map(|_| ()).map_err(|_| ()),
        });
        unsafe { *out = r.map(|r| r.map(|_| None)) };
    });
    join(preemptions);
    let ra = some("every concurrent operation comes to an end", unsafe { (*a).take() });
    let rb = some("every concurrent operation comes to an end", unsafe { (*out).take() });
    check(ra.is_ok() && rb.is_ok(), "operations on different values do not make each other fail");
    let get = |p: &str, at: [u64; 2]| ok("a chunk is readable", h.read_chunk::<u16>(p, m, gc(&at))).map(|c| le_all(c.get_data()));
    match get("a", [1, 2]) {
        Some(b) => check(eq(&b, &le_all(&new)), "an operation on another value leaves a chunk alone"),
        None => reach("deleted"),
    }
    let cell = |x: u64, y: u64| ok("a region is readable", h.read_ndarray::<u16>("a", m, &BoundingBox::new(gc(&[x, y]), gc(&[1, 1]))))[[0, 0]];
    match k {
        0 => check(get("a", [1, 1]).map_or(false, |b| eq(&b, &le_all(&v))), "a chunk written next to another holds its value"),
        1 => check(get("a/n", [1, 2]).map_or(false, |b| eq(&b, &le_all(&v))), "a chunk written next to another holds its value"),
        2 => check(ok("array metadata is read", h.get_array_metadata("a/n")) == *m, "an array created next to a write is complete"),
        3 => check(ok("attributes are listed", h.list_attributes("a")).get("k") == Some(&json!("new")), "an attribute set next to a write is stored"),
        4 => check(get("b", [1, 2]).is_none() && !ok("a node can be tested for", HierarchyReader::exists(h, "b")), "a node removed next to a write is gone"),
        5 => check(ok("a node can be tested for", HierarchyReader::exists(h, "x/y")), "a group created next to a write exists"),
        6 => check(and(cell(1, 3) == v[0], cell(2, 3) == v[1]), "a region written next to a chunk holds its values"),
        7 => {}
        _ => check(get("a", [0, 2]).is_none(), "a chunk deleted next to a write is gone"),
    }
    if k != 8 {
        check(get("a", [0, 2]).map_or(false, |b| eq(&b, &le_all(&other))), "operations leave other chunks alone");
    }
    reach("apart");
}

/// Concurrent operations on a chunk of more bytes than are read or written at once.
fn concurrent_long(n: usize, second: u64, preemptions: u64) {
    let h = hier();
    let m = meta(&[n as u64], &[n as u64], "u1", "C", Value::Null);
    ok("an array is created", h.create_array("a", &m));
    let make = |name: &str| {
        let v = bytes(name, 4);
        let mut b = vec![7u8; n];
        b[0] = v[0];
        b[n / 2] = v[1];
        b[n - 2] = v[2];
        b[n - 1] = v[3];
        b
    };
    let old = make("old");
    let new = make("new");
    let new2 = if second == 1 { make("new2") } else { vec![] };
    let h: &'static FilesystemHierarchy = Box::leak(Box::new(h));
    let m: &'static ArrayMetadata = Box::leak(Box::new(m));
    ok("a chunk is written", h.write_chunk("a", m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), old.clone())));
    let (a, b) = (slot(), slot());
    let w = new.clone();
    spawn(move || {
        let r = no_panic("concurrent operations do not panic", || h.write_chunk("a", m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), w)).map(|_| None).map_err(|_| ()));
        unsafe { *a = r };
    });
    let w = new2.clone();
    spawn(move || {
        let r = no_panic("concurrent operations do not panic", || match second {
            1 => h.write_chunk("a", m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), w)).map(|_| None).map_err(|_| ()),
            _ => h.read_chunk::<u8>("a", m, gc(&[0])).map(|c| c.map(|c| c.get_data().to_vec())).map_err(|_| ()),
        });
        unsafe { *b = r };
    });
    join(preemptions);
    let ra = some("every concurrent operation comes to an end", unsafe { (*a).take() });
    let rb = some("every concurrent operation comes to an end", unsafe { (*b).take() });
    check(ra.is_ok(), "a concurrent write succeeds");
    if second == 1 {
        check(rb.is_ok(), "a concurrent write succeeds");
    } else if let Ok(Some(b)) = &rb {
        check(or(eq(b, &old), eq(b, &new)), "a concurrent read returns a complete value that some write stored");
        reach("read");
    }
    let t = some("a chunk that was written is there", ok("after concurrent operations the chunk is readable", h.read_chunk::<u8>("a", m, gc(&[0]))));
    let t = t.get_data();
    check(if second == 1 { or(eq(t, &new), eq(t, &new2)) } else { eq(t, &new) }, "after concurrent writes the chunk holds what one of them wrote");
    reach("done");
}

// ---- Z27 ------------------------------------------------------------------------
fn crash_op(shorts: u64) {
    let stored = choice("stored", 2) == 1;
    let old: Vec<u16> = if stored { elems("old", 2) } else { vec![] };
    let other: Vec<u16> = elems("other", 2);
    let new: Vec<u16> = elems("new", 2);
    let (h, m) = setup(&old, &other);
    let v = json!(var("v", 8, 0, 100));
    let s = snap();
    let op = choice("op", 8);
    if shorts > 0 {
        short_writes(shorts);
    }
    crash(1);
    let mut died = false;
    let r = no_panic("an operation does not panic", || died = crashable(|| {
        let r = match op {
            0 => h.write_chunk("a", &m, &chunk(&[1, 2], &new)).is_ok(),
            1 => h.delete_chunk("a", &m, &[1, 2]).is_ok(),
            2 => h.set_attribute("a", "k".to_string(), &v).is_ok(),
            3 => h.set_attribute("g", "j".to_string(), &v).is_ok(),
            4 => h.create_array("n/n", &m).is_ok(),
            5 => h.create_group("n/n").is_ok(),
            6 => h.write_chunk("n/n", &m, &chunk(&[0, 0], &new)).is_ok(),
            _ => h.remove("b").is_ok(),
        };
        check(r, "an operation that is not interrupted succeeds");
    }));
    some_or_return!(r);
    crash(0);
    short_writes(0);
    let own = match op {
        0 | 1 => KEY,
        2 => "meta/root/a.array.json",
        3 => "meta/root/g.group.json",
        4 => "meta/root/n/n.array.json",
        5 => "meta/root/n/n.group.json",
        6 => "data/root/n/n/c0/0",
        _ => "data/root/b\nmeta/root/b.array.json",
    };
    check(same(s, own), "a crash leaves every other value as it was");
    let h = ok("a hierarchy opens after a crash", FilesystemHierarchy::open(base()));
    ok("a hierarchy opens after a crash", FilesystemHierarchy::open_or_create(base()).map(|_| ()));
    check(same(s, own), "opening after a crash changes nothing");
    let get = |p: &str, at: [u64; 2]| some_or_none(no_panic("reading after a crash does not panic", || h.read_chunk::<u16>(p, &m, gc(&at)).map(|c| c.map(|c| le_all(c.get_data())))));
    // the other chunks, and the chunk that was being written
    for (p, at) in [("a", [0u64, 2u64]), ("b", [1, 2])] {
        if op == 7 && p == "b" {
            continue;
        }
        let b = get(p, at).and_then(|r| r.ok()).flatten();
        check(b.map_or(false, |b| eq(&b, &le_all(&other))), "a crash leaves every other chunk readable");
    }
    let (p, at, was): (&str, [u64; 2], bool) = if op == 6 { ("n/n", [0, 0], false) } else { ("a", [1, 2], stored) };
    match get(p, at) {
        None | Some(Err(_)) => check(died && (op == 0 || op == 6), "only an interrupted chunk write leaves a chunk unreadable"),
        Some(Ok(None)) => check(if died { op == 0 || op == 1 || !was } else { op == 1 || (op != 0 && op != 6 && !was) }, "a crash loses no chunk but the one that was being written or deleted"),
        Some(Ok(Some(b))) => {
            check(b.len() == 4, "after a crash a chunk is whole");
            let writes = op == 0 || op == 6;
            let is_old = if was { eq(&b, &le_all(&old)) } else { false };
            let is_new = eq(&b, &le_all(&new));
            if writes && died {
                check(or(is_old, is_new), "after a crash a chunk is the old or the new one");
            } else if writes {
                check(is_new, "a chunk write that was not interrupted is stored");
            } else {
                check(is_old, "a crash leaves every other chunk as it was");
            }
        }
    }
    // attributes and metadata of the nodes that were not being written
    if op != 2 {
        check(ok("array metadata is read", h.get_array_metadata("a")) == m, "a crash leaves every other node as it was");
        check(ok("attributes are listed", h.list_attributes("a")).get("k") == Some(&json!("old")), "a crash leaves every other node's attributes as they were");
    }
    if op == 7 {
        // what is left of the removed node is whole, and it can be removed again
        if let Ok(g) = h.get_array_metadata("b") {
            check(died && g == m, "after a crash a node being removed is whole or gone");
        }
        if let Some(Ok(Some(b))) = get("b", [1, 2]) {
            check(died && eq(&b, &le_all(&other)), "after a crash a chunk of a node being removed is whole or gone");
        }
        ok("an interrupted removal can be completed", h.remove("b"));
        check(!ok("a node can be tested for", HierarchyReader::exists(&h, "b")), "a completed removal removes the node");
        check(same(s, own), "a completed removal leaves every other value as it was");
    } else {
        check(ok("array metadata is read", h.get_array_metadata("b")) == m, "a crash leaves every other node as it was");
    }
    if op != 3 {
        check(ok("attributes are listed", h.list_attributes("g")).get("k") == Some(&json!("old")), "a crash leaves every other node's attributes as they were");
    }
    some_or_return!(no_panic("using a hierarchy after a crash does not panic", || {
        let l = h.list_nodes("");
        let mut l = ok("nodes are listed after a crash", l);
        l.retain(|n| n != "n" && (op != 7 || n != "b"));
        check(if op == 7 { l == ["a", "g"] } else { l == ["a", "b", "g"] }, "after a crash the other nodes are listed");
        let r = h.list_attributes(["a", "g", "n/n"][(op as usize).max(2).min(4) - 2]);
        if let (Ok(r), true) = (&r, op == 2 || op == 3) {
            // what can be read is one of the two states
            let k = r.get(if op == 2 { "k" } else { "j" }).cloned();
            check(k == Some(v.clone()) || k == if op == 2 { Some(json!("old")) } else { None }, "after a crash attributes are the old or the new ones");
            check(died || k == Some(v.clone()), "an update that was not interrupted is stored");
        } else {
            check(died || op != 2 && op != 3, "an update that was not interrupted is readable");
        }
        let _ = h.get_array_metadata("n/n");
        let _ = h.array_exists("n/n");
    }));
    // the interrupted operation can be done again
    if op == 0 || op == 6 {
        let p = if op == 0 { "a" } else { "n/n" };
        let at = if op == 0 { [1, 2] } else { [0, 0] };
        ok("a chunk can be written after a crash", h.write_chunk(p, &m, &chunk(&at, &new)));
        let b = get(p, at).and_then(|r| r.ok()).flatten();
        check(b.map_or(false, |b| eq(&b, &le_all(&new))), "a chunk written after a crash is read back");
    }
    reach(if died { "died" } else { "survived" });
}
fn some_or_none<R>(r: Option<R>) -> Option<R> {
    r
}
/// A crash while a region is written: chunk by chunk.
fn crash_region() {
    let h = hier();
    let m = meta(&[5], &[2], "u1", "C", json!(9));
    let mut cells: Vec<u8> = vec![9; 6];
    let mut stored = [false; 3];
    for i in 0..3 {
        if choice(&format!("stored{}", i), 2) == 1 {
            let v = bytes(&format!("v{}", i), 2);
            ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[i]), v.clone())));
            cells[2 * i as usize..][..2].copy_from_slice(&v);
            stored[i as usize] = true;
        }
    }
    let at = choice("at", 3);
    let n = 2;
    let new = bytes("new", n);
    let a = ok("a block is built", Array::from_shape_vec(vec![n], new.clone()).map_err(|_| ())).into_dyn();
    crash(1);
    let mut died = false;
    let r = no_panic("an operation does not panic", || died = crashable(|| {
        check(h.write_ndarray("a", &m, gc(&[at]), &a).is_ok(), "an operation that is not interrupted succeeds");
    }));
    some_or_return!(r);
    crash(0);
    let h = ok("a hierarchy opens after a crash", FilesystemHierarchy::open(base()));
    let mut bad = 0;
    for i in 0..3u64 {
        let hit = at < 2 * i + 2 && at + n as u64 > 2 * i;
        match some_or_return!(no_panic("reading after a crash does not panic", || h.read_chunk::<u8>("a", &m, gc(&[i])))) {
            Ok(Some(c)) => {
                check(stored[i as usize] || hit, "a crash makes no chunk appear");
                // every chunk is wholly old or wholly new
                let mut is_old = true;
                let mut is_new = true;
                for j in 0..2usize {
                    let p = 2 * i as usize + j;
                    let x = c.get_data()[j];
                    is_old = and(is_old, x == cells[p]);
                    let inside = p >= at as usize && p < at as usize + n;
                    is_new = and(is_new, x == if inside { new[p - at as usize] } else { cells[p] });
                }
                check(if hit && died { or(is_old, is_new) } else if hit { is_new } else { is_old }, "after a crash every chunk is the old or the new one");
            }
            Ok(None) => check(!stored[i as usize] && (died || !hit), "a crash loses no chunk"),
            Err(_) => {
                check(died && hit, "a crash leaves every other chunk readable");
                bad += 1;
            }
        }
    }
    check(bad < 2, "a crash damages at most one chunk");
    reach(if died { "died" } else { "survived" });
}

entries! {
/// Z25
h_fault_chunk => { fault_chunk(param(0), param(1)); }
h_fault_long => { fault_long(param(0) as usize); }
h_fault_meta => { fault_meta(param(0), param(1)); }
h_fault_read => { fault_read(param(0)); }
h_fault_open => { fault_open(param(0), param(1)); }
h_fault_remove => { fault_remove(param(0)); }
h_fault_region => { fault_region(param(0), param(1) == 1); }
/// Z26: the operations, one digit each (least significant first), preemptions, short writes
h_concurrent => {
    let mut ops = vec![];
    let mut x = param(0);
    while x > 0 {
        ops.push(x % 10 - 1);
        x /= 10;
    }
    concurrent(&ops, param(1), param(2), param(3));
}
h_concurrent_apart => { concurrent_apart(param(0)); }
h_concurrent_long => { concurrent_long(param(0) as usize, param(1), param(2)); }
/// Z27
h_crash_op => { crash_op(param(0)); }
h_crash_region => { crash_region(); }
}
