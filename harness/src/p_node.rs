//! Z16, Z17, Z18, Z21, Z22, Z23: nodes, attributes and hierarchies.
use crate::some_or_return;
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::io::ErrorKind;
use zarr::chunk::{DataChunk, SliceDataChunk};
use zarr::prelude::*;
use zarr::Hierarchy;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

fn node_exists(h: &FilesystemHierarchy, p: &str) -> bool {
    ok("asking whether a node exists succeeds", HierarchyReader::exists(h, p))
}
fn array_exists(h: &FilesystemHierarchy, p: &str) -> bool {
    ok("asking whether an array exists succeeds", h.array_exists(p))
}
fn kind_of<R>(r: &std::io::Result<R>) -> Option<ErrorKind> {
    r.as_ref().err().map(|e| e.kind())
}
fn put(key: &str, v: &[u8]) {
    let f = format!("{}/{}", base(), key);
    if let Some(d) = std::path::Path::new(&f).parent() {
        ok("directory", std::fs::create_dir_all(d));
    }
    ok("file", std::fs::write(&f, v));
}
fn text_of(key: &str) -> Option<Vec<u8>> {
    std::fs::read(format!("{}/{}", base(), key)).ok()
}
/// An array whose shape and fill value are arbitrary.
fn some_array(name: &str) -> ArrayMetadata {
    let n = var(&format!("{}n", name), 8, 0, 99);
    let mut d = doc(&[n, 7], &[2, 3], json!("<u2"), "F", json!(n));
    d["attributes"] = json!({ "k": "v" });
    meta_of(d)
}
/// Two spellings of each of several node paths.
const PATHS: [(&str, &str); 11] = [
    ("a", "/a/"),
    ("a/b", "//a/b"),
    ("a.b", "a.b/"),
    ("a.b.c", "/a.b.c"),
    (".a", "/.a"),
    ("a.", "a.//"),
    ("a.array", "/a.array"),
    ("x.y/b.json", "/x.y/b.json/"),
    ("", "/"),
    ("a b", "/a b"),
    ("c0", "c0/"),
];
const OTHERS: [&str; 5] = ["ab", "a/bb", "a/b/c", "A", "a.b.c.d"];

// ---- Z16 ------------------------------------------------------------------------
fn create() {
    let h = hier();
    let (p, q) = PATHS[choice("path", PATHS.len() as u64) as usize];
    // other nodes, of either kind
    let near = choice("near", OTHERS.len() as u64 + 1) as usize;
    let other = some_array("o");
    if near < OTHERS.len() {
        let o = OTHERS[near];
        if choice("nearkind", 2) == 0 {
            ok("a group is created", h.create_group(o));
        } else {
            ok("an array is created", h.create_array(o, &other));
        }
    }
    check(!node_exists(&h, p) && !node_exists(&h, q), "a node that was not created does not exist");
    check(!array_exists(&h, p) && !array_exists(&h, q), "an array that was not created does not exist");
    check(kind_of(&h.get_array_metadata(q)) == Some(ErrorKind::NotFound), "an absent array has no metadata");
    let s0 = snap();
    let m = some_array("m");
    let array = choice("kind", 2) == 1;
    if array {
        ok("an array is created", h.create_array(p, &m));
    } else {
        ok("a group is created", h.create_group(p));
    }
    let canon = p.trim_matches('/');
    let key = format!("meta/root{}{}.{}.json", if canon.is_empty() { "" } else { "/" }, canon, if array { "array" } else { "group" });
    check(same(s0, &key), "creating a node stores nothing but its metadata");
    check(text_of(&key).is_some(), "creating a node stores its metadata under its key");
    let mut m = m;
    if choice("attribute", 2) == 1 {
        ok("an attribute is set", h.set_attribute(q, "k".to_string(), 7));
        if array {
            m = ok("array metadata is read", h.get_array_metadata(p));
        }
    }
    let s1 = snap();
    for r in [p, q] {
        check(node_exists(&h, r), "a created node exists");
        check(array_exists(&h, r) == array, "an array exists exactly if an array was created");
        if array {
            let g = ok("array metadata is read", h.get_array_metadata(r));
            check(g == m, "array metadata is read back as given");
            check(g.get_shape()[0] == m.get_shape()[0], "array metadata is read back as given");
            check(kind_of(&h.create_array(r, &other)) == Some(ErrorKind::AlreadyExists), "creating an array where a node exists fails");
            check(kind_of(&h.create_array(r, &m)) == Some(ErrorKind::AlreadyExists), "creating an array where a node exists fails");
            check(kind_of(&h.create_group(r)) == Some(ErrorKind::AlreadyExists), "creating a group where an array exists fails");
        } else {
            check(kind_of(&h.get_array_metadata(r)) == Some(ErrorKind::NotFound), "a group has no array metadata");
            check(kind_of(&h.create_array(r, &m)) == Some(ErrorKind::AlreadyExists), "creating an array where a group exists fails");
            ok("creating a group again succeeds", h.create_group(r));
        }
    }
    check(same(s1, ""), "refused and repeated creations change nothing");
    // seen by another instance as well
    let h2 = ok("the hierarchy opens", FilesystemHierarchy::open(base()));
    check(node_exists(&h2, q) && array_exists(&h2, q) == array, "a created node is durable");
    if near < OTHERS.len() {
        check(node_exists(&h2, OTHERS[near]), "creating a node leaves the others alone");
    }
    reach(if array { "array" } else { "group" });
}
/// Creating nodes in any order: `n` steps.
fn create_seq(n: usize) {
    let h = hier();
    let p = ["a", "a/b", "a.array", "b"];
    let mut is: [u8; 4] = [0; 4];
    let m = some_array("m");
    for i in 0..n {
        let k = choice(&format!("p{}", i), 4) as usize;
        let s = snap();
        if choice(&format!("k{}", i), 2) == 0 {
            let r = h.create_group(p[k]);
            if is[k] == 2 {
                check(kind_of(&r) == Some(ErrorKind::AlreadyExists), "creating a group where an array exists fails");
            } else {
                ok("a group is created", r);
            }
            if is[k] != 0 {
                check(same(s, ""), "refused and repeated creations change nothing");
            } else {
                is[k] = 1;
            }
        } else {
            let r = h.create_array(p[k], &m);
            if is[k] != 0 {
                check(kind_of(&r) == Some(ErrorKind::AlreadyExists), "creating an array where a node exists fails");
                check(same(s, ""), "refused and repeated creations change nothing");
            } else {
                ok("an array is created", r);
                is[k] = 2;
            }
        }
        for j in 0..4 {
            check(node_exists(&h, p[j]) == (is[j] != 0), "exactly the created nodes exist");
            check(array_exists(&h, p[j]) == (is[j] == 2), "exactly the created arrays exist");
        }
    }
    for j in 0..4 {
        if is[j] == 2 {
            check(ok("array metadata is read", h.get_array_metadata(p[j])) == m, "array metadata is read back as given");
        }
    }
    reach("sequence");
}

// ---- Z17 ------------------------------------------------------------------------
const NODES: [(&str, bool); 8] = [("a", false), ("a/b", true), ("a/g", false), ("a/g/c", true), ("ab", true), ("a.b", true), ("b/a", true), ("b/a.array", true)];
fn below(p: &str, of: &str) -> bool {
    of.is_empty() || p == of || (p.starts_with(of) && p.as_bytes().get(of.len()) == Some(&b'/'))
}
fn chunk_at() -> GridCoord {
    gc(&[1, 0])
}
fn remove() {
    let h = hier();
    let m = meta(&[4, 2], &[2, 2], "u1", "C", Value::Null);
    // which of the groups have metadata of their own
    let explicit = choice("explicit", 2) == 1;
    let root = choice("root", 2) == 1;
    if root {
        ok("a group is created", h.create_group(""));
    }
    let mut data = vec![];
    for (i, (p, array)) in NODES.iter().enumerate() {
        if *array {
            ok("an array is created", h.create_array(p, &m));
            let v = bytes(&format!("v{}", i), 4);
            ok("a chunk is written", h.write_chunk(p, &m, &SliceDataChunk::<u8, Vec<u8>>::new(chunk_at(), v.clone())));
            data.push(v);
        } else {
            if explicit {
                ok("a group is created", h.create_group(p));
            }
            data.push(vec![]);
        }
        if *array || explicit {
            ok("an attribute is set", h.set_attribute(p, "k".to_string(), i));
        }
    }
    let targets = ["a", "/a/", "a/b", "a/g", "ab", "a.b", "b", "", "/", "zz", "a/zz", "a/b/c", "aa", "a.", "b/a", "b/a.array", "a.array", "a.array.json", "b/a.group"];
    let t = targets[choice("target", targets.len() as u64) as usize];
    let canon = t.trim_matches('/');
    let gone: Vec<bool> = NODES.iter().map(|(p, _)| below(p, canon)).collect();
    let s = snap();
    ok("removing a node succeeds", some_or_return!(no_panic("removing a node does not panic", || if t == "/" { h.remove_all() } else { h.remove(t) })));
    if canon.is_empty() {
        check(same(s, "meta\ndata"), "removing the root leaves the entry point alone");
    } else {
        let skip = format!("meta/root/{0}\nmeta/root/{0}.array.json\nmeta/root/{0}.group.json\ndata/root/{0}", canon);
        check(same(s, &skip), "removing a node leaves every other node's values alone");
    }
    if !gone.iter().any(|g| *g) && !canon.is_empty() {
        check(same(s, ""), "removing an absent node changes nothing");
    }
    let again = choice("again", 2) == 1;
    if again {
        // a new array in place of every removed one
        for (i, (p, _)) in NODES.iter().enumerate() {
            if gone[i] {
                check(!node_exists(&h, p), "a removed node does not exist");
                ok("an array is created in place of a removed node", h.create_array(p, &m));
            }
        }
    }
    for (i, (p, array)) in NODES.iter().enumerate() {
        let r = ok("a chunk can be looked up", h.read_chunk::<u8>(p, &m, chunk_at()));
        let at = h.list_attributes(p);
        if gone[i] {
            check(r.is_none(), "no chunk of a removed node can be read");
            check(node_exists(&h, p) == again, "a removed node does not exist");
            check(array_exists(&h, p) == again, "a removed array does not exist");
            if again {
                check(ok("attributes are listed", at).is_empty(), "a new array does not inherit a removed node's attributes");
            } else {
                check(kind_of(&at) == Some(ErrorKind::NotFound), "a removed node has no attributes");
                check(kind_of(&h.get_array_metadata(p)) == Some(ErrorKind::NotFound), "a removed array has no metadata");
            }
        } else if *array || explicit {
            check(node_exists(&h, p), "removing a node leaves the others in place");
            check(array_exists(&h, p) == *array, "removing a node leaves the others in place");
            check(ok("attributes are listed", at).get("k") == Some(&json!(i)), "removing a node leaves the others' attributes in place");
            if *array {
                let r = some("removing a node leaves the others' chunks in place", r);
                check(eq(r.get_data(), &data[i]), "removing a node leaves the others' chunks in place");
            }
        }
    }
    if root && !canon.is_empty() {
        check(node_exists(&h, ""), "removing a node leaves the root in place");
    }
    if canon.is_empty() {
        check(node_exists(&h, "") == false, "a removed root does not exist");
        check(ok("the hierarchy opens", FilesystemHierarchy::open(base()).map(|_| true)), "a hierarchy opens after its root was removed");
    }
    reach(if gone.iter().any(|g| *g) { "removed" } else { "absent" });
}

/// A chain of nodes, one below the other: any of them is removed.
fn remove_deep(most: u64) {
    let h = hier();
    let m = meta(&[4, 2], &[2, 2], "u1", "C", Value::Null);
    let depth = 1 + choice("depth", most) as usize;
    let explicit = choice("explicit", 2) == 1;
    let array = choice("kind", 2) == 1;
    let path = |k: usize| vec!["n"; k].join("/");
    let v = bytes("v", 4);
    for k in 1..=depth {
        if k == depth && array {
            ok("an array is created", h.create_array(&path(k), &m));
            ok("a chunk is written", h.write_chunk(&path(k), &m, &SliceDataChunk::<u8, Vec<u8>>::new(chunk_at(), v.clone())));
        } else if explicit || k == depth {
            ok("a group is created", h.create_group(&path(k)));
        }
    }
    let at = 1 + choice("at", depth as u64) as usize;
    ok("removing a node succeeds", some_or_return!(no_panic("removing a node does not panic", || h.remove(&path(at)))));
    for k in 1..=depth {
        let there = k < at && explicit;
        check(node_exists(&h, &path(k)) == there, "a node exists exactly if neither it nor a node above it was removed");
    }
    let r = ok("a chunk can be looked up", h.read_chunk::<u8>(&path(depth), &m, chunk_at()));
    check(r.is_none(), "no chunk of a removed node can be read");
    reach("removed");
}

// ---- Z18 ------------------------------------------------------------------------
/// Any JSON value out of several kinds, with symbolic content.
fn value(n: &str) -> Value {
    match choice(&format!("{}kind", n), 5) {
        0 => {
            let b = bytes(n, 1);
            // control characters only get another spelling
            assume(and(b[0] >= 0x1e, b[0] < 0x80));
            Value::String(unsafe { String::from_utf8_unchecked(b) })
        }
        1 => json!({ "x": 1, "y": { "z": [] } }),
        2 => json!({ "x": var(n, 8, 0, 15) }),
        3 => Value::Null,
        _ => json!([{ "x": bool_(n) }, 1]),
    }
}
fn attributes(steps: usize) {
    let h = hier();
    let target = ["g", "arr", "", "odd", "bare", "none"][choice("node", 6) as usize];
    let mut d = doc(&[9, 7], &[2, 3], json!("<u2"), "F", json!(65535));
    d["attributes"] = json!({ "k": "v" });
    let m = meta_of(d);
    ok("an array is created", h.create_array("arr2", &m));
    let mut want: Map<String, Value> = Map::new();
    match target {
        "g" | "" => ok("a group is created", h.create_group(target)),
        "arr" => {
            ok("an array is created", h.create_array(target, &m));
            want.insert("k".to_string(), json!("v"));
        }
        // metadata written by a program that knows more than this library
        "odd" => {
            let mut d = doc(&[3], &[2], json!("u1"), "C", json!(5));
            d["attributes"] = json!({"k": {"x": {"y": 1}, "z": 2}, "attributes": {"a": 1}});
            d["numbers"] = json!([u64::MAX, i64::MIN, 1.5, -0.0, 1e22]);
            d["zz"] = json!({"deep": [1, {"attributes": {"k": 3}}]});
            d["aa"] = json!(null);
            want = d["attributes"].as_object().cloned().unwrap_or_default();
            put("meta/root/odd.array.json", serde_json::to_string(&d).unwrap_or_default().as_bytes());
        }
        "bare" => put("meta/root/bare.group.json", b"{ \"extensions\": [], \"x\": 1.50 }"),
        _ => (),
    }
    let key = match target {
        "g" => "meta/root/g.group.json",
        "" => "meta/root.group.json",
        "arr" => "meta/root/arr.array.json",
        "odd" => "meta/root/odd.array.json",
        "bare" => "meta/root/bare.group.json",
        _ => "meta/root/none.group.json",
    };
    let s0 = snap();
    if target == "none" {
        check(kind_of(&h.set_attribute(target, "k".to_string(), 1)) == Some(ErrorKind::NotFound), "setting attributes of an absent node fails");
        check(kind_of(&h.set_attributes(target, Map::new())) == Some(ErrorKind::NotFound), "setting attributes of an absent node fails");
        check(kind_of(&h.list_attributes(target)) == Some(ErrorKind::NotFound), "an absent node has no attributes");
        check(same(s0, ""), "setting attributes of an absent node creates nothing");
        reach("absent");
        return;
    }
    let rest = |b: &[u8]| -> Value {
        let mut v: Value = serde_json::from_slice(b).unwrap_or(Value::Null);
        if let Some(o) = v.as_object_mut() {
            o.remove("attributes");
        }
        v
    };
    let before = rest(&some("metadata is there", text_of(key)));
    check(ok("attributes are listed", h.list_attributes(target)) == want, "attributes are listed as stored");
    for i in 0..steps {
        let spelled = if i == 0 { format!("/{}/", target) } else { target.to_string() };
        match choice(&format!("how{}", i), 5) {
            4 => {
                // other names and values; both ways of setting
                let odd = [
                    ("", json!("\u{e9}\"\\\n\u{1}\u{1f600}")), ("a.b", json!(1.5)), ("a/b", json!(u64::MAX)),
                    ("extensions", json!(i64::MIN)), ("\u{e9}~0", json!([[], {}, [null, false, -1]])), ("must_understand", json!(true)),
                ];
                let (k, v) = odd[choice(&format!("odd{}", i), odd.len() as u64) as usize].clone();
                if i == 0 {
                    ok("an attribute is set", h.set_attribute(&spelled, k.to_string(), &v));
                } else {
                    let mut a = Map::new();
                    a.insert(k.to_string(), v.clone());
                    ok("attributes are set", h.set_attributes(&spelled, a));
                }
                want.insert(k.to_string(), v);
            }
            0 => {
                let v = value(&format!("v{}", i));
                ok("an attribute is set", h.set_attribute(&spelled, "k".to_string(), &v));
                want.insert("k".to_string(), v);
            }
            3 => {
                ok("an attribute is set", h.set_attribute(&spelled, "k3".to_string(), i));
                want.insert("k3".to_string(), json!(i));
            }
            1 => {
                let v = value(&format!("v{}", i));
                let mut a = Map::new();
                a.insert("k2".to_string(), v.clone());
                a.insert("attributes".to_string(), json!({ "q": 1 }));
                ok("attributes are set", h.set_attributes(&spelled, a.clone()));
                want.insert("k2".to_string(), v);
                want.insert("attributes".to_string(), json!({ "q": 1 }));
            }
            _ => {
                ok("no attributes are set", h.set_attributes(&spelled, Map::new()));
            }
        }
        check(ok("attributes are listed", h.list_attributes(target)) == want, "attributes are the result of all updates so far");
    }
    check(rest(&some("metadata is there", text_of(key))) == before, "setting attributes changes nothing else in the metadata");
    check(same(s0, key), "setting attributes changes no other value");
    if target == "arr" {
        let g = ok("array metadata is read", h.get_array_metadata(target));
        check(g.get_shape() == m.get_shape() && g.get_data_type() == m.get_data_type() && g.get_fill_value() == m.get_fill_value(), "setting attributes leaves the array as it is");
    }
    reach("attributes");
}

// ---- Z21 ------------------------------------------------------------------------
fn ext(i: u64, must: bool) -> Value {
    let mut v = json!({ "extension": format!("http://e.org/x{}", i), "must_understand": must });
    match i % 3 {
        0 => (),
        1 => v["configuration"] = json!({ "must_understand": true }),
        _ => v["configuration"] = json!({}),
    }
    v
}
/// Extensions that do not say whether they must be understood.
fn extension_odd() {
    let n = 1 + choice("n", 2) as usize;
    let at = choice("at", n as u64) as usize;
    let list: Vec<Value> = (0..n).map(|i| {
        let mut v = ext(i as u64, false);
        if i == at {
            match choice("odd", 7) {
                0 => drop(v.as_object_mut().map(|o| o.remove("must_understand"))),
                1 => v["must_understand"] = json!(var("number", 8, 0, 9)),
                2 => v["must_understand"] = json!("true"),
                3 => v["must_understand"] = Value::Null,
                4 => v["must_understand"] = json!([true]),
                5 => v = json!("http://e.org/x"),
                _ => v = Value::Null,
            }
        }
        v
    }).collect();
    if choice("where", 2) == 0 {
        let h = hier();
        let mut d = doc(&[4], &[2], json!("u1"), "C", Value::Null);
        d["extensions"] = Value::Array(list);
        put("meta/root/a.array.json", serde_json::to_string(&d).unwrap_or_default().as_bytes());
        let r = some_or_return!(no_panic("loading odd extensions does not panic", || h.get_array_metadata("a")));
        check(r.is_err(), "an array with an extension not said to be optional is refused");
        check(!matches!(h.array_exists("a"), Ok(true)), "an array that does not load is not reported to exist");
    } else {
        let mut d = entry(".json");
        d["extensions"] = Value::Array(list);
        put("zarr.json", serde_json::to_string(&d).unwrap_or_default().as_bytes());
        let s = snap();
        let how = choice("how", 2);
        let r = some_or_return!(no_panic("loading odd extensions does not panic", || open_either(how)));
        check(r.is_err(), "a hierarchy with an extension not said to be optional is refused");
        check(same(s, ""), "opening changes nothing");
    }
    reach("odd");
}
fn extensions(most: u64) {
    let n = choice("n", most + 1);
    let flags: Vec<bool> = (0..n).map(|i| bool_(&format!("must{}", i))).collect();
    let mut first = None;
    let list: Vec<Value> = (0..n).map(|i| {
        let f = flags[i as usize];
        if f && first.is_none() {
            first = Some(i);
        }
        ext(i, f)
    }).collect();
    let named = |e: &std::io::Error| {
        let t = e.to_string();
        (0..n).any(|i| flags[i as usize] && t.contains(&format!("http://e.org/x{}", i)))
    };
    if choice("where", 2) == 0 {
        let h = hier();
        let mut d = doc(&[4], &[2], json!("u1"), "C", Value::Null);
        d["extensions"] = Value::Array(list);
        put("meta/root/a.array.json", serde_json::to_string(&d).unwrap_or_default().as_bytes());
        let s = snap();
        match h.get_array_metadata("a") {
            Ok(m) => {
                check(first.is_none(), "an array with a must-understand extension is refused");
                check(m.get_shape() == [4], "an array with optional extensions loads");
                check(array_exists(&h, "a"), "an array with optional extensions exists");
            }
            Err(e) => {
                check(first.is_some(), "an array whose extensions are all optional loads");
                check(named(&e), "the error names a must-understand extension");
                check(!matches!(h.array_exists("a"), Ok(true)), "an array that does not load is not reported to exist");
            }
        }
        check(same(s, ""), "loading changes nothing");
        reach("array");
    } else {
        let mut d = entry(".json");
        d["extensions"] = Value::Array(list);
        put("zarr.json", serde_json::to_string(&d).unwrap_or_default().as_bytes());
        let s = snap();
        let r = if choice("how", 2) == 0 { FilesystemHierarchy::open(base()) } else { FilesystemHierarchy::open_or_create(base()) };
        match r {
            Ok(_) => check(first.is_none(), "a hierarchy with a must-understand extension is refused"),
            Err(e) => {
                check(first.is_some(), "a hierarchy whose extensions are all optional opens");
                check(named(&e), "the error names a must-understand extension");
            }
        }
        check(same(s, ""), "opening changes nothing");
        reach("hierarchy");
    }
}

// ---- Z22 ------------------------------------------------------------------------
fn entry(suffix: &str) -> Value {
    json!({
        "zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": suffix,
        "extensions": [],
    })
}
fn open_either(k: u64) -> std::io::Result<FilesystemHierarchy> {
    if k == 0 {
        FilesystemHierarchy::open(base())
    } else {
        FilesystemHierarchy::open_or_create(base())
    }
}
/// Versions of `n` characters out of the digits and the dot.
fn version(n: usize) {
    let b = bytes("version", n);
    assume(and_all(b.iter().map(|&c| or(c == b'.', and(c >= b'0', c <= b'9')))));
    let v = unsafe { String::from_utf8_unchecked(b.clone()) };
    let pre = ["https://purl.org/zarr/spec/protocol/core/", "", "3.0/"][choice("prefix", 3) as usize];
    let mut d = entry(".json");
    d["zarr_format"] = json!(format!("{}{}", pre, v));
    put("zarr.json", serde_json::to_string(&d).unwrap_or_default().as_bytes());
    let s = snap();
    let r = some_or_return!(no_panic("opening a hierarchy does not panic", || open_either(choice("how", 2))));
    // major, minor, patch
    let f: Vec<&[u8]> = b.split(|&c| c == b'.').collect();
    let zero = |x: &[u8]| x.iter().all(|&c| c == b'0');
    let compatible = f.len() <= 3 && f.iter().all(|x| !x.is_empty()) && f[0] == b"3" && f[1..].iter().all(|x| zero(x));
    if r.is_ok() {
        check(f[0].iter().skip_while(|&&c| c == b'0').eq(b"3".iter()) && f[1..].iter().all(|x| zero(x)), "a hierarchy opens only if its version is compatible with 3.0");
    }
    if compatible && f[1..].iter().all(|x| x.len() == 1) {
        check(r.is_ok(), "a hierarchy whose version is compatible with 3.0 opens");
        reach("compatible");
    } else {
        reach("other");
    }
    check(same(s, ""), "opening a hierarchy changes nothing");
}
/// Entry points that are absent, cut short or altered.
fn entry_point(span: u64) {
    let good = serde_json::to_string(&entry(".json")).unwrap_or_default().into_bytes();
    let how = choice("how", 2);
    match choice("what", 4) {
        0 => {
            // nothing there
            if choice("dir", 2) == 1 {
                ok("directory", std::fs::create_dir_all(base()));
            }
            check(open_either(0).is_err(), "a hierarchy does not open without an entry point");
            let s = snap();
            check(same(s, ""), "a failed opening creates nothing");
            check(text_of("zarr.json").is_none(), "a failed opening creates nothing");
            let h = ok("a hierarchy is created", open_either(1));
            let t = text_of("zarr.json");
            check(t.is_some(), "creating a hierarchy stores its entry point");
            check(ok("a store is listed", h.list_prefix("")) == ["zarr.json"], "a new hierarchy holds its entry point only");
            check(!node_exists(&h, "") && ok("a group is listed", h.list_nodes("")).is_empty(), "a new hierarchy has no nodes");
            let h2 = ok("a created hierarchy opens", open_either(how));
            check(text_of("zarr.json") == t, "opening a hierarchy changes nothing");
            check(format!("{:?}", h.get_entry_point_metadata()) == format!("{:?}", h2.get_entry_point_metadata()), "a created hierarchy opens with the same settings");
            check(ok("a hierarchy has a version", h2.get_version()).matches(&zarr::VERSION), "a created hierarchy has a compatible version");
            ok("a group is created", h2.create_group("g"));
            check(node_exists(&h, "g"), "both see the same hierarchy");
        }
        1 => {
            // cut short
            let k = choice("at", good.len() as u64) as usize;
            put("zarr.json", &good[..k]);
            let s = snap();
            let r = some_or_return!(no_panic("opening a hierarchy does not panic", || open_either(how)));
            check(r.is_err(), "a hierarchy whose entry point is cut short does not open");
            check(same(s, ""), "a failed opening changes nothing");
        }
        2 => {
            // one byte altered, anywhere
            let k = choice("at", good.len() as u64 / span + 1) as usize * span as usize;
            let mut t = good.clone();
            if k < t.len() {
                t[k] = u8_("byte");
            }
            put("zarr.json", &t);
            let s = snap();
            let r = some_or_return!(no_panic("opening a hierarchy does not panic", || open_either(how)));
            if r.is_ok() {
                some_or_return!(no_panic("using an opened hierarchy does not panic", || {
                    let h = r.unwrap_or_else(|_| unreachable!());
                    let _ = HierarchyReader::exists(&h, "a/b");
                    let _ = h.get_array_metadata("");
                    let _ = h.list_nodes("");
                }));
            }
            check(same(s, ""), "opening a hierarchy changes nothing");
        }
        _ => {
            // a directory in its place
            ok("directory", std::fs::create_dir_all(format!("{}/zarr.json/x", base())));
            let r = some_or_return!(no_panic("opening a hierarchy does not panic", || open_either(how)));
            check(r.is_err(), "a directory is no entry point");
        }
    }
    reach("entry_point");
}
/// The declared suffix of metadata keys.
fn suffix() {
    let x = ["", ".json", "json", ".", ".x.json", "-é", "..", ".array.json", "/m"][choice("suffix", 9) as usize];
    put("zarr.json", serde_json::to_string(&entry(x)).unwrap_or_default().as_bytes());
    let s = snap();
    let h = ok("a hierarchy opens", open_either(choice("how", 2)));
    check(same(s, ""), "opening a hierarchy changes nothing");
    let m = some_array("m");
    let (ka, kg, kr) = (format!("meta/root/a.b.array{}", x), format!("meta/root/a.b/g.group{}", x), format!("meta/root.group{}", x));
    ok("an array is created", some_or_return!(no_panic("creating a node does not panic", || h.create_array("a.b", &m))));
    ok("a group is created", h.create_group("a.b/g"));
    ok("a group is created", h.create_group("/"));
    for k in [&ka, &kg, &kr] {
        check(text_of(k).is_some(), "metadata is stored under the declared suffix");
    }
    check(same(s, &format!("{}\n{}\n{}", ka, kg, kr)), "metadata is stored under the declared suffix");
    let h2 = ok("a hierarchy opens", open_either(choice("how2", 2)));
    check(ok("array metadata is read", h2.get_array_metadata("a.b")) == m, "metadata is read under the declared suffix");
    check(node_exists(&h2, "a.b/g") && node_exists(&h2, ""), "nodes are found under the declared suffix");
    if x != "/m" {
        check(ok("nodes are listed", h2.list_nodes("")) == ["a.b"], "nodes are listed under the declared suffix");
        check(ok("nodes are listed", h2.list_nodes("a.b")) == ["g"], "nodes are listed under the declared suffix");
    }
    ok("an attribute is set", h2.set_attribute("a.b", "q".to_string(), 1));
    check(ok("attributes are listed", h.list_attributes("a.b")).get("q") == Some(&json!(1)), "attributes are kept under the declared suffix");
    check(kind_of(&h2.create_group("a.b")) == Some(ErrorKind::AlreadyExists), "nodes are exclusive under the declared suffix");
    ok("a node is removed", h2.remove("a.b"));
    check(text_of(&ka).is_none() && text_of(&kg).is_none() && text_of(&kr).is_some(), "a node is removed under the declared suffix");
    check(!node_exists(&h2, "a.b") && !node_exists(&h2, "a.b/g") && node_exists(&h2, ""), "a node is removed under the declared suffix");
    reach("suffix");
}

// ---- Z23 ------------------------------------------------------------------------
const NAMES: [&str; 12] = ["a", "b", "ab", "a.b", "a.array", "x.group", "json", ".json", "array", "a.json", "long name", "é"];
fn list(n: usize) {
    let h = hier();
    let at = ["", "p", "/p/q/", "p.x", "meta"][choice("at", 5) as usize];
    let canon = at.trim_matches('/');
    let m = some_array("m");
    let mut want: Vec<&str> = vec![];
    let mut from = 0;
    for i in 0..n {
        // an increasing selection of names
        let left = (NAMES.len() - from) as u64;
        let k = from + choice(&format!("n{}", i), left.min(if n > 2 { 6 } else { 12 })) as usize;
        let p = if canon.is_empty() { NAMES[k].to_string() } else { format!("{}/{}", canon, NAMES[k]) };
        match choice(&format!("k{}", i), 5) {
            0 => ok("a group is created", h.create_group(&p)),
            1 => ok("an array is created", h.create_array(&p, &m)),
            2 => ok("a group is created", h.create_group(&format!("{}/deep/er", p))),
            3 => {
                ok("a group is created", h.create_group(&p));
                ok("an array is created", h.create_array(&format!("{}/arr", p), &m));
            }
            _ => {
                ok("an array is created", h.create_array(&p, &m));
                ok("a chunk is written", h.write_chunk(&p, &m, &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[0, 0]), vec![7; 6])));
                ok("an attribute is set", h.set_attribute(&p, "k".to_string(), 1));
            }
        }
        want.push(NAMES[k]);
        from = k + 1;
        if from >= NAMES.len() {
            break;
        }
    }
    // neighbours that are not below it
    if !canon.is_empty() {
        ok("a group is created", h.create_group(canon));
        ok("a group is created", h.create_group(&format!("{}z/y", canon)));
        ok("an array is created", h.create_array(&format!("{}.w", canon), &m));
    }
    let s = snap();
    let mut got = ok("nodes are listed", some_or_return!(no_panic("listing nodes does not panic", || h.list_nodes(at))));
    got.sort();
    want.sort();
    check(got == want, "a group lists the names of its children, each once, and nothing else");
    check(same(s, ""), "listing changes nothing");
    for k in got {
        let sub = ok("nodes are listed", h.list_nodes(&format!("{}/{}", canon, k)));
        check(sub.iter().all(|x| x == "deep" || x == "arr") && sub.len() < 2, "a child lists its own children");
    }
    check(ok("nodes are listed", h.list_nodes(&format!("{}/nothing", canon))).is_empty(), "a node that does not exist has no children");
    reach("list");
}
/// Every key of the store, by prefix.
fn list_store(n: usize) {
    let h = hier();
    let keys = ["/k", "/d/k", "/d/k.x", "/d/e/k", "/d/e/f/g", "/dd", "/d.k", "/.h/k", "/d/.h/e .x/k", "/d/e.json/k"];
    let mut have: Vec<(String, Vec<u8>)> = vec![("/zarr.json".to_string(), vec![])];
    let mut from = 0;
    for i in 0..n {
        let k = from + choice(&format!("k{}", i), (keys.len() - from) as u64 + 1) as usize;
        if k == keys.len() {
            break;
        }
        from = k + 1;
        let k = keys[k];
        let v = bytes(&format!("v{}", i), 1);
        let w = v.clone();
        ok("a value is stored", h.set(k, move |mut o| {
            use std::io::Write;
            o.write_all(&w)?;
            o.flush()
        }));
        have.push((k.to_string(), v));
    }
    let pre = ["/", "/d", "/d/", "d", "", "/d/e", "/nothing", "/k"][choice("prefix", 8) as usize];
    let dir = pre.trim_matches('/');
    let mut want: Vec<String> = have.iter().map(|(k, _)| k.trim_matches('/').to_string()).filter(|k| dir.is_empty() || (k.starts_with(dir) && k.as_bytes().get(dir.len()) == Some(&b'/'))).collect();
    let all = if pre == "/" && choice("all", 2) == 1 { h.list() } else { h.list_prefix(pre) };
    let all = ok("keys are listed", all);
    for k in &all {
        check(k.starts_with(pre), "every listed key starts with the prefix");
        let mut r = some("every listed key has a value", ok("a listed key can be read", h.get(k)));
        let mut b = vec![];
        ok("a listed key can be read", std::io::Read::read_to_end(&mut r, &mut b));
        let (_, v) = some("only stored keys are listed", have.iter().find(|(q, _)| q.trim_matches('/') == k.trim_matches('/')));
        check(k.ends_with("zarr.json") || eq(&b, v), "a listed key reads the value stored under it");
        check(ok("a listed key exists", ReadableStore::exists(&h, k)), "a listed key exists");
    }
    let mut got: Vec<String> = all.iter().map(|k| k.trim_matches('/').to_string()).collect();
    got.sort();
    want.sort();
    check(got == want, "listing a store yields every key below the prefix once");
    let (ks, ps) = ok("a directory is listed", h.list_dir(pre));
    for k in &ks {
        check(all.contains(k), "a directory's keys are keys");
        check(!k[pre.len()..].trim_start_matches('/').contains('/'), "a directory's keys are directly below it");
    }
    for p in &ps {
        check(!p[pre.len()..].trim_matches('/').contains('/'), "a directory's prefixes are directly below it");
        let sub = ok("keys are listed", h.list_prefix(p));
        check(!sub.is_empty() && sub.iter().all(|k| all.contains(k)), "a directory's prefixes have keys");
    }
    reach(if all.is_empty() { "none" } else { "keys" });
}

entries! {
/// Z16
h_create => { create(); }
h_create_seq => { create_seq(param(0) as usize); }
/// Z17
h_remove_deep => { remove_deep(param(0)); }
h_remove => { remove(); }
/// Z18
h_attributes => { attributes(param(0) as usize); }
/// Z21
h_extension_odd => { extension_odd(); }
h_extensions => { extensions(param(0)); }
/// Z22
h_version => { version(param(0) as usize); }
h_entry_point => { entry_point(param(0)); }
h_suffix => { suffix(); }
/// Z23
h_list => { list(param(0) as usize); }
h_list_store => { list_store(param(0) as usize); }
}
