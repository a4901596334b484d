//! Z28 to Z32: the store as a map, pure reads, several handles, names and sizes.
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Value};
use std::io::{ErrorKind, Read, Write};
use zarr::chunk::{DataChunk, SliceDataChunk};
use zarr::compression::CompressionType;
use zarr::ndarray::{BoundingBox, ZarrNdarrayReader};
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

// ---- Z28 ------------------------------------------------------------------------
/// The keys that hold values, and another spelling of each.
const KEYS: [(&str, &str); 5] = [("/d/k", "d/k"), ("/d/e/k", "d//e/k"), ("/d/k.x", "/d/./k.x"), ("/dd", "./dd"), ("/k", "//k")];
/// Places that hold no value: directories of values, below a value, absent.
const PLACES: [&str; 5] = ["/d", "/d/e/", "/k/below", "/nothing", ""];
fn value(h: &FilesystemHierarchy, k: &str) -> Option<Vec<u8>> {
    let r = ok("getting a key succeeds", h.get(k));
    let there = ok("testing for a key succeeds", ReadableStore::exists(h, k));
    check(there == r.is_some(), "a key exists exactly if it has a value");
    r.map(|mut r| {
        let mut b = vec![];
        ok("a value is read", r.read_to_end(&mut b));
        b
    })
}
fn store_map(n: usize, keys: &[usize]) {
    let h = hier();
    let mut map: Vec<Option<Vec<u8>>> = vec![None; KEYS.len()];
    for i in 0..n {
        let op = choice(&format!("op{}", i), 5);
        match op {
            0 | 1 => {
                let k = keys[choice(&format!("key{}", i), keys.len() as u64) as usize];
                let name = if op == 0 { KEYS[k].0 } else { KEYS[k].1 };
                let len = if keys.len() < KEYS.len() { 1 } else { [0, 1, 3][choice(&format!("len{}", i), 3) as usize] };
                let v = bytes(&format!("v{}_", i), len);
                let w = v.clone();
                // in pieces, as an encoder would
                let r = no_panic("storing a value does not panic", || {
                    h.set(name, move |mut o| {
                        for c in w.chunks(2) {
                            o.write_all(c)?;
                        }
                        o.flush()
                    })
                });
                ok("a value is stored", some("", r));
                map[k] = Some(v);
            }
            2 => {
                let k = keys[choice(&format!("key{}", i), keys.len() as u64) as usize];
                let gone = no_panic("erasing does not panic", || h.erase(KEYS[k].1));
                check(ok("a key is erased", some("", gone)), "erasing a key reports that it is gone");
                map[k] = None;
            }
            3 => {
                let p = ["/d", "d/", "/d/e", "/dd", "/k", "/nothing", "/d/k"][choice(&format!("prefix{}", i), 7) as usize];
                let gone = no_panic("erasing a prefix does not panic", || h.erase_prefix(p));
                check(ok("a prefix is erased", some("", gone)), "erasing a prefix reports that it is gone");
                let dir = format!("/{}/", p.trim_matches('/'));
                for (k, v) in map.iter_mut().enumerate() {
                    if KEYS[k].0.starts_with(&dir) {
                        *v = None;
                    }
                }
            }
            _ => {
                // may be refused, but leaves every value alone
                let p = PLACES[choice(&format!("place{}", i), PLACES.len() as u64) as usize];
                let below = p == "/k/below" && map[4].is_none();
                if p == "/nothing" || below {
                    check(ok("erasing an absent key succeeds", h.erase(p)), "an absent key is gone");
                } else {
                    no_panic("erasing does not panic", || h.erase(p).is_ok());
                    if !below {
                        let r = no_panic("storing does not panic", || {
                            h.set(p, |mut o| {
                                o.write_all(b"x")?;
                                o.flush()
                            })
                        });
                        if some("", r).is_ok() {
                            // nothing stood in the way
                            check(ok("a key is erased", h.erase(p)), "erasing a key reports that it is gone");
                        }
                    }
                }
            }
        }
    }
    for (k, v) in map.iter().enumerate() {
        for name in [KEYS[k].0, KEYS[k].1] {
            match (value(&h, name), v) {
                (Some(b), Some(v)) => check(eq(&b, v), "a key has the value that was stored last"),
                (None, None) => {}
                (b, _) => check(false, if b.is_some() { "a key that was erased or never set has no value" } else { "a value that was stored is there" }),
            }
        }
    }
    let mut got: Vec<String> = ok("the store is listed", h.list()).into_iter().filter(|k| k != "/zarr.json").collect();
    got.sort();
    let mut want: Vec<String> = map.iter().enumerate().filter(|(_, v)| v.is_some()).map(|(k, _)| KEYS[k].0.to_string()).collect();
    want.sort();
    check(got == want, "the store holds exactly the keys that were set and not erased");
    for p in PLACES {
        check(value(&h, p).is_none(), "a key that was never set has no value");
    }
    reach("map");
}
/// Values longer than what is transferred at once, over longer and shorter ones.
fn store_long() {
    let h = hier();
    let lens = [0usize, 1, 8191, 8192, 8193, 20000];
    let mut last = vec![];
    for i in 0..2 {
        let n = lens[choice(&format!("len{}", i), lens.len() as u64) as usize];
        let piece = [1, 8192, 30000][choice(&format!("piece{}", i), 3) as usize].max(n / 3);
        let s = bytes(&format!("v{}_", i), 3);
        let mut v = vec![i as u8; n];
        if n > 0 {
            v[0] = s[0];
            v[n / 2] = s[1];
            v[n - 1] = s[2];
        }
        let w = v.clone();
        let r = h.set("/d/k", move |mut o| {
            for c in w.chunks(piece) {
                o.write_all(c)?;
            }
            o.flush()
        });
        ok("a value is stored", r);
        last = v;
    }
    let b = some("a value that was stored is there", value(&h, "/d/k"));
    check(b.len() == last.len() && eq(&b, &last), "a key has the value that was stored last");
    reach("long");
}
/// `p0` arbitrary bytes under one key, fetched as a JSON document by each key.
fn store_doc(n: usize) {
    let h = hier();
    let at = choice("at", KEYS.len() as u64) as usize;
    let text = if choice("symbolic", 2) == 1 { bytes("doc", n) } else {
        [&b"{\"a\":[1,{\"b\":null}],\"attributes\":{}}"[..], b" [ ] ", b"7", b"{} {}", b"{\"a\":"][choice("doc", 5) as usize].to_vec()
    };
    let t = text.clone();
    ok("a value is stored", h.set(KEYS[at].0, move |mut o| {
        o.write_all(&t)?;
        o.flush()
    }));
    let want: Option<Value> = serde_json::from_slice(&text).ok();
    let s = snap();
    for (k, names) in KEYS.iter().enumerate() {
        for name in [names.0, names.1] {
            let got = some("", no_panic("fetching a document does not panic", || h.get_attributes(name)));
            if k == at {
                match (got, &want) {
                    (Ok(g), Some(w)) => check(g == *w, "a stored JSON document is fetched as it was stored"),
                    (Err(_), None) => {}
                    (Ok(_), None) => check(false, "a value that is no JSON document is not fetched as one"),
                    (Err(_), Some(_)) => check(false, "a stored JSON document is fetched"),
                }
            } else {
                // "/d/k.x" may be answered for by "/d/k", without content
                check(match got { Ok(g) => k == 2 && at == 0 && g == json!({}), Err(e) => e.kind() == ErrorKind::NotFound }, "no document is invented for a key that was never set");
            }
        }
    }
    check(same(s, ""), "fetching a document changes nothing");
    reach("doc");
}
/// Values under two keys whose names are easily taken for each other.
fn store_names() {
    let h = hier();
    let long = "k".repeat(200);
    let names = ["k", "K", "k.", "k ", " k", ".k", "k~", "k\\l", "k%6b", "\u{e9}", "e\u{301}", "k.tmp", "k.lock", "k:l", "*", "...", "kk", long.as_str()];
    let dir = ["/", "/d/", "/d./", "/meta/root/"][choice("dir", 4) as usize];
    let n = names.len() as u64;
    let i = choice("first", n);
    let j = choice("second", n - 1);
    let (a, b) = (format!("{}{}", dir, names[i as usize]), format!("{}{}", dir, names[(if j < i { j } else { j + 1 }) as usize]));
    let (x, y) = (bytes("x", 2), bytes("y", 1));
    for (k, v) in [(&a, &x), (&b, &y)] {
        ok("a value is stored", h.set(k, |mut o| {
            o.write_all(v)?;
            o.flush()
        }));
    }
    check(eq(&some("a value that was stored is there", value(&h, &a)), &x), "a key has the value that was stored last");
    check(eq(&some("a value that was stored is there", value(&h, &b)), &y), "a key has the value that was stored last");
    let mut got: Vec<String> = ok("the store is listed", h.list()).into_iter().filter(|k| k != "/zarr.json").collect();
    got.sort();
    let mut want = vec![a.clone(), b.clone()];
    want.sort();
    check(got == want, "the store holds exactly the keys that were set and not erased");
    if choice("prefix", 2) == 1 && dir != "/" {
        check(ok("a prefix is erased", h.erase_prefix(dir)), "erasing a prefix reports that it is gone");
        check(value(&h, &a).is_none() && value(&h, &b).is_none(), "a key that was erased or never set has no value");
    } else {
        check(ok("a key is erased", h.erase(&a)), "erasing a key reports that it is gone");
        check(value(&h, &a).is_none(), "a key that was erased or never set has no value");
        check(eq(&some("a value that was stored is there", value(&h, &b)), &y), "a key has the value that was stored last");
    }
    reach("names");
}

// ---- Z29 ------------------------------------------------------------------------
fn reads() {
    let h = hier();
    let x = bytes("x", 4);
    let m = meta(&[3, 3], &[2, 2], "u1", "C", json!(5));
    ok("an array is created", h.create_array("a", &m));
    ok("a group is created", h.create_group("g"));
    ok("an array is created", h.create_array("x/y", &m));
    ok("an attribute is set", h.set_attribute("g", "k".to_string(), 1));
    ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0, 1]), x.clone())));
    // values without content: one of no node, one where a chunk should be
    for k in ["/e", "/data/root/a/c1/1"] {
        ok("an empty value is stored", h.set(k, |_| Ok(())));
    }
    // a directory that a deleted chunk has left
    ok("a chunk is written", h.write_chunk("b", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0, 1]), x.clone())));
    ok("a chunk is deleted", h.delete_chunk("b", &m, &[0, 1]));
    let s = snap();
    let m0 = mutations();
    let p = ["a", "/g/", "x", "x/y", "nothing", "", "a/below", "nothing/below", "e", "b"][choice("path", 10) as usize];
    let pos = [choice("i", 2), choice("j", 2)];
    let r = no_panic("reading does not panic", || match choice("op", 18) {
        0 => HierarchyReader::exists(&h, p).map(|_| ()),
        1 => h.array_exists(p).map(|_| ()),
        2 => h.get_array_metadata(p).map(|_| ()),
        3 => h.list_attributes(p).map(|_| ()),
        4 => h.list_nodes(p).map(|_| ()),
        5 => h.get_chunk_uri(p, &m, &pos).map(|_| ()),
        6 => h.read_chunk::<u8>(p, &m, gc(&pos)).map(|_| ()),
        7 => {
            let mut b = VecDataChunk::<u8>::new(gc(&[0, 0]), vec![9]);
            h.read_chunk_into::<u8, _>(p, &m, gc(&pos), &mut b).map(|_| ())
        }
        8 => h.read_ndarray::<u8>(p, &m, &BoundingBox::new(gc(&pos), gc(&[3, 3]))).map(|_| ()),
        9 => h.get_version().map(|_| ()),
        10 => h.list().map(|_| ()),
        11 => h.list_prefix(p).map(|_| ()),
        12 => h.list_dir(p).map(|_| ()),
        13 => h.get(p).map(|_| ()),
        14 => h.uri(p).map(|_| ()),
        15 => FilesystemHierarchy::open(base()).map(|_| ()),
        16 => FilesystemHierarchy::open(std::path::Path::new(&base()).join("none")).map(|_| ()),
        _ => FilesystemHierarchy::open_or_create(base()).map(|_| ()),
    });
    check(same(s, ""), "reading leaves every stored byte alone");
    check(mutations() == m0, "reading creates and removes nothing");
    if let Some(Ok(())) = r {
        reach("read");
    }
    let c = some("a chunk is there", ok("a chunk is read", h.read_chunk::<u8>("a", &m, gc(&[0, 1]))));
    check(eq(c.get_data(), &x), "reading twice gives the same");
}

// ---- Z30 ------------------------------------------------------------------------
/// What a node should be.
#[derive(Clone, PartialEq)]
enum Node {
    None,
    Group(Value),
    Array(Value),
}
fn handles(n: usize) {
    let first = hier();
    let m = meta(&[4], &[2], "u1", "C", Value::Null);
    let other = meta(&[6], &[2], "u1", "C", Value::Null);
    let hs = [first, ok("the hierarchy opens", FilesystemHierarchy::open(base())), ok("the hierarchy opens", FilesystemHierarchy::open_or_create(base()))];
    let mut node = Node::None;
    let mut is_other = false;
    let mut data: Option<Vec<u8>> = None;
    for i in 0..n {
        let h = &hs[i % 2];
        match choice(&format!("op{}", i), 7) {
            0 => {
                let r = h.create_group("n");
                match node {
                    Node::Array(_) => check(r.err().map(|e| e.kind()) == Some(ErrorKind::AlreadyExists), "an array created through one handle is in the way of a group through another"),
                    _ => {
                        ok("a group is created", r);
                        if node == Node::None {
                            node = Node::Group(json!({}));
                        }
                    }
                }
            }
            1 | 2 => {
                let o = choice(&format!("other{}", i), 2) == 1;
                let r = h.create_array("n", if o { &other } else { &m });
                if node == Node::None {
                    ok("an array is created", r);
                    node = Node::Array(json!({}));
                    is_other = o;
                } else {
                    check(r.err().map(|e| e.kind()) == Some(ErrorKind::AlreadyExists), "a node created through one handle is in the way of an array through another");
                }
            }
            3 => {
                let v = var(&format!("v{}", i), 8, 0, 200);
                let r = h.set_attribute("n", "k".to_string(), v);
                match &mut node {
                    Node::None => check(r.err().map(|e| e.kind()) == Some(ErrorKind::NotFound), "a node removed through one handle is absent through another"),
                    Node::Group(a) | Node::Array(a) => {
                        ok("an attribute is set", r);
                        a["k"] = json!(v);
                    }
                }
            }
            4 => {
                let d = bytes(&format!("d{}_", i), 2);
                ok("a chunk is written", h.write_chunk("n", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[1]), d.clone())));
                data = Some(d);
            }
            5 => {
                check(ok("a chunk is deleted", h.delete_chunk("n", &m, &[1])), "a deleted chunk is gone");
                data = None;
            }
            _ => {
                ok("a node is removed", h.remove("n"));
                node = Node::None;
                data = None;
            }
        }
        for h in &hs {
            check(ok("a node can be tested for", HierarchyReader::exists(h, "n")) == (node != Node::None), "every handle sees which nodes exist");
            let r = h.get_array_metadata("n");
            match &node {
                Node::Array(a) => {
                    let r = ok("every handle reads the metadata of an array", r);
                    check(r.get_shape() == if is_other { other.get_shape() } else { m.get_shape() }, "every handle sees the metadata last stored");
                    let _ = a;
                }
                _ => check(r.err().map(|e| e.kind()) == Some(ErrorKind::NotFound), "no handle sees an array that is not there"),
            }
            let r = h.list_attributes("n");
            match &node {
                Node::None => check(r.err().map(|e| e.kind()) == Some(ErrorKind::NotFound), "no handle sees the attributes of a removed node"),
                Node::Group(a) | Node::Array(a) => check(Value::Object(ok("attributes are listed", r)) == *a, "every handle sees the attributes last set"),
            }
            let c = ok("a chunk is read", h.read_chunk::<u8>("n", &m, gc(&[1])));
            match (&c, &data) {
                (Some(c), Some(d)) => check(eq(c.get_data(), d), "every handle sees the chunk last written"),
                (a, b) => check(a.is_none() && b.is_none(), "every handle sees which chunks exist"),
            }
            let l = ok("nodes are listed", h.list_nodes(""));
            check(l.iter().any(|x| x == "n") || node == Node::None, "every handle lists the nodes that exist");
        }
    }
    reach("handles");
}

// ---- Z31 ------------------------------------------------------------------------
const SCHEMES: [&str; 5] = ["raw", "bzip2", "gzip", "xz", "lz4"];
fn scheme(i: usize) -> CompressionType {
    use zarr::compression::*;
    match i {
        0 => CompressionType::new::<raw::RawCompression>(),
        1 => CompressionType::new::<bzip::Bzip2Compression>(),
        2 => CompressionType::new::<gzip::GzipCompression>(),
        3 => CompressionType::new::<xz::XzCompression>(),
        _ => CompressionType::new::<lz::Lz4Compression>(),
    }
}
fn names(max: u64) {
    let n = choice("len", max + 1) as usize;
    let b = bytes("name", n);
    for &x in &b {
        assume(x < 128);
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let r = some("", no_panic("naming a compression scheme does not panic", || s.parse::<CompressionType>()));
    let mut known = false;
    for (i, w) in SCHEMES.iter().enumerate() {
        let hit = w.len() == n && and_all(w.bytes().zip(&b).map(|(w, &x)| or(x == w, and(w.is_ascii_lowercase(), x == w.to_ascii_uppercase()))));
        if hit {
            known = true;
            match &r {
                Ok(c) => check(*c == scheme(i), "the name of a scheme, in any case, is that scheme with its default settings"),
                Err(_) => check(false, "the name of a scheme is accepted"),
            }
            reach("named");
        }
    }
    check(known || r.is_err(), "other names are refused");
    let i = choice("scheme", 5) as usize;
    let shown = scheme(i).to_string();
    check(shown.eq_ignore_ascii_case(SCHEMES[i]), "a scheme shows its name");
    check(shown.parse::<CompressionType>().ok() == Some(scheme(i)), "the shown name of a scheme names it");
    check(scheme(i).is_default() == (i == 0), "only the raw scheme is the default");
}

// ---- Z32 ------------------------------------------------------------------------
fn sizes() {
    use zarr::DataType;
    if choice("what", 2) == 0 {
        let k = var("bytes", 61, 0, (1 << 61) - 1);
        let d = DataType::Raw { size: (k * 8) as usize };
        check(d.size_of() as u64 == k, "a raw type of 8 n bits has n bytes");
        reach("raw");
        return;
    }
    fn one<T: El + Default>(name: &str, _big: bool)
    where
        VecDataChunk<T>: zarr::chunk::DataChunk<T> + zarr::chunk::ReadableDataChunk + zarr::chunk::WriteableDataChunk,
    {
        let dims: Vec<u64> = (0..3).map(|i| var(&format!("n{}", i), 16, 0, 0xffff)).collect();
        let cs: Vec<u64> = (0..3).map(|i| var(&format!("c{}", i), 8, 1, 255)).collect();
        let m = meta(&dims, &cs, name, "C", Value::Null);
        let d = ok("a declared type is known", m.get_data_type().effective_type());
        check(d.size_of() == T::SIZE, "a data type has the size of its elements");
        check(T::ZARR_TYPE.size_of() == T::SIZE, "an element type is declared with its size");
        check(m.get_ndim() == 3, "an array has as many axes as were declared");
        check(eq64(m.get_shape(), &dims), "an array has the declared shape");
        check(and_all(m.get_chunk_shape().iter().zip(&cs).map(|(a, b)| u64::from(*a) == *b)), "an array has the declared chunk shape");
        check(m.get_num_elements() as u64 == dims[0] * dims[1] * dims[2], "an array has the product of its extents of elements");
        check(m.get_chunk_num_elements() as u64 == cs[0] * cs[1] * cs[2], "a chunk has the product of its extents of elements");
        // and as stored
        let (a, b) = (1 + choice("a", 3), 1 + choice("b", 3));
        let m = meta(&[7, 7], &[a, b], name, "F", Value::Null);
        let h = hier();
        let v = vec![T::default(); (a * b) as usize];
        ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<T, Vec<T>>::new(gc(&[0, 0]), v)));
        let stored = some("a chunk is stored", value(&h, "/data/root/a/c0/0"));
        check(stored.len() == m.get_chunk_num_elements() * d.size_of(), "a stored chunk has the size of its elements");
        reach("sizes");
    }
    for_dtype!(choice("dtype", NDTYPES), one());
}
fn eq64(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len() && and_all(a.iter().zip(b).map(|(a, b)| a == b))
}
/// What the constructor of array metadata makes of its arguments.
fn built() {
    let shape = [u64_("n0"), u64_("n1")];
    let chunk: smallvec::SmallVec<[u32; 6]> = [u32_("c0"), u32_("c1")].iter().cloned().collect();
    let i = choice("scheme", 5) as usize;
    let m = ArrayMetadata::new(gc(&shape), chunk.clone(), f32::ZARR_TYPE, scheme(i));
    check(eq64(m.get_shape(), &shape), "built metadata has the given shape");
    check(and_all(m.get_chunk_shape().iter().zip(chunk.iter()).map(|(a, b)| a == b)), "built metadata has the given chunk shape");
    check(m.get_ndim() == 2, "built metadata has as many axes as were given");
    check(ok("a given type is known", m.get_data_type().effective_type()) == f32::ZARR_TYPE, "built metadata has the given type");
    check(*m.get_compressor() == scheme(i), "built metadata has the given compressor");
    check(m.get_fill_value().is_none(), "built metadata declares no fill value");
    let f: f32 = ok("the fill value is known", m.get_effective_fill_value());
    check(f.to_bits() == 0, "the default fill value is zero");
    reach("built");
}

// ---- Z33 ------------------------------------------------------------------------
fn buffers<T: El + Default>(name: &str, _big: bool)
where
    VecDataChunk<T>: zarr::chunk::DataChunk<T> + zarr::chunk::ReadableDataChunk + zarr::chunk::WriteableDataChunk + zarr::chunk::ReinitDataChunk<T>,
{
    use zarr::chunk::ReinitDataChunk;
    let els = |n: &str, k: usize| -> Vec<T> { (0..k).map(|i| T::of_le(&legal::<T>(bytes(&format!("{}{}_", n, i), T::SIZE)))).collect() };
    let same = |a: &[T], b: &[T]| a.len() == b.len() && and_all(a.iter().zip(b).map(|(a, b)| eq(&(*a).le(), &(*b).le())));
    let (n, k) = (choice("n", 4) as usize, choice("k", 4) as usize);
    let (p, q) = ([u64_("p0"), u64_("p1")], [u64_("q0")]);
    let (x, y) = (els("x", n), els("y", k));
    let zero = T::default().le();
    // as built, owned and borrowed
    let a = VecDataChunk::<T>::new(gc(&p), x.clone());
    let s = SliceDataChunk::<T, &[T]>::new(gc(&p), &x[..]);
    check(and(eq64(a.get_grid_position(), &p), eq64(s.get_grid_position(), &p)), "a chunk is at the position it was built for");
    check(a.get_num_elements() as usize == n && s.get_num_elements() as usize == n, "a chunk has as many elements as it was built with");
    check(and(same(a.get_data(), &x), same(s.get_data(), &x)), "a chunk has the elements it was built with");
    // as another chunk, whatever it was before
    let mut b = VecDataChunk::<T>::new(gc(&q), y.clone());
    b.reinitialize_with(&s);
    check(eq64(b.get_grid_position(), &p), "a copied chunk is at the position of its source");
    check(b.get_num_elements() as usize == n && same(b.get_data(), &x), "a copied chunk has the elements of its source and no others");
    // as a fresh chunk
    let mut c = VecDataChunk::<T>::new(gc(&q), y.clone());
    c.reinitialize(&gc(&p), n as u32);
    check(eq64(c.get_grid_position(), &p), "a reinitialised chunk is at its new position");
    check(c.get_num_elements() as usize == n && c.get_data().len() == n, "a reinitialised chunk has its new number of elements");
    let d = T::create_data_chunk(&gc(&p), n as u32);
    check(eq64(d.get_grid_position(), &p), "a created chunk is at its position");
    check(d.get_data().len() == n && and_all(d.get_data().iter().map(|e| eq(&(*e).le(), &zero))), "a created chunk has that many default elements");
    // in an array
    let cs = [3, 64];
    assume(and(p[0] < 1 << 31, p[1] < 1 << 31));
    let m = meta(&[1 << 62, 1 << 62], &cs, name, "C", Value::Null);
    let bb = a.get_bounds(&m);
    check(and_all(bb.end().zip(p.iter().zip(&cs)).map(|(e, (p, c))| e == (p + 1) * c)), "the bounds of a chunk end where the next begins");
    check(and_all(bb.shape_chunk().iter().zip(&cs).map(|(a, c)| u64::from(*a) == *c)), "the bounds of a chunk have the chunk's shape");
    check(same(&a.into_data(), &x), "a chunk gives back the elements it was built with");
    reach("buffers");
}
/// A bit pattern that is a value of the type.
fn legal<T: El>(b: Vec<u8>) -> Vec<u8> {
    if T::ZARR_TYPE == zarr::DataType::Bool {
        assume(b[0] < 2);
    }
    b
}
/// A chunk type of a user: elements kept as pairs, as the traits allow.
struct Mine {
    at: GridCoord,
    v: Vec<u16>,
    log: Vec<u64>,
}
impl zarr::chunk::DataChunk<u16> for Mine {
    fn get_grid_position(&self) -> &[u64] {
        &self.at
    }
    fn get_data(&self) -> &[u16] {
        &self.v
    }
    fn get_num_elements(&self) -> u32 {
        self.v.len() as u32
    }
}
impl zarr::chunk::ReinitDataChunk<u16> for Mine {
    fn reinitialize(&mut self, p: &GridCoord, n: u32) {
        self.at = p.clone();
        self.v.resize(n as usize, 0);
        self.log.push(u64::from(n));
    }
    fn reinitialize_with<B: zarr::chunk::DataChunk<u16>>(&mut self, other: &B) {
        self.at = other.get_grid_position().into();
        self.v = other.get_data().to_vec();
    }
}
impl zarr::chunk::ReadableDataChunk for Mine {
    fn read_data<R: Read>(&mut self, mut r: R, _: &ArrayMetadata) -> std::io::Result<()> {
        for x in self.v.iter_mut() {
            let mut b = [0; 2];
            r.read_exact(&mut b)?;
            *x = u16::from_le_bytes([b[0] ^ 0x5a, b[1]]);
        }
        Ok(())
    }
}
impl zarr::chunk::WriteableDataChunk for Mine {
    fn write_data<W: Write>(&self, mut w: W, _: &ArrayMetadata) -> std::io::Result<()> {
        for x in &self.v {
            let b = x.to_le_bytes();
            w.write_all(&[b[0] ^ 0x5a, b[1]])?;
        }
        Ok(())
    }
}
/// Chunks of a user's own type are written and read by its own methods.
fn own_chunks() {
    let h = hier();
    let m = meta(&[5, 4], &[2, 1], "<u2", "C", Value::Null);
    let x = [bytes("x0_", 2), bytes("x1_", 2)];
    let v: Vec<u16> = x.iter().map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
    let at = [choice("i", 3), choice("j", 4)];
    let n = choice("n", 4) as usize;
    let mut old = Mine { at: gc(&[7]), v: vec![9; n], log: vec![] };
    check(!ok("a chunk is looked up", h.read_chunk_into::<u16, _>("a", &m, gc(&at), &mut old)).is_some(), "a chunk that was never written is absent");
    ok("a chunk of a user's type is written", h.write_chunk("a", &m, &Mine { at: gc(&at), v: v.clone(), log: vec![] }));
    let b = some("a chunk is stored", value(&h, &format!("/data/root/a/c{}/{}", at[0], at[1])));
    check(b.len() == 4 && and_all((0..2).map(|i| and(b[2 * i] == x[i][0] ^ 0x5a, b[2 * i + 1] == x[i][1]))), "a chunk of a user's type is stored as it writes itself");
    old.log.clear();
    some("a chunk is there", ok("a chunk of a user's type is read", h.read_chunk_into::<u16, _>("a", &m, gc(&at), &mut old)));
    check(old.at[..] == at[..], "a chunk of a user's type is told its position");
    check(old.v.len() == 2 && and_all(old.v.iter().zip(&v).map(|(a, b)| a == b)), "a chunk of a user's type reads itself back");
    check(old.log.iter().all(|&n| n == 2), "a chunk of a user's type is told the chunk's number of elements");
    // one of another length is refused
    let r = h.write_chunk("a", &m, &Mine { at: gc(&at), v: vec![0; n + 3], log: vec![] });
    check(r.is_err(), "a chunk of a user's type with another number of elements is refused");
    check(value(&h, &format!("/data/root/a/c{}/{}", at[0], at[1])).map_or(false, |c| eq(&c, &b)), "a refused chunk leaves the stored one alone");
    reach("own");
}

// ---- Z34 ------------------------------------------------------------------------
type Out = *mut Option<Result<Option<Value>, ErrorKind>>;
fn other_thread(f: impl FnOnce() -> std::io::Result<Option<Value>> + 'static) -> Out {
    let out: Out = Box::leak(Box::new(None));
    spawn(move || {
        let r = no_panic("concurrent operations do not panic", f);
        unsafe { *out = r.map(|r| r.map_err(|e| e.kind())) };
    });
    out
}
fn concurrent_meta(k: u64, preemptions: u64) {
    let mut d = doc(&[4], &[2], json!("u1"), "C", json!(7));
    d["attributes"] = json!({ "k": "v" });
    let m: &'static ArrayMetadata = Box::leak(Box::new(meta_of(d.clone())));
    d["shape"] = json!([1234567]);
    let m2: &'static ArrayMetadata = Box::leak(Box::new(meta_of(d)));
    let h: &'static FilesystemHierarchy = Box::leak(Box::new(hier()));
    ok("an array is created", h.create_array("a", m));
    ok("a group is created", h.create_group("g"));
    let fresh: &'static str = Box::leak(format!("{}/h2", base()).into_boxed_str());
    let list = move |p: &str| h.list_attributes(p).map(|a| Some(Value::Object(a)));
    let load = move |p: &str| h.get_array_metadata(p).map(|m| serde_json::to_value(&m).ok());
    let nodes = move || h.list_nodes("").map(|l| Some(json!(l)));
    let none = |r: std::io::Result<()>| r.map(|_| None);
    let long = "long".repeat(20);
    let a = other_thread(move || match k {
        0 | 2 => {
            let mut both = serde_json::Map::new();
            both.insert("x".to_string(), json!(long));
            both.insert("y".to_string(), json!([1]));
            none(h.set_attributes("a", both))
        }
        1 => none(h.set_attribute("a", "x".to_string(), 1)),
        3 | 4 => none(h.create_array("n", m)),
        5 => FilesystemHierarchy::open_or_create(fresh).map(|_| None),
        6 | 10 => none(h.remove("a")),
        7 | 9 => none(h.create_group("x/y")),
        8 => none(h.set_attribute("g", "x".to_string(), 1)),
        _ => none(h.set_attribute("a", "k".to_string(), 1)),
    });
    let b = other_thread(move || match k {
        0 | 6 => list("a"),
        1 => none(h.set_attribute("a", "y".to_string(), 2)),
        2 => load("a"),
        3 => load("n"),
        4 => none(h.create_array("n", m2)),
        5 => FilesystemHierarchy::open_or_create(fresh).map(|_| None),
        7 => none(h.create_array("x/z", m)),
        8 => none(h.create_group("g")),
        9 | 10 => nodes(),
        _ => HierarchyReader::exists(h, "a").map(|b| Some(json!(b))),
    });
    join(preemptions);
    let ra = some("every concurrent operation comes to an end", unsafe { (*a).take() });
    let rb = some("every concurrent operation comes to an end", unsafe { (*b).take() });
    let was = json!({ "k": "v" });
    let whole = serde_json::to_value(m).unwrap_or_default();
    if k == 0 || k == 2 {
        check(ra.is_ok(), "setting attributes next to a read succeeds");
        let now = Value::Object(ok("attributes are listed", h.list_attributes("a")));
        check(now == json!({ "k": "v", "x": "long".repeat(20), "y": [1] }), "attributes set next to a read are stored");
        check(rb != Err(ErrorKind::NotFound), "a node exists while attributes of it are set");
        if let Ok(Some(v)) = &rb {
            if k == 0 {
                check(*v == was || *v == now, "a concurrent reader sees the attributes before or after an update");
            } else {
                let mut after = whole.clone();
                after["attributes"] = now;
                check(*v == whole || *v == after, "a concurrent reader sees the metadata before or after an update");
            }
            reach("read");
        }
    }
    if k == 1 {
        check(ra.is_ok() || rb.is_ok(), "one of two concurrent updates succeeds");
        let now = Value::Object(ok("attributes are listed", h.list_attributes("a")));
        let (x, y) = (json!({ "k": "v", "x": 1 }), json!({ "k": "v", "y": 2 }));
        check(now == x && ra.is_ok() || now == y && rb.is_ok() || now == json!({ "k": "v", "x": 1, "y": 2 }), "two concurrent updates leave the attributes of one of them, or both");
        check(ok("array metadata is read", h.get_array_metadata("a")).get_shape() == m.get_shape(), "concurrent updates leave the rest of the metadata alone");
    }
    if k == 3 {
        check(ra.is_ok(), "an array is created next to a read");
        check(ok("array metadata is read", h.get_array_metadata("n")) == *m, "a created array has the given metadata");
        if let Ok(Some(v)) = &rb {
            check(*v == whole, "a concurrent reader sees the whole metadata of a new array, or none");
            reach("read");
        }
    }
    if k == 4 {
        check(ra.is_ok() || rb.is_ok(), "one of two concurrent creations succeeds");
        let now = ok("array metadata is read", h.get_array_metadata("n"));
        check(now == *m && ra.is_ok() || now == *m2 && rb.is_ok(), "an array created twice at once has the metadata of a creation that succeeded");
    }
    if k == 5 {
        check(ra.is_ok() || rb.is_ok(), "one of two concurrent creations of a hierarchy succeeds");
        let h2 = ok("a hierarchy created twice at once opens", FilesystemHierarchy::open(fresh));
        check(serde_json::to_value(zarr::Hierarchy::get_entry_point_metadata(&h2)).ok() == serde_json::to_value(zarr::Hierarchy::get_entry_point_metadata(h)).ok(), "a hierarchy created twice at once is as created once");
    }
    if k == 6 || k == 10 {
        check(ra.is_ok(), "a node is removed next to a read");
        check(!ok("a node can be tested for", HierarchyReader::exists(h, "a")), "a node removed next to a read is gone");
        if let Ok(Some(v)) = &rb {
            if k == 6 {
                check(*v == was, "a concurrent reader sees the attributes of a node, or that it is gone");
            } else {
                check(v.as_array().map_or(false, |l| l.contains(&json!("g")) && l.iter().all(|n| n == "a" || n == "g")), "a concurrent listing has the other nodes");
            }
            reach("read");
        }
    }
    if k == 7 {
        check(ra.is_ok() && rb.is_ok(), "creations of different nodes do not make each other fail");
        check(ok("a node can be tested for", HierarchyReader::exists(h, "x/y")) && ok("array metadata is read", h.get_array_metadata("x/z")) == *m, "nodes created at once both exist");
    }
    if k == 8 {
        check(ra.is_ok(), "an attribute is set next to a creation");
        let now = Value::Object(ok("attributes are listed", h.list_attributes("g")));
        check(now == json!({ "x": 1 }), "creating a group that exists leaves an attribute set at the same time");
    }
    if k == 9 {
        check(ra.is_ok(), "a group is created next to a listing");
        if let Ok(Some(v)) = &rb {
            check(v.as_array().map_or(false, |l| l.contains(&json!("g")) && l.contains(&json!("a")) && l.iter().all(|n| n == "a" || n == "g" || n == "x")), "a concurrent listing has the other nodes");
            reach("read");
        }
    }
    if k == 11 {
        check(rb == Ok(Some(json!(true))), "a node exists while an attribute of it is set");
    }
    if k != 6 && k != 10 {
        check(ok("a node can be tested for", HierarchyReader::exists(h, "a")), "other nodes keep existing");
    }
    check(ok("attributes are listed", h.list_attributes("g")).len() == usize::from(k == 8), "other nodes keep their attributes");
    reach("done");
}

entries! {
/// Z34
h_concurrent_meta => {
    let n = param(2);
    if n > 0 {
        short_writes(n);
        short_reads(n);
    }
    concurrent_meta(param(0), param(1));
}
/// Z33
h_buffers => { for_dtype!(choice("dtype", NDTYPES), buffers()); }
h_own_chunks => { own_chunks(); }
/// Z28
h_store_map => { store_map(param(0) as usize, if param(1) == 0 { &[0, 1, 2, 3, 4] } else { &[0, 4] }); }
h_store_long => { store_long(); }
h_store_names => { store_names(); }
h_store_doc => { store_doc(param(0) as usize); }
/// Z29
h_reads => { reads(); }
/// Z30
h_handles => { handles(param(0) as usize); }
/// Z31
h_names => { names(param(0)); }
/// Z32
h_sizes => { sizes(); }
h_built => { built(); }
}
