//! Z14, Z15: keys and paths.
use crate::some_or_return;
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Value};
use zarr::chunk::{DataChunk, SliceDataChunk};
use zarr::prelude::*;
use zarr::storage::{get_chunk_key, ListableStore, ReadableStore, WriteableStore};

/// `k` arbitrary ASCII characters.
fn text(name: &str, k: usize) -> String {
    let b = bytes(name, k);
    assume(and_all(b.iter().map(|&x| x < 0x80)));
    unsafe { String::from_utf8_unchecked(b) }
}
fn trimmed(p: &[u8]) -> &[u8] {
    let mut a = 0;
    let mut b = p.len();
    while a < b && p[a] == b'/' {
        a += 1;
    }
    while b > a && p[b - 1] == b'/' {
        b -= 1;
    }
    &p[a..b]
}
fn decimal(mut x: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        v.insert(0, b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            return v;
        }
    }
}
fn arr(axes: usize, sep: &str) -> ArrayMetadata {
    let mut d = doc(&vec![u64::MAX; axes], &vec![1; axes], json!("u1"), "C", Value::Null);
    d["chunk_grid"]["separator"] = json!(sep);
    meta_of(d)
}
fn coord(name: &str, most: u64) -> u64 {
    match choice(&format!("{}w", name), 3) {
        0 => var(name, 64, 0, most),
        1 => (1 << 32) - 8 + var(name, 64, 0, 15),
        _ => u64::MAX - var(name, 64, 0, 15),
    }
}
fn key_format(plen: usize, most: u64) {
    let sep = ["/", ".", "-"][choice("separator", 3) as usize];
    let axes = choice("axes", 3) as usize;
    let m = arr(axes, sep);
    let p = text("path", plen);
    let pos: Vec<u64> = (0..axes).map(|i| coord(&format!("i{}", i), most)).collect();
    let k = some_or_return!(no_panic("forming a chunk key does not panic", || get_chunk_key(&p, &m, &pos)));
    let mut want = b"/data/root/".to_vec();
    let t = trimmed(p.as_bytes());
    if !t.is_empty() {
        want.extend_from_slice(t);
        want.push(b'/');
    }
    want.push(b'c');
    for (i, &x) in pos.iter().enumerate() {
        if i > 0 {
            want.extend_from_slice(sep.as_bytes());
        }
        want.extend_from_slice(&decimal(x));
    }
    check(eq(k.as_bytes(), &want), "a chunk key is the data root, the node path, 'c' and the coordinates");
    observe("key", k.as_bytes());
    reach("key");
}
/// Positions of `most` axes at most, one coordinate of which varies.
fn key_axes(most: u64) {
    let sep = ["/", ".", "-"][choice("separator", 3) as usize];
    let axes = 3 + choice("axes", most - 2) as usize;
    let m = arr(axes, sep);
    let at = choice("at", axes as u64) as usize;
    let pos: Vec<u64> = (0..axes).map(|i| if i == at { var("i", 64, 0, 120) } else { [3, 0, 17, u64::MAX, 100, 1 << 32, 9, 10][i % 8] }).collect();
    let p = ["a", "", "/x y/z.c/"][choice("path", 3) as usize];
    let k = some_or_return!(no_panic("forming a chunk key does not panic", || get_chunk_key(p, &m, &pos)));
    let mut want = [&b"/data/root/a/c"[..], b"/data/root/c", b"/data/root/x y/z.c/c"][["a", "", "/x y/z.c/"].iter().position(|x| *x == p).unwrap()].to_vec();
    for (i, &x) in pos.iter().enumerate() {
        if i > 0 {
            want.extend_from_slice(sep.as_bytes());
        }
        want.extend_from_slice(&decimal(x));
    }
    check(eq(k.as_bytes(), &want), "a chunk key is the data root, the node path, 'c' and the coordinates");
    reach("key");
}
/// Two positions of one array, or the same position of two nodes.
fn key_distinct(plen: usize, most: u64) {
    let sep = ["/", "."][choice("separator", 2) as usize];
    let axes = 1 + choice("axes", 2) as usize;
    let m = arr(axes, sep);
    let p1: Vec<u64> = (0..axes).map(|i| coord(&format!("i{}", i), most)).collect();
    if choice("what", 2) == 0 {
        let p2: Vec<u64> = (0..axes).map(|i| coord(&format!("j{}", i), most)).collect();
        assume(!and_all((0..axes).map(|i| p1[i] == p2[i])));
        let a = get_chunk_key("a", &m, &p1);
        let b = get_chunk_key("a", &m, &p2);
        check(!eq(a.as_bytes(), b.as_bytes()), "two grid positions never share a key");
    } else {
        // two different nodes, their paths free of slashes at the ends
        let (x, y) = (text("x", plen), text("y", choice("ylen", plen as u64 + 1) as usize));
        assume(x.as_bytes()[0] != b'/' && x.as_bytes()[plen - 1] != b'/');
        if !y.is_empty() {
            assume(y.as_bytes()[0] != b'/' && y.as_bytes()[y.len() - 1] != b'/');
        }
        assume(!eq(x.as_bytes(), y.as_bytes()));
        let n = arr(choice("axes2", 3) as usize, sep);
        let q: Vec<u64> = (0..n.get_ndim()).map(|i| var(&format!("q{}", i), 64, 0, 9)).collect();
        let a = get_chunk_key(&x, &m, &p1);
        let b = get_chunk_key(&y, &n, &q);
        check(!eq(a.as_bytes(), b.as_bytes()), "chunks of different nodes never share a key");
    }
    reach("distinct");
}
/// The URI names the file that holds the chunk.
fn chunk_uri() {
    let h = hier();
    let sep = ["/", "."][choice("separator", 2) as usize];
    let mut d = doc(&[40, 300], &[1, 1], json!("u1"), "C", Value::Null);
    d["chunk_grid"]["separator"] = json!(sep);
    let m = meta_of(d);
    let p = ["a", "/a", "a/", "//a/b//", "", "/", "x.y/z", "c", "c0/c1"][choice("path", 9) as usize];
    let pos = [[0u64, 0], [1, 11], [11, 1], [39, 299]][choice("pos", 4) as usize];
    let v = bytes("v", 1);
    let before = mutations();
    let u = ok("a chunk has a URI", h.get_chunk_uri(p, &m, &pos));
    check(mutations() == before, "asking for a URI changes nothing");
    ok("a well-formed chunk is written", h.write_chunk(p, &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&pos), v.clone())));
    let f = some("a chunk URI is a file URI", u.strip_prefix("file://"));
    let b = ok("a chunk URI names the chunk's file", std::fs::read(f));
    check(eq(&b, &v), "a chunk URI names the file that holds the chunk");
    let t = std::str::from_utf8(trimmed(p.as_bytes())).unwrap_or("");
    let want = format!("{}/data/root/{}{}c{}{}{}", base(), t, if t.is_empty() { "" } else { "/" }, pos[0], sep, pos[1]);
    check(f == want, "a chunk is stored under its key");
    let s = snap();
    let r = some("the chunk is found", ok("a chunk is read", h.read_chunk::<u8>(p, &m, gc(&pos))));
    check(eq(r.get_data(), &v), "the chunk is found under its key");
    check(same(s, ""), "reading changes nothing");
    reach("uri");
}

// ---- Z15 ------------------------------------------------------------------------
/// Does the path leave its starting directory at any point?
fn leaves(p: &[u8]) -> bool {
    let mut depth = 0i64;
    let mut i = 0;
    while i < p.len() {
        if p[i] == b'/' {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < p.len() && p[j] != b'/' {
            j += 1;
        }
        let c = &p[i..j];
        if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
            depth -= 1;
            if depth < 0 {
                return true;
            }
        } else if !(c.len() == 1 && c[0] == b'.') {
            depth += 1;
        }
        i = j;
    }
    false
}
/// Any key of `n` characters: refused exactly if it leaves the base directory.
fn any_key(n: usize) {
    let h = hier();
    let k = text("key", n);
    let r = some_or_return!(no_panic("resolving a key does not panic", || h.uri(&k)));
    let out = leaves(k.as_bytes());
    check(r.is_err() == out, "a key is refused exactly if it leaves the base directory at some point");
    if let Ok(u) = r {
        let b = base();
        let f = some("a key's URI is a file URI", u.strip_prefix("file://"));
        check(f.len() >= b.len() && eq(&f.as_bytes()[..b.len()], b.as_bytes()), "a key resolves to a path under the base directory");
        check(f.len() == b.len() || f.as_bytes()[b.len()] == b'/', "a key resolves to a path under the base directory");
        check(!leaves(&f.as_bytes()[b.len()..]), "a key resolves to a path that stays under the base directory");
    }
    reach(if out { "refused" } else { "accepted" });
}
/// Keys of many components.
fn deep_key(most: u64) {
    let h = hier();
    let unit = ["a/", "a/../", "./", "a/b/../../", "../a/", "a//./", "longer-name/../"][choice("unit", 7) as usize];
    let k = choice("n", most + 16) as usize;
    let n = if k < most as usize { k } else { [30, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257][k - most as usize] };
    let tail = ["", "..", "../sentinel", "a/../../b", "b"][choice("tail", 5) as usize];
    let k = format!("{}{}{}", ["", "/"][choice("lead", 2) as usize], unit.repeat(n), tail);
    let out = leaves(k.as_bytes());
    let r = some_or_return!(no_panic("resolving a key does not panic", || h.uri(&k)));
    check(r.is_err() == out, "a key is refused exactly if it leaves the base directory at some point");
    let g = some_or_return!(no_panic("looking up a key does not panic", || h.exists_(&k)));
    check(!out || g.is_err(), "a key that leaves the base directory is refused");
    reach(if out { "refused" } else { "accepted" });
}
fn parts(n: usize) -> String {
    let c = ["..", "a", ".", "", "zarr.json", "...", "b"];
    let v: Vec<&str> = (0..n).map(|i| c[choice(&format!("c{}", i), if n > 4 { 4 } else { 7 }) as usize]).collect();
    let lead = if choice("lead", 2) == 1 { "/" } else { "" };
    format!("{}{}", lead, v.join("/"))
}
/// A sentinel beside the hierarchy that no operation may touch.
fn outside() -> (String, u64) {
    let b = base();
    let up = std::path::Path::new(&b).parent().and_then(|p| p.to_str()).unwrap_or("/").to_string();
    (format!("{}/sentinel", up), 0)
}
fn store_ops(n: usize) {
    let h = hier();
    ok("directory", std::fs::create_dir_all(format!("{}/a/b", base())));
    ok("file", std::fs::write(format!("{}/a/b/k", base()), b"1"));
    let (s, _) = outside();
    if is_engine() {
        // the replayer lets nothing outside the base directory be changed
        ok("sentinel", std::fs::write(&s, b"2"));
    }
    let tail = ["", "/sentinel", "/a", "/k"][choice("tail", 4) as usize];
    let k = format!("{}{}", parts(n), tail);
    let out = leaves(k.as_bytes());
    let e0 = escaped();
    let op = choice("op", 8);
    let r = no_panic("a store operation on any key does not panic", || match op {
        0 => h.exists_(&k),
        1 => h.get(&k).map(|_| ()),
        2 => h.uri(&k).map(|_| ()),
        3 => h.set(&k, |mut w| std::io::Write::write_all(&mut w, b"3")),
        4 => h.erase(&k).map(|_| ()),
        5 => h.erase_prefix(&k).map(|_| ()),
        6 => h.list_dir(&k).map(|_| ()),
        // refuses what is no metadata as well
        _ => h.get_attributes(&k).map(|_| ()),
    });
    let r = some_or_return!(r);
    check(escaped() == e0, "no operation touches anything outside the base directory");
    check(!out || r.is_err(), "a key that leaves the base directory is refused");
    if is_engine() {
        check(ok("the sentinel is there", std::fs::read(&s)) == b"2", "nothing outside the base directory changes");
        ok("cleanup", std::fs::remove_file(&s));
    }
    reach(if out { "refused" } else { "accepted" });
}
trait Exists {
    fn exists_(&self, k: &str) -> std::io::Result<()>;
}
impl Exists for FilesystemHierarchy {
    fn exists_(&self, k: &str) -> std::io::Result<()> {
        ReadableStore::exists(self, k).map(|_| ())
    }
}
fn node_ops(n: usize) {
    let h = hier();
    let m = meta(&[4], &[2], "u1", "C", Value::Null);
    ok("array created", h.create_array("a", &m));
    let (s, _) = outside();
    if is_engine() {
        // the replayer lets nothing outside the base directory be changed
        ok("sentinel", std::fs::write(&s, b"2"));
    }
    let tail = ["", "/sentinel"][choice("tail", 2) as usize];
    let p = format!("{}{}", parts(n), tail);
    // the keys of the node lie two levels below the base directory
    let out = leaves(format!("x/y/{}", p.trim_matches('/')).as_bytes());
    let e0 = escaped();
    let op = choice("op", 10);
    let r = no_panic("an operation on any node path does not panic", || match op {
        0 => HierarchyReader::exists(&h, &p).map(|_| ()),
        1 => h.get_array_metadata(&p).map(|_| ()),
        2 => h.list_attributes(&p).map(|_| ()),
        3 => h.list_nodes(&p).map(|_| ()),
        4 => h.create_group(&p),
        5 => h.create_array(&p, &m),
        6 => h.remove(&p),
        7 => h.set_attribute(&p, "k".to_string(), 1),
        8 => h.write_chunk(&p, &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), vec![1, 2])),
        _ => h.delete_chunk(&p, &m, &[0]).map(|_| ()),
    });
    let r = some_or_return!(r);
    check(escaped() == e0, "no operation touches anything outside the base directory");
    // list_nodes of a path that does not exist may be empty rather than an error
    check(!out || r.is_err(), "a node path that leaves the base directory is refused");
    if is_engine() {
        check(ok("the sentinel is there", std::fs::read(&s)) == b"2", "nothing outside the base directory changes");
        ok("cleanup", std::fs::remove_file(&s));
    }
    reach(if out { "refused" } else { "accepted" });
}

entries! {
/// Z14
h_key_format => { key_format(param(0) as usize, param(1)); }
h_key_axes => { key_axes(param(0)); }
h_deep_key => { deep_key(param(0)); }
h_key_distinct => { key_distinct(param(0) as usize, param(1)); }
h_chunk_uri => { chunk_uri(); }
/// Z15
h_any_key => { any_key(param(0) as usize); }
h_store_ops => { store_ops(param(0) as usize); }
h_node_ops => { node_ops(param(0) as usize); }
}
