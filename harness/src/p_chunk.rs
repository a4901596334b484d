//! Z01, Z02, Z04, Z05, Z06, Z24: chunk values.
use crate::{for_dtype, some_or_return};
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Value};
use zarr::chunk::{DataChunk, ReadableDataChunk, ReinitDataChunk, SliceDataChunk, VecDataChunk, WriteableDataChunk};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;
use zarr::storage::{ReadableStore, WriteableStore};

fn m1(dtype: &str, n: u64) -> ArrayMetadata {
    // 2 axes, several chunks of n x 1 elements
    meta(&[3 * n, 4], &[n, 1], dtype, "C", Value::Null)
}
fn same_elems<T: El>(a: &[T], b: &[T]) -> bool {
    eq(&le_all(a), &le_all(b))
}

/// Z01: write, read, read into a used buffer.
fn roundtrip<T: El>(dtype: &str, _big: bool, n: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = hier();
    let m = m1(dtype, n as u64);
    let pos = [2u64, 3];
    let v: Vec<T> = elems("e", n);
    let c = SliceDataChunk::<T, Vec<T>>::new(gc(&pos), v.clone());
    ok("a well-formed chunk is written", h.write_chunk("a", &m, &c));
    let r: VecDataChunk<T> = some("a written chunk is present", ok("a written chunk is read", h.read_chunk::<T>("a", &m, gc(&pos))));
    check(r.get_data().len() == n, "a chunk is read with all its elements");
    check(same_elems(r.get_data(), &v), "elements are read back bit-identical and in order");
    check(r.get_grid_position() == &pos[..], "a chunk is read with its grid position");
    check(r.get_num_elements() as usize == n, "a chunk reports its element count");
    observe("read", &le_all(r.get_data()));
    // into a buffer with other content and length
    let k = [0, 1, n, n + 3][choice("used", 4) as usize];
    let mut into = SliceDataChunk::<T, Vec<T>>::new(gc(&[7]), elems("old", k));
    some("a written chunk is present", ok("a written chunk is read into a buffer", h.read_chunk_into::<T, _>("a", &m, gc(&pos), &mut into)));
    check(into.get_data().len() == n, "reading into a buffer gives all elements and no others");
    check(same_elems(into.get_data(), &v), "reading into a buffer gives the same elements");
    check(into.get_grid_position() == &pos[..], "reading into a buffer sets the grid position");
    reach("roundtrip");
}

/// Z02: the stored bytes, both ways.
fn layout<T: El>(dtype: &str, big: bool, n: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk,
{
    let h = hier();
    let m = m1(dtype, n as u64);
    let v: Vec<T> = elems("e", n);
    let c = SliceDataChunk::<T, Vec<T>>::new(gc(&[0, 1]), v.clone());
    ok("a well-formed chunk is written", h.write_chunk("a", &m, &c));
    let f = format!("{}/data/root/a/c0/1", base());
    let b = ok("the chunk's file exists", std::fs::read(&f));
    check(b.len() == n * T::SIZE, "an uncompressed chunk holds nothing but its elements");
    check(eq(&b, &to_order(&le_all(&v), T::SIZE, big)), "an uncompressed chunk is its elements in the declared byte order");
    observe("stored", &b);
    // a value stored by another program
    let raw = bytes("raw", n * T::SIZE);
    let f = format!("{}/data/root/a/c1/2", base());
    ok("directory", std::fs::create_dir_all(format!("{}/data/root/a/c1", base())));
    ok("file", std::fs::write(&f, &raw));
    let r = some("the stored value is found", ok("a stored value of the right size is decoded", h.read_chunk::<T>("a", &m, gc(&[1, 2]))));
    check(r.get_data().len() == n, "a stored value is decoded to as many elements");
    let got = le_all(r.get_data());
    if dtype == "bool" {
        check(and_all((0..n).map(|i| (got[i] == 1) == (raw[i] != 0))), "any non-zero byte is true, zero is false");
        check(and_all((0..n).map(|i| got[i] <= 1)), "a boolean is 0 or 1");
    } else {
        check(eq(&to_order(&got, T::SIZE, big), &raw), "a stored value is decoded in the declared byte order");
    }
    observe("decoded", &got);
    reach("layout");
}

/// A store in memory whose readers and writers move a few bytes at a time.
struct Dribble {
    data: std::cell::RefCell<std::collections::BTreeMap<String, Vec<u8>>>,
    entry: zarr::EntryPointMetadata,
    step: usize,
}
struct DribbleReader {
    b: Vec<u8>,
    at: usize,
    step: usize,
}
impl std::io::Read for DribbleReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step.min(buf.len()).min(self.b.len() - self.at);
        buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
struct OwnedWriter(std::rc::Rc<std::cell::RefCell<Vec<u8>>>, usize);
impl std::io::Write for OwnedWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len());
        self.0.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl zarr::Hierarchy for Dribble {
    fn get_entry_point_metadata(&self) -> &zarr::EntryPointMetadata {
        &self.entry
    }
}
impl ReadableStore for Dribble {
    type GetReader = DribbleReader;
    fn exists(&self, key: &str) -> std::io::Result<bool> {
        Ok(self.data.borrow().contains_key(key))
    }
    fn get(&self, key: &str) -> std::io::Result<Option<DribbleReader>> {
        Ok(self.data.borrow().get(key).map(|b| DribbleReader { b: b.clone(), at: 0, step: self.step }))
    }
    fn uri(&self, key: &str) -> std::io::Result<String> {
        Ok(key.to_string())
    }
}
impl WriteableStore for Dribble {
    type SetWriter = OwnedWriter;
    fn set<F: FnOnce(OwnedWriter) -> std::io::Result<()>>(&self, key: &str, value: F) -> std::io::Result<()> {
        let b = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        value(OwnedWriter(b.clone(), self.step))?;
        self.data.borrow_mut().insert(key.to_string(), b.borrow().clone());
        Ok(())
    }
    fn erase(&self, key: &str) -> std::io::Result<bool> {
        self.data.borrow_mut().remove(key);
        Ok(true)
    }
    fn erase_prefix(&self, p: &str) -> std::io::Result<bool> {
        let ks: Vec<String> = self.data.borrow().keys().filter(|k| k.starts_with(p)).cloned().collect();
        for k in ks {
            self.data.borrow_mut().remove(&k);
        }
        Ok(true)
    }
}
fn dribbled<T: El>(dtype: &str, big: bool, n: usize, step: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = Dribble { data: Default::default(), entry: Default::default(), step };
    let m = m1(dtype, n as u64);
    let v: Vec<T> = elems("e", n);
    let c = SliceDataChunk::<T, Vec<T>>::new(gc(&[0, 0]), v.clone());
    ok("a well-formed chunk is written", h.write_chunk("a", &m, &c));
    let b = some("the chunk is stored", h.data.borrow().get("/data/root/a/c0/0").cloned());
    check(eq(&b, &to_order(&le_all(&v), T::SIZE, big)), "an uncompressed chunk is its elements in the declared byte order");
    let r = some("a written chunk is present", ok("a written chunk is read", h.read_chunk::<T>("a", &m, gc(&[0, 0]))));
    check(r.get_data().len() == n, "a chunk is read with all its elements");
    check(same_elems(r.get_data(), &v), "elements are read back bit-identical and in order");
    // the elements alone, without what the library puts between
    let w = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    ok("elements are written to a stream", c.write_data(OwnedWriter(w.clone(), step), &m));
    let w = w.borrow().clone();
    check(eq(&w, &b), "an uncompressed chunk is its elements in the declared byte order");
    let mut d = VecDataChunk::<T>::new(gc(&[0, 0]), v.iter().rev().cloned().collect());
    ok("elements are read from a stream", d.read_data(DribbleReader { b, at: 0, step }, &m));
    check(same_elems(d.get_data(), &v), "elements are read back bit-identical and in order");
    reach("dribbled");
}


// ---- Z04 ------------------------------------------------------------------------
/// A chunk of the wrong element count, over a stored chunk or none.
fn refused_count<T: El>(dtype: &str, _big: bool, n: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk,
{
    let h = hier();
    let m = m1(dtype, n as u64);
    let pos = gc(&[1, 1]);
    ok("array created", h.create_array("a", &m));
    let there = choice("stored", 2) == 1;
    let v: Vec<T> = elems("e", n);
    if there {
        ok("a well-formed chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<T, Vec<T>>::new(pos.clone(), v.clone())));
    }
    let k = choice("count", n as u64 + 3) as usize;
    if k == n {
        return;
    }
    let s = snap();
    let c = SliceDataChunk::<T, Vec<T>>::new(pos.clone(), elems("w", k));
    match no_panic("writing a chunk of the wrong size does not panic", || h.write_chunk("a", &m, &c).is_err()) {
        Some(e) => check(e, "a chunk of the wrong size is refused"),
        None => return,
    }
    check(same(s, ""), "a refused chunk write leaves the store as it was");
    let r = ok("the chunk is readable or absent after a refused write", h.read_chunk::<T>("a", &m, pos));
    check(r.is_some() == there, "a refused write neither creates nor removes the chunk");
    if let Some(r) = r {
        check(same_elems(r.get_data(), &v), "a refused write leaves the stored elements");
    }
    reach("refused");
}
/// A chunk whose elements have another type than the array's.
fn refused_type<T: El>(own: &str, _big: bool, dtype: Value, n: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk,
{
    let h = hier();
    let m = meta_of(doc(&[4 * n as u64], &[n as u64], dtype, "C", Value::Null));
    let good = own_type(m_dtype(&m), own);
    let f = format!("{}/data/root/a/c0", base());
    let there = choice("stored", 2) == 1;
    let raw = bytes("raw", 8 * n);
    ok("directory", std::fs::create_dir_all(format!("{}/data/root/a", base())));
    if there {
        ok("file", std::fs::write(&f, &raw));
    }
    let s = snap();
    let c = SliceDataChunk::<T, Vec<T>>::new(gc(&[0]), elems("w", n));
    let r = some_or_return!(no_panic("writing a chunk of any type does not panic", || h.write_chunk("a", &m, &c).is_ok()));
    check(r == good, "a chunk is written exactly if its element type is the array's");
    if !r {
        check(same(s, ""), "a refused chunk write leaves the store as it was");
        reach("type_refused");
    } else {
        reach("type_accepted");
    }
}
fn m_dtype(m: &ArrayMetadata) -> String {
    match m.get_data_type() {
        zarr::ExtensibleDataType::Core(d) => serde_json::to_value(d).ok().and_then(|v| v.as_str().map(|s| s.to_string())).unwrap_or_default(),
        zarr::ExtensibleDataType::Extended { fallback: Some(d), .. } => {
            serde_json::to_value(d).ok().and_then(|v| v.as_str().map(|s| s.to_string())).unwrap_or_default()
        }
        _ => String::new(),
    }
}
/// The same type, byte order aside.
fn own_type(declared: String, own: &str) -> bool {
    !declared.is_empty() && declared.trim_start_matches(&['<', '>'][..]) == own.trim_start_matches(&['<', '>'][..])
}
pub const DTYPES: [&str; 21] = [
    "bool", "u1", "i1", "<u2", ">u2", "<i2", ">i2", "<f2", ">f2", "<u4", ">u4", "<i4", ">i4", "<f4", ">f4", "<u8", ">u8", "<i8", ">i8", "<f8", ">f8",
];
/// One element type of each Rust type.
const RUST: [u64; 12] = [0, 1, 2, 3, 5, 7, 9, 11, 13, 15, 17, 19];

/// Z05: reads of a stored value by every Rust type.
fn typed_read<T: El>(own: &str, _big: bool, dtype: Value, n: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = hier();
    let m = meta_of(doc(&[4 * n as u64], &[n as u64], dtype, "C", Value::Null));
    let good = own_type(m_dtype(&m), own);
    let raw = bytes("raw", 8 * n);
    ok("directory", std::fs::create_dir_all(format!("{}/data/root/a", base())));
    ok("file", std::fs::write(format!("{}/data/root/a/c0", base()), &raw));
    let r = some_or_return!(no_panic("reading a chunk as any type does not panic", || h.read_chunk::<T>("a", &m, gc(&[0])).is_ok()));
    check(r == good, "a chunk is read exactly if the element type is the array's");
    let mut into = SliceDataChunk::<T, Vec<T>>::new(gc(&[7]), elems("old", n));
    let r = some_or_return!(no_panic("reading a chunk as any type does not panic", || h.read_chunk_into::<T, _>("a", &m, gc(&[0]), &mut into).is_ok()));
    check(r == good, "a chunk is read into a buffer exactly if the element type is the array's");
    let bb = BoundingBox::new(gc(&[0]), gc(&[n as u64 + 1]));
    let r = some_or_return!(no_panic("reading a region as any type does not panic", || h.read_ndarray::<T>("a", &m, &bb).is_ok()));
    check(r == good, "a region is read exactly if the element type is the array's");
    reach(if good { "typed" } else { "untyped" });
}
/// A declared type: plain, with an extension falling back to it, with an
/// extension and no fallback, or a raw one.
fn declared() -> Value {
    let d = DTYPES[choice("declared", NDTYPES) as usize];
    match choice("form", 2) {
        0 => json!(d),
        _ => json!({"extension": "x", "type": "y", "fallback": d}),
    }
}
fn undeclared() -> Value {
    match choice("form", 5) {
        0 => json!({"extension": "x", "type": "y"}),
        1 => json!("r8"),
        2 => json!("r16"),
        3 => json!({"extension": "x", "type": "y", "fallback": "r64"}),
        _ => json!({"extension": "x", "type": "y", "fallback": null}),
    }
}

// ---- Z06 ------------------------------------------------------------------------
fn short<T: El>(dtype: &str, _big: bool, n: usize)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = hier();
    let m = m1(dtype, n as u64);
    let full = n * T::SIZE;
    let k = choice("stored", full as u64 + 3) as usize;
    let raw = bytes("raw", k);
    ok("directory", std::fs::create_dir_all(format!("{}/data/root/a/c0", base())));
    ok("file", std::fs::write(format!("{}/data/root/a/c0/0", base()), &raw));
    let r = some_or_return!(no_panic("reading a stored value of any size does not panic", || h.read_chunk::<T>("a", &m, gc(&[0, 0]))));
    check(r.is_ok() == (k >= full), "a stored value is decoded exactly if it holds all elements");
    if let Ok(r) = r {
        let r = some("a stored chunk is found", r);
        check(r.get_data().len() == n, "a chunk has as many elements as its shape says");
    }
    let mut into = SliceDataChunk::<T, Vec<T>>::new(gc(&[7]), elems("old", n + 1));
    let r = some_or_return!(no_panic("reading a stored value of any size does not panic", || h.read_chunk_into::<T, _>("a", &m, gc(&[0, 0]), &mut into)));
    check(r.is_ok() == (k >= full), "a stored value is read into a buffer exactly if it holds all elements");
    if r.is_ok() {
        check(into.get_data().len() == n, "a chunk read into a buffer has as many elements as its shape says");
    }
    // and through a region
    let bb = BoundingBox::new(gc(&[0, 0]), gc(&[n as u64, 1]));
    let r = some_or_return!(no_panic("reading a region over a value of any size does not panic", || h.read_ndarray::<T>("a", &m, &bb)));
    check(r.is_ok() == (k >= full), "a region is read exactly if its chunks hold all elements");
    reach(if k < full { "short" } else { "complete" });
}
/// Chunk shapes of more elements than a chunk can have.
fn huge() {
    let big: [u64; 7] = [1 << 16, 1 << 31, (1 << 32) - 1, 3 << 30, 1 << 11, 65537, 5];
    let n = 2 + choice("axes", 3) as usize;
    let cs: Vec<u64> = (0..n).map(|i| big[choice(&format!("c{}", i), 7) as usize]).collect();
    let total: u128 = cs.iter().map(|&c| c as u128).product();
    if total < 1 << 32 {
        return;
    }
    let h = hier();
    let m = meta(&cs, &cs, "u1", "C", Value::Null);
    let zero = vec![0u64; n];
    let key = zarr::storage::get_chunk_key("a", &m, &zero);
    let f = format!("{}{}", base(), key);
    if let Some(p) = std::path::Path::new(&f).parent() {
        ok("directory", std::fs::create_dir_all(p));
    }
    ok("file", std::fs::write(&f, bytes("raw", 4)));
    let r = some_or_return!(no_panic("reading a chunk too large to represent does not panic", || h.read_chunk::<u8>("a", &m, gc(&zero)).is_err()));
    check(r, "a chunk too large to represent is not read");
    let mut into = SliceDataChunk::<u8, Vec<u8>>::new(gc(&[7]), vec![9]);
    let r = some_or_return!(no_panic("reading a chunk too large to represent does not panic", || h.read_chunk_into::<u8, _>("a", &m, gc(&zero), &mut into).is_err()));
    check(r, "a chunk too large to represent is not read into a buffer");
    let s = snap();
    let c = SliceDataChunk::<u8, Vec<u8>>::new(gc(&zero), bytes("w", 2));
    let r = some_or_return!(no_panic("writing a chunk too large to represent does not panic", || h.write_chunk("a", &m, &c).is_err()));
    check(r, "a chunk of the wrong size is refused");
    check(same(s, ""), "a refused chunk write leaves the store as it was");
    reach("huge");
}

// ---- Z24 ------------------------------------------------------------------------
fn independent(steps: usize, sep: &str, kind: u64) {
    let h = hier();
    let n = if kind == 1 || kind == 2 { 1 } else { 2 };
    let mut d = doc(&[30, 30], &[1, n], json!("u1"), "C", if kind % 2 == 1 { json!(u8_("fill") as u64) } else { Value::Null });
    if kind >= 3 {
        d["compressor"] = json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {"level": 6}});
    }
    d["chunk_grid"]["separator"] = json!(sep);
    let m = meta_of(d);
    let at: [(&str, [u64; 2]); 6] = [("a", [1, 11]), ("a", [11, 1]), ("a", [1, 1]), ("/a/b/", [1, 1]), ("a1", [1, 1]), ("ab", [11, 1])];
    let mut want: Vec<Option<Vec<u8>>> = vec![None; 6];
    // something already there
    let first = choice("first", 6) as usize;
    for i in 0..steps {
        let k = if i == 0 { first } else { choice(&format!("at{}", i), 6) as usize };
        let (p, pos) = at[k];
        if i == 0 || choice(&format!("op{}", i), 2) == 0 {
            let v = bytes(&format!("v{}", i), n as usize);
            ok("a well-formed chunk is written", h.write_chunk(p, &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&pos), v.clone())));
            want[k] = Some(v);
        } else {
            check(ok("a chunk is deleted", h.delete_chunk(p, &m, &pos)), "deleting a chunk reports that it is absent");
            want[k] = None;
        }
    }
    for (k, w) in want.iter().enumerate() {
        let (p, pos) = at[k];
        let r = ok("a chunk can be looked up", h.read_chunk::<u8>(p, &m, gc(&pos)));
        check(r.is_some() == w.is_some(), "exactly the chunks written and not deleted since are present");
        if let (Some(r), Some(w)) = (r, w) {
            check(eq(r.get_data(), w), "the last write to a chunk is what is read");
        }
        let mut into = SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), vec![1, 2, 3]);
        let r = ok("a chunk can be looked up", h.read_chunk_into::<u8, _>(p, &m, gc(&pos), &mut into));
        check(r.is_some() == w.is_some(), "exactly the chunks written and not deleted since are present");
        if let (Some(_), Some(w)) = (r, w) {
            check(eq(into.get_data(), w), "the last write to a chunk is what is read");
        }
    }
    reach("independent");
}
/// Deleting a chunk while system calls fail.
fn delete_fault(budget: u64) {
    let h = hier();
    let m = meta(&[4, 4], &[1, 2], "u1", "C", Value::Null);
    let v = bytes("v", 2);
    let pos = [1u64, 1];
    let there = choice("stored", 2) == 1;
    if there {
        ok("a well-formed chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&pos), v.clone())));
    }
    fault(F_OPEN | F_STAT | F_FLOCK | F_UNLINK, budget);
    let r = no_panic("a failing deletion does not panic", || h.delete_chunk("a", &m, &pos));
    fault(0, 0);
    let r = some_or_return!(r);
    let left = std::path::Path::new(&format!("{}/data/root/a/c1/1", base())).exists();
    if let Ok(gone) = r {
        check(gone == !left, "deletion reports success exactly when the chunk is absent");
    }
    if left {
        check(there, "deletion creates nothing");
        let r = some("the chunk is there", ok("a chunk that was not deleted is readable", h.read_chunk::<u8>("a", &m, gc(&pos))));
        check(eq(r.get_data(), &v), "a chunk that was not deleted is unchanged");
    }
    reach(if faults_fired() > 0 { "fault" } else { "nofault" });
}

entries! {
h_roundtrip => { for_dtype!(choice("dtype", NDTYPES), roundtrip(param(0) as usize)); }
/// More elements than the library's internal buffers hold.
h_roundtrip_long => { for_dtype!([0, 1, 2, 4, 6, 8, 12, 14, 18, 20][choice("dtype", 10) as usize], roundtrip(param(0) as usize)); }
h_layout => { for_dtype!(choice("dtype", NDTYPES), layout(param(0) as usize)); }
h_layout_long => { for_dtype!([0, 1, 2, 4, 6, 8, 12, 14, 18, 20][choice("dtype", 10) as usize], layout(param(0) as usize)); }
/// A store that moves data in pieces of `param(1)` bytes.
h_dribble => { for_dtype!(choice("dtype", NDTYPES), dribbled(param(0) as usize, param(1) as usize)); }
/// Z04
h_refused_count => { for_dtype!(choice("dtype", NDTYPES), refused_count(param(0) as usize)); }
h_refused_type => { for_dtype!(RUST[choice("type", 12) as usize], refused_type(declared(), param(0) as usize)); }
h_refused_ext => { for_dtype!(RUST[choice("type", 12) as usize], refused_type(undeclared(), param(0) as usize)); }
/// Z05
h_typed_read => { for_dtype!(RUST[choice("type", 12) as usize], typed_read(declared(), param(0) as usize)); }
h_typed_ext => { for_dtype!(RUST[choice("type", 12) as usize], typed_read(undeclared(), param(0) as usize)); }
/// Z06
h_short => { for_dtype!(choice("dtype", NDTYPES), short(param(0) as usize)); }
h_huge => { huge(); }
/// Z24
h_independent => { let s = ["/", "."][choice("separator", 2) as usize]; independent(param(0) as usize, s, param(1)); }
h_delete_fault => { delete_fault(param(0)); }
}
