//! Z10, Z11, Z12, Z13: regions, memory order and fill values.
use crate::sym::*;
use crate::util::*;
use crate::{for_dtype, some_or_return};
use ndarray::{Array, ArrayD, ArrayView, IxDyn, ShapeBuilder};
use serde_json::{json, Value};
use zarr::chunk::{DataChunk, ReadableDataChunk, ReinitDataChunk, SliceDataChunk, VecDataChunk, WriteableDataChunk};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;

pub struct Cfg {
    pub shape: Vec<u64>,
    pub chunk: Vec<u64>,
    pub f: bool,
    pub dtype: &'static str,
    pub size: usize,
    pub big: bool,
}
impl Cfg {
    pub fn axes(&self) -> usize {
        self.shape.len()
    }
    pub fn csize(&self) -> usize {
        self.chunk.iter().product::<u64>() as usize
    }
    pub fn grid(&self) -> Vec<Vec<u64>> {
        let ext: Vec<u64> = (0..self.axes()).map(|i| (self.shape[i] + self.chunk[i] - 1) / self.chunk[i]).collect();
        cells(&ext)
    }
    /// The position of a cell within its chunk's linear data.
    pub fn linear(&self, cell: &[u64]) -> usize {
        let n = self.axes();
        let mut l = 0u64;
        if self.f {
            for i in (0..n).rev() {
                l = l * self.chunk[i] + cell[i] % self.chunk[i];
            }
        } else {
            for i in 0..n {
                l = l * self.chunk[i] + cell[i] % self.chunk[i];
            }
        }
        l as usize
    }
    pub fn file(&self, pos: &[u64]) -> String {
        let c: Vec<String> = pos.iter().map(|c| c.to_string()).collect();
        format!("{}/data/root/a/c{}", base(), c.join("/"))
    }
    pub fn order(&self) -> &'static str {
        if self.f {
            "F"
        } else {
            "C"
        }
    }
}
/// Every index below `ext`, in row-major order.
pub fn cells(ext: &[u64]) -> Vec<Vec<u64>> {
    let mut r = vec![vec![]];
    for &e in ext {
        r = r.into_iter().flat_map(|p: Vec<u64>| (0..e).map(move |i| { let mut q = p.clone(); q.push(i); q }).collect::<Vec<_>>()).collect();
    }
    r
}
/// What the chunk files hold, by grid position: element bytes, little endian.
pub struct Stored(pub Vec<(Vec<u64>, Option<Vec<u8>>)>);
impl Stored {
    pub fn get(&self, pos: &[u64]) -> Option<&Vec<u8>> {
        self.0.iter().find(|(p, _)| p == pos).and_then(|(_, b)| b.as_ref())
    }
    /// The value of a cell of the array.
    pub fn cell(&self, c: &Cfg, cell: &[u64], fill: &[u8]) -> Vec<u8> {
        let pos: Vec<u64> = (0..c.axes()).map(|i| cell[i] / c.chunk[i]).collect();
        match self.get(&pos) {
            Some(b) => {
                let l = c.linear(cell) * c.size;
                b[l..l + c.size].to_vec()
            }
            None => fill.to_vec(),
        }
    }
}
/// Put arbitrary chunks on disk, following one of a few presence patterns.
fn populate(c: &Cfg, pattern: u64) -> Stored {
    let mut v = vec![];
    for (i, pos) in c.grid().into_iter().enumerate() {
        let there = match pattern {
            0 => true,
            1 => i % 2 == 1,
            2 => i % 2 == 0,
            _ => false,
        };
        if !there {
            v.push((pos, None));
            continue;
        }
        let le = bytes(&format!("s{}", i), c.csize() * c.size);
        let f = c.file(&pos);
        if let Some(d) = std::path::Path::new(&f).parent() {
            ok("directory", std::fs::create_dir_all(d));
        }
        ok("file", std::fs::write(&f, to_order(&le, c.size, c.big)));
        v.push((pos, Some(le)));
    }
    Stored(v)
}
/// What is on disk now, decoded by the harness.
fn load(c: &Cfg) -> Stored {
    let mut v = vec![];
    for pos in c.grid() {
        let f = c.file(&pos);
        if !std::path::Path::new(&f).exists() {
            v.push((pos, None));
            continue;
        }
        let b = ok("a stored chunk is readable", std::fs::read(&f));
        check(b.len() == c.csize() * c.size, "a stored chunk holds exactly its elements");
        v.push((pos, Some(to_order(&b, c.size, c.big))));
    }
    Stored(v)
}
fn cfg(k: u64) -> Cfg {
    let (s, c, dtype, size, big): (&[u64], &[u64], _, _, _) = match k {
        0 => (&[], &[], ">u2", 2, true),
        1 => (&[5], &[2], "u1", 1, false),
        2 => (&[3, 4], &[2, 3], ">u2", 2, true),
        3 => (&[2, 3], &[1, 2], "u1", 1, false),
        4 => (&[2, 2, 3], &[1, 2, 2], "<u2", 2, false),
        5 => (&[4, 5], &[3, 2], "u1", 1, false),
        6 => (&[3, 2, 2], &[2, 1, 3], ">u2", 2, true),
        7 => (&[2, 2, 2, 2], &[1, 2, 1, 2], "u1", 1, false),
        8 => (&[0, 3], &[2, 2], "u1", 1, false),
        10 => (&[2, 2, 3], &[2, 2, 2], "u1", 1, false),
        11 => (&[2, 1, 2, 1, 1, 1, 1, 3], &[2, 1, 1, 1, 1, 1, 1, 2], "<u2", 2, false),
        _ => (&[7], &[3], ">u2", 2, true),
    };
    Cfg { shape: s.to_vec(), chunk: c.to_vec(), f: choice("order", 2) == 1, dtype, size, big }
}
/// The fill value: none, or any number of the type.
fn fill(c: &Cfg) -> (Value, Vec<u8>) {
    if param(1) == 0 && choice("fill", 2) == 0 {
        return (Value::Null, vec![0; c.size]);
    }
    let v = var("fillv", 8 * c.size as u32, 0, (1 << (8 * c.size)) - 1);
    (json!(v), v.to_le_bytes()[..c.size].to_vec())
}
/// A region with every end point from the origin to one past the array; of more
/// than five axes, those at the ends.
fn region(c: &Cfg, over: u64) -> (Vec<u64>, Vec<u64>) {
    let n = c.axes();
    if n > 5 {
        let (mut off, mut ext) = (vec![0; n], c.shape.clone());
        for i in vec![0, n - 1] {
            off[i] = choice(&format!("off{}", i), c.shape[i]);
            ext[i] = 1 + choice(&format!("ext{}", i), c.shape[i] + over - off[i]);
        }
        return (off, ext);
    }
    let off: Vec<u64> = (0..n).map(|i| choice(&format!("off{}", i), c.shape[i] + 1)).collect();
    let ext: Vec<u64> = (0..n).map(|i| choice(&format!("ext{}", i), c.shape[i] + over + 1 - off[i].min(c.shape[i] + over))).collect();
    (off, ext)
}
fn us(v: &[u64]) -> Vec<usize> {
    v.iter().map(|&x| x as usize).collect()
}
fn add(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
fn inside(c: &Cfg, cell: &[u64]) -> bool {
    (0..c.axes()).all(|i| cell[i] < c.shape[i])
}
/// The cell lies in a chunk, perhaps in the part hanging over the array's end.
fn in_chunk(c: &Cfg, cell: &[u64]) -> bool {
    (0..c.axes()).all(|i| cell[i] / c.chunk[i] * c.chunk[i] < c.shape[i])
}

fn same_region<T: El>(c: &Cfg, st: &Stored, fillv: &[u8], off: &[u64], ext: &[u64], got: &ArrayView<T, IxDyn>, other: Option<&[u8]>, what: &str) {
    check(got.shape() == &us(ext)[..], "a region is read with its shape");
    let mut good = true;
    for rel in cells(ext) {
        let cell = add(off, &rel);
        let g = got[IxDyn(&us(&rel))].le();
        if inside(c, &cell) {
            good = and(good, eq(&g, &st.cell(c, &cell, fillv)));
        } else if let Some(o) = other {
            // beyond the array: untouched, or the padding of the chunk there
            let mut allowed = eq(&g, o);
            if in_chunk(c, &cell) {
                allowed = or(allowed, eq(&g, &st.cell(c, &cell, fillv)));
            }
            good = and(good, allowed);
        }
    }
    check(good, what);
}
/// Regions, destinations and sources that do not fit the array or each other.
fn misfit() {
    let h = hier();
    let c = cfg(3);
    let m = meta(&c.shape, &c.chunk, c.dtype, c.order(), json!(7));
    populate(&c, 2 * choice("present", 2));
    let s = snap();
    const SHAPES: [&[u64]; 10] = [&[], &[2], &[6], &[2, 3], &[3, 2], &[1, 3], &[2, 4], &[0, 3], &[2, 3, 1], &[1, 2, 3]];
    let (r, d) = (choice("region", 10) as usize, choice("destination", 10) as usize);
    let (ext, dst) = (SHAPES[r], SHAPES[d]);
    let off: Vec<u64> = vec![choice("offset", 2); ext.len()];
    let bb = BoundingBox::new(gc(&off), gc(ext));
    let junk = u8_("junk");
    let mut a: ArrayD<u8> = Array::from_elem(IxDyn(&us(dst)), junk);
    let mut buf = if choice("buffer", 2) == 1 { Some(SliceDataChunk::<u8, Vec<u8>>::new(gc(&[9]), vec![junk; 3])) } else { None };
    let fits = ext.len() == 2 && ext == dst;
    let got = some_or_return!(no_panic("reading a region does not panic", || h.read_ndarray_into_with_buffer::<u8>("a", &m, &bb, a.view_mut(), &mut buf)));
    check(got.is_ok() == fits, "a region is read exactly if it has the array's axes and the destination its shape");
    if !fits {
        check(and_all(a.iter().map(|x| *x == junk)), "a refused read leaves the destination as it was");
    }
    let got = some_or_return!(no_panic("reading a region does not panic", || h.read_ndarray::<u8>("a", &m, &bb)));
    check(got.is_ok() == (ext.len() == 2), "a region is read exactly if it has the array's axes");
    check(same(s, ""), "reading changes nothing");
    if dst.len() != 2 {
        for o in [vec![0; dst.len()], vec![0, 0]] {
            let r = some_or_return!(no_panic("writing a region does not panic", || h.write_ndarray("a", &m, gc(&o), a.view())));
            check(r.is_err(), "a block with another number of axes is not written");
        }
        check(same(s, ""), "a refused block changes nothing");
    }
    reach(if fits { "fits" } else { "misfit" });
}

fn read_region<T: El>(c: &Cfg)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = hier();
    let (fj, fv) = fill(c);
    let pattern = choice("present", 4);
    let m = meta(&c.shape, &c.chunk, c.dtype, c.order(), fj);
    let st = populate(c, pattern);
    let (off, ext) = region(c, 1);
    let bb = BoundingBox::new(gc(&off), gc(&ext));
    let e = us(&ext);
    let a = ok("a region is read", some_or_return!(no_panic("reading a region does not panic", || h.read_ndarray::<T>("a", &m, &bb))));
    same_region(c, &st, &fv, &off, &ext, &a.view(), Some(&fv), "a region read gives every cell its stored element or the fill value");
    // into destinations of every layout, holding other values
    let old = bytes("old", c.size);
    let junk = T::of_le(&old);
    let mut buf: Option<VecDataChunk<T>> = match if param(1) == 1 { (pattern + off.iter().sum::<u64>()) % 3 } else { choice("buffer", 3) } {
        0 => None,
        1 => Some(SliceDataChunk::<T, Vec<T>>::new(gc(&[9]), vec![])),
        _ => Some(SliceDataChunk::<T, Vec<T>>::new(gc(&[9, 9]), vec![junk; c.csize() + 2])),
    };
    for layout in 0..3 {
        let mut d: ArrayD<T> = match layout {
            0 => Array::from_elem(IxDyn(&e), junk),
            1 => Array::from_elem(IxDyn(&e).f(), junk),
            _ => {
                // every axis backwards and twice as long in memory
                let big: Vec<usize> = e.iter().map(|x| 2 * x).collect();
                Array::from_elem(IxDyn(&big), junk)
            }
        };
        let view = if layout == 2 {
            let mut v = d.view_mut();
            for ax in 0..e.len() {
                v.slice_axis_inplace(ndarray::Axis(ax), ndarray::Slice::new(0, None, -2));
            }
            v
        } else {
            d.view_mut()
        };
        let r = some_or_return!(no_panic("reading a region into a destination does not panic", || h
            .read_ndarray_into_with_buffer::<T>("a", &m, &bb, view, &mut buf)));
        ok("a region is read into a destination", r);
        let mut v = d.view();
        if layout == 2 {
            for ax in 0..e.len() {
                v.slice_axis_inplace(ndarray::Axis(ax), ndarray::Slice::new(0, None, -2));
            }
        }
        // cells of chunks never written are left to the caller here
        let mut good = true;
        for rel in cells(&ext) {
            let cell = add(&off, &rel);
            let g = v[IxDyn(&us(&rel))].le();
            if inside(c, &cell) {
                let w = st.cell(c, &cell, &fv);
                let pos: Vec<u64> = (0..c.axes()).map(|i| cell[i] / c.chunk[i]).collect();
                if st.get(&pos).is_some() {
                    good = and(good, eq(&g, &w));
                } else {
                    good = and(good, or(eq(&g, &w), eq(&g, &old)));
                }
            } else {
                let mut allowed = or(eq(&g, &old), eq(&g, &fv));
                if in_chunk(c, &cell) {
                    allowed = or(allowed, eq(&g, &st.cell(c, &cell, &fv)));
                }
                good = and(good, allowed);
            }
        }
        check(good, "a region read into a destination gives every cell its stored element");
        if layout == 2 {
            // nothing between the cells of the view is touched
            let mut good = true;
            let big: Vec<u64> = ext.iter().map(|x| 2 * x).collect();
            for idx in cells(&big) {
                if idx.iter().any(|i| i % 2 == 0) {
                    good = and(good, eq(&d[IxDyn(&us(&idx))].le(), &old));
                }
            }
            check(good, "reading into a strided destination touches only its cells");
        }
    }
    reach(if pattern == 3 { "absent" } else { "present" });
}

fn write_region<T: El>(c: &Cfg)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = hier();
    let (fj, fv) = fill(c);
    let pattern = choice("present", 4);
    let m = meta(&c.shape, &c.chunk, c.dtype, c.order(), fj);
    let st = populate(c, pattern);
    let (off, ext) = region(c, 1);
    let e = us(&ext);
    let n: usize = e.iter().product();
    let src: Vec<T> = elems("w", n);
    // the source in one of three memory layouts, with the same content
    let layout = if param(1) == 1 { (pattern + ext.iter().sum::<u64>()) % 3 } else { choice("layout", 3) };
    let mut a: ArrayD<T> = match layout {
        0 => Array::from_elem(IxDyn(&e), T::default()),
        1 => Array::from_elem(IxDyn(&e).f(), T::default()),
        _ => Array::from_elem(IxDyn(&e.iter().map(|x| 2 * x).collect::<Vec<_>>()), T::default()),
    };
    {
        let mut v = a.view_mut();
        if layout == 2 {
            for ax in 0..e.len() {
                v.slice_axis_inplace(ndarray::Axis(ax), ndarray::Slice::new(0, None, -2));
            }
        }
        for (i, rel) in cells(&ext).iter().enumerate() {
            v[IxDyn(&us(rel))] = src[i];
        }
    }
    let mut v = a.view();
    if layout == 2 {
        for ax in 0..e.len() {
            v.slice_axis_inplace(ndarray::Axis(ax), ndarray::Slice::new(0, None, -2));
        }
    }
    let r = some_or_return!(no_panic("writing a region does not panic", || h.write_ndarray("a", &m, gc(&off), v)));
    ok("a region is written", r);
    let now = load(c);
    let mut good = true;
    let mut kept = true;
    let all = cells(&c.shape);
    for cell in &all {
        let within = (0..c.axes()).all(|i| cell[i] >= off[i] && cell[i] < off[i] + ext[i]);
        let g = now.cell(c, cell, &fv);
        if within {
            let mut l = 0;
            for i in 0..c.axes() {
                l = l * ext[i] + (cell[i] - off[i]);
            }
            good = and(good, eq(&g, &src[l as usize].le()));
        } else {
            kept = and(kept, eq(&g, &st.cell(c, cell, &fv)));
        }
    }
    check(good, "every written cell holds the value given for it");
    check(kept, "every cell outside a written region keeps its value");
    // and through the library
    let whole = BoundingBox::new(gc(&vec![0; c.axes()]), gc(&c.shape));
    let b = ok("the array is read", some_or_return!(no_panic("reading a region does not panic", || h.read_ndarray::<T>("a", &m, &whole))));
    let zero = vec![0; c.axes()];
    same_region(c, &now, &fv, &zero, &c.shape, &b.view(), None, "what was written is what is read");
    reach(if n == 0 { "nothing" } else { "written" });
}

/// Every order of `n` axes.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in orders(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
/// Sources and destinations with their axes in any order in memory, some of
/// them backwards or with gaps.
fn layouts<T: El>(c: &Cfg)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let h = hier();
    let n = c.axes();
    let fv = bytes("fillv", c.size);
    let m = meta(&c.shape, &c.chunk, c.dtype, c.order(), json!(if c.size == 1 { fv[0] as u16 } else { u16::from_le_bytes([fv[0], fv[1]]) }));
    let st = populate(c, 1 + choice("present", 2));
    // all of the array, exactly one chunk, or a part across chunks
    let (off, ext): (Vec<u64>, Vec<u64>) = match choice("region", 3) {
        0 => (vec![0; n], c.shape.clone()),
        1 => (vec![0; n], c.chunk.clone()),
        _ => (c.shape.iter().map(|s| if *s > 2 { 1 } else { 0 }).collect(), c.shape.iter().map(|s| if *s > 2 { s - 1 } else { *s }).collect()),
    };
    let e = us(&ext);
    let ps = orders(n);
    let q = ps[choice("order", ps.len() as u64) as usize].clone();
    let back = [0, 1, (1 << n) - 1][choice("back", 3) as usize];
    let step = 1 + choice("gaps", 2) as isize;
    let dims: Vec<usize> = (0..n).map(|j| e[q.iter().position(|x| *x == j).unwrap()] * step as usize).collect();
    let old = bytes("old", c.size);
    let mut a: ArrayD<T> = Array::from_elem(IxDyn(&dims), T::of_le(&old));
    macro_rules! lay {
        ($v:expr) => {{
            let mut v = $v.permuted_axes(IxDyn(&q));
            for ax in 0..n {
                v.slice_axis_inplace(ndarray::Axis(ax), ndarray::Slice::new(0, None, if back >> ax & 1 == 1 { -step } else { step }));
            }
            v
        }};
    }
    let whole = cells(&ext);
    if choice("write", 2) == 1 {
        let src: Vec<T> = elems("w", whole.len());
        {
            let mut v = lay!(a.view_mut());
            for (rel, x) in whole.iter().zip(&src) {
                v[IxDyn(&us(rel))] = *x;
            }
        }
        let v = lay!(a.view());
        let r = some_or_return!(no_panic("writing a region does not panic", || h.write_ndarray("a", &m, gc(&off), v)));
        ok("a region is written", r);
        let now = load(c);
        let (mut good, mut kept) = (true, true);
        for cell in cells(&c.shape) {
            let g = now.cell(c, &cell, &fv);
            match whole.iter().position(|rel| add(&off, rel) == cell) {
                Some(i) => good = and(good, eq(&g, &src[i].le())),
                None => kept = and(kept, eq(&g, &st.cell(c, &cell, &fv))),
            }
        }
        check(good, "every written cell holds the value given for it");
        check(kept, "every cell outside a written region keeps its value");
    } else {
        let bb = BoundingBox::new(gc(&off), gc(&ext));
        {
            let v = lay!(a.view_mut());
            let r = some_or_return!(no_panic("reading a region into a destination does not panic", || h.read_ndarray_into::<T>("a", &m, &bb, v)));
            ok("a region is read into a destination", r);
        }
        let v = lay!(a.view());
        let mut good = true;
        for rel in &whole {
            let cell = add(&off, rel);
            let g = v[IxDyn(&us(rel))].le();
            let pos: Vec<u64> = (0..n).map(|i| cell[i] / c.chunk[i]).collect();
            good = and(good, if st.get(&pos).is_some() { eq(&g, &st.cell(c, &cell, &fv)) } else { or(eq(&g, &fv), eq(&g, &old)) });
        }
        check(good, "a region read into a destination gives every cell its stored element");
    }
    reach("layout");
}

fn order<T: El>(c: &Cfg)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let m = meta(&c.shape, &c.chunk, c.dtype, c.order(), Value::Null);
    let v: Vec<T> = elems("e", c.csize());
    let pos = gc(&vec![1; c.axes()]);
    let ch = SliceDataChunk::<T, Vec<T>>::new(pos, v.clone());
    let want = |cell: &[u64]| v[c.linear(cell)].le();
    {
        let a = some_or_return!(no_panic("viewing a chunk as an array does not panic", || ch.as_ndarray(&m)));
        check(a.shape() == &us(&c.chunk)[..], "a chunk viewed as an array has the chunk's shape");
        check(and_all(cells(&c.chunk).iter().map(|x| eq(&a[IxDyn(&us(x))].le(), &want(x)))), "element (i, j, ...) of a chunk is at its linear position");
    }
    let a = some_or_return!(no_panic("turning a chunk into an array does not panic", || ch.into_ndarray(&m)));
    check(a.shape() == &us(&c.chunk)[..], "a chunk turned into an array has the chunk's shape");
    check(and_all(cells(&c.chunk).iter().map(|x| eq(&a[IxDyn(&us(x))].le(), &want(x)))), "element (i, j, ...) of a chunk is at its linear position");
    // a whole-chunk write and a partial one place elements the same way
    let h = hier();
    let full: ArrayD<T> = a.as_standard_layout().to_owned();
    if c.axes() > 0 {
        ok("a region is written", h.write_ndarray("a", &m, gc(&vec![0; c.axes()]), full.view()));
        let b = to_order(&ok("the chunk's file exists", std::fs::read(c.file(&vec![0; c.axes()]))), c.size, c.big);
        check(and_all(cells(&c.chunk).iter().filter(|x| inside(c, x)).map(|x| eq(&b[c.linear(x) * c.size..(c.linear(x) + 1) * c.size], &want(x)))), "a region write places elements at their linear positions");
    }
    reach("order");
}

/// Z10: regions far outside the array.
fn read_far() {
    let h = hier();
    let n = 1 + choice("axes", 2) as usize;
    let m = meta(&vec![3; n], &vec![2; n], "u1", "C", json!(7));
    let st = bytes("s", if n == 1 { 2 } else { 4 });
    let pos: Vec<String> = vec!["1".to_string(); n];
    let f = format!("{}/data/root/a/c{}", base(), pos.join("/"));
    if let Some(d) = std::path::Path::new(&f).parent() {
        ok("directory", std::fs::create_dir_all(d));
    }
    ok("file", std::fs::write(&f, &st));
    let off: Vec<u64> = (0..n).map(|i| match choice(&format!("w{}", i), 3) {
        0 => 4 + var(&format!("o{}", i), 8, 0, 255),
        1 => (1 << 32) - 100 + var(&format!("o{}", i), 8, 0, 255),
        _ => (1 << 62) + var(&format!("o{}", i), 8, 0, 255),
    }).collect();
    let ext: Vec<u64> = (0..n).map(|i| 1 + choice(&format!("e{}", i), 3)).collect();
    let bb = BoundingBox::new(gc(&off), gc(&ext));
    let a = ok("a region is read", some_or_return!(no_panic("reading a region does not panic", || h.read_ndarray::<u8>("a", &m, &bb))));
    check(a.shape() == &us(&ext)[..], "a region is read with its shape");
    check(and_all(a.iter().map(|&x| x == 7)), "cells outside the array hold no data of the array");
    reach("far");
}

// ---- Z13 ------------------------------------------------------------------------
/// A declared fill value and what it is worth for T.
enum Want {
    Exactly(Vec<u8>),
    /// refused, or the given value
    Maybe(Vec<u8>),
    Refused,
    /// refused, or an integer equal to this
    Integer(f64),
    /// the value if the flag holds, else refused
    If(bool, Vec<u8>),
}
trait Kind {
    const K: u8; // 0 bool 1 unsigned 2 signed 3 f16 4 f32 5 f64
}
macro_rules! kind { ($($t:ty, $k:expr;)*) => { $(impl Kind for $t { const K: u8 = $k; })* } }
kind! { bool, 0; u8, 1; u16, 1; u32, 1; u64, 1; i8, 2; i16, 2; i32, 2; i64, 2; half::f16, 3; f32, 4; f64, 5; }

/// The nearest half to a double whose low 32 bits are zero, ties to even.
fn half_bits(x: f64) -> u16 {
    let b = x.to_bits();
    let sign = ((b >> 63) as u16) << 15;
    let e = (b >> 52 & 0x7ff) as i64 - 1023;
    let man = b & ((1 << 52) - 1);
    if e > 15 {
        return sign | 0x7c00;
    }
    if e < -25 {
        return sign;
    }
    // value = full * 2^(e-52); the unit of the half is 2^u
    let u = e.max(-14) - 10;
    let full = man | 1 << 52;
    let shift = (u - (e - 52)) as u32; // >= 42
    let q = full >> shift;
    let rem = full & ((1u64 << shift) - 1);
    let tie = 1u64 << (shift - 1);
    let up = or(rem > tie, and(rem == tie, q & 1 == 1));
    let r = q + up as u64;
    // q counts units; below 2^10 units it is subnormal
    let body = if e < -14 { r } else { r + (((e + 14) as u64) << 10) };
    sign | body as u16
}
fn fill_value<T: El + Kind>(dtype: &str, _big: bool)
where
    VecDataChunk<T>: DataChunk<T> + ReadableDataChunk + WriteableDataChunk + ReinitDataChunk<T>,
{
    let bits = 8 * T::SIZE as u32;
    let (v, want): (Value, Want) = match choice("kind", 11) {
        0 => {
            // refusals print the number, so integers come in windows around
            // every limit; what is accepted is the full range
            let n = match T::K {
                1 | 2 | 0 => {
                    let wide = T::K != 0 && choice("whole", 2) == 1;
                    let top = if T::K == 1 { bits } else { bits - 1 };
                    if wide {
                        var("n", 64, 0, if top == 64 { u64::MAX } else { (1 << top) - 1 })
                    } else {
                        let at = [7u32, 8, 15, 16, 31, 32, 63, 64][choice("limit", 8) as usize];
                        let lo = if at == 64 { u64::MAX - 255 } else { (1u64 << at) - 128 };
                        lo + var("n", 8, 0, 255)
                    }
                }
                _ => u64_("n"),
            };
            let w = match T::K {
                1 => Want::If(bits == 64 || n < 1u64.checked_shl(bits).unwrap_or(0), n.to_le_bytes()[..T::SIZE].to_vec()),
                2 => Want::If(n < 1u64 << (bits - 1), n.to_le_bytes()[..T::SIZE].to_vec()),
                4 => Want::Exactly((n as f32).to_bits().to_le_bytes().to_vec()),
                5 => Want::Exactly((n as f64).to_bits().to_le_bytes().to_vec()),
                3 => {
                    // windows on which the conversion of the integer is easily stated
                    let k = choice("window", 4);
                    assume(match k { 0 => n <= 2048, 1 => and(n > 2048, n < 4096), 2 => and(n >= 65472, n < 65600), _ => n == u64::MAX });
                    Want::Exactly(half_bits(n as f64).to_le_bytes().to_vec())
                }
                _ => Want::Refused,
            };
            (json!(n), w)
        }
        1 => {
            let n = match T::K {
                3 | 4 | 5 => u64_("n") as i64,
                _ => {
                    let wide = T::K == 2 && choice("whole", 2) == 1;
                    if wide {
                        -1 - var("n", 64, 0, (1u64 << (bits - 1)) - 1) as i64
                    } else {
                        let at = [7u32, 8, 15, 16, 31, 32, 63][choice("limit", 7) as usize];
                        let lo = if at == 63 { i64::MIN } else { -(1i64 << at) - 128 };
                        lo + var("n", 8, 0, 255) as i64
                    }
                }
            };
            assume(n < 0);
            let w = match T::K {
                2 => Want::If(bits == 64 || n >= -(1i64 << (bits - 1)), n.to_le_bytes()[..T::SIZE].to_vec()),
                4 => Want::Exactly((n as f32).to_bits().to_le_bytes().to_vec()),
                5 => Want::Exactly((n as f64).to_bits().to_le_bytes().to_vec()),
                3 => {
                    assume(or(n >= -300, n == i64::MIN));
                    let n = concrete(n as u64) as i64;
                    Want::Exactly(half_bits(n as f64).to_le_bytes().to_vec())
                }
                _ => Want::Refused,
            };
            (json!(n), w)
        }
        2 => {
            let mut b = if T::K < 3 {
                let l = [0.0f64, -0.0, 1.0, 2.5, -1.0, 255.0, 256.0, 1e300, 9007199254740993.0, 1.5e-300];
                l[choice("f", 10) as usize].to_bits()
            } else {
                u64_("f")
            };
            if T::K == 3 {
                // exponents around everything a half can hold; 20 mantissa bits
                let e = 1023 - 27 + choice("exp", 46);
                b = (b >> 63 << 63) | e << 52 | (b & 0xf_ffff) << 32;
            }
            let f = f64::from_bits(b);
            assume((b >> 52) & 0x7ff != 0x7ff);
            let w = match T::K {
                3 => Want::Exactly(half_bits(f).to_le_bytes().to_vec()),
                4 => Want::Exactly((f as f32).to_bits().to_le_bytes().to_vec()),
                5 => Want::Exactly(b.to_le_bytes().to_vec()),
                // 2.0 is perhaps a 2, but 2.5 is no integer
                1 | 2 => Want::Integer(f),
                _ => Want::Refused,
            };
            (json!(f), w)
        }
        3 => {
            let b = choice("b", 2) == 1;
            (json!(b), if T::K == 0 { Want::Exactly(vec![b as u8]) } else { Want::Refused })
        }
        4 => (Value::Null, Want::Exactly(vec![0; T::SIZE])),
        5 => (json!("1"), Want::Refused),
        6 => (json!([1]), Want::Refused),
        7 => (json!({"a": 1}), Want::Refused),
        8 => match T::K {
            3 | 4 | 5 => {
                // the spelling the protocol gives to what JSON has no number for
                let k = choice("name", 3);
                let f = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][k as usize];
                let le = match T::K {
                    3 => half::f16::from_f64(f).to_bits().to_le_bytes().to_vec(),
                    4 => (f as f32).to_bits().to_le_bytes().to_vec(),
                    _ => f.to_bits().to_le_bytes().to_vec(),
                };
                (json!(["NaN", "Infinity", "-Infinity"][k as usize]), Want::Maybe(le))
            }
            _ => (json!("NaN"), Want::Refused),
        },
        9 => (json!(""), Want::Refused),
        _ => (json!([]), Want::Refused),
    };
    let m = meta(&[4], &[2], dtype, "C", v.clone());
    let r = some_or_return!(no_panic("a fill value of any kind does not panic", || m.get_effective_fill_value::<T>()));
    let got = r.ok().map(|x| x.le());
    match want {
        Want::Exactly(w) => match got {
            Some(g) => check(eq(&g, &w), "a representable fill value is used exactly"),
            None => check(false, "a representable fill value is accepted"),
        },
        Want::Maybe(w) => {
            if let Some(g) = got {
                check(eq(&g, &w), "a fill value never changes");
            }
        }
        Want::Integer(f) => {
            if let Some(g) = got {
                let mut b = [if T::K == 2 && g[T::SIZE - 1] >> 7 == 1 { 0xff } else { 0 }; 8];
                b[..T::SIZE].copy_from_slice(&g);
                let n = u64::from_le_bytes(b);
                check(if T::K == 2 { n as i64 as f64 == f } else { n as f64 == f }, "only a representable fill value is accepted, exactly");
            }
        }
        Want::Refused => check(got.is_none(), "a fill value of another kind is refused"),
        Want::If(c, w) => {
            match got {
                Some(g) => check(and(c, eq(&g, &w)), "only a representable fill value is accepted, exactly"),
                None => check(!c, "a representable fill value is accepted"),
            }
        }
    }
    // the same through a region of a never written array
    let h = hier();
    let bb = BoundingBox::new(gc(&[1]), gc(&[2]));
    let r = some_or_return!(no_panic("reading with a fill value of any kind does not panic", || h.read_ndarray::<T>("a", &m, &bb).ok()));
    let again = m.get_effective_fill_value::<T>().ok().map(|x| x.le());
    check(r.is_some() == again.is_some(), "a region is read exactly if the fill value is accepted");
    if let (Some(r), Some(w)) = (r, again) {
        check(and_all(r.iter().map(|g| eq(&g.le(), &w))), "cells never written hold the fill value");
    }
    reach("fill");
}
macro_rules! by_size {
    ($c:expr, $f:ident) => {{
        let c = $c;
        if c.size == 1 {
            $f::<u8>(&c)
        } else {
            $f::<u16>(&c)
        }
    }};
}

entries! {
/// Z10: configuration `param(0)`
h_read_region => { by_size!(cfg(param(0)), read_region); }
/// Z11
h_write_region => { by_size!(cfg(param(0)), write_region); }
/// Z12
h_order => { by_size!(cfg(choice("cfg", 8)), order); }
/// Z10, Z11, Z12: configuration `param(0)`
h_layouts => { by_size!(cfg(param(0)), layouts); }
h_misfit => { misfit(); }
h_read_far => { read_far(); }
/// Z13: booleans and integers
h_fill => { for_dtype!([0, 1, 2, 4, 6, 9, 11, 15, 17][choice("dtype", 9) as usize], fill_value()); }
h_fill_half => { fill_value::<half::f16>("<f2", false); }
h_fill_float => { for_dtype!([13, 19][choice("dtype", 2) as usize], fill_value()); }
}
