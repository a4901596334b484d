//! Z07 (grid), Z08 (region to chunks), Z09 (bounding boxes).
use crate::sym::*;
use crate::util::*;
use zarr::ndarray::BoundingBox;
use zarr::prelude::*;

fn raw_meta(shape: &[u64], chunk: &[u64]) -> ArrayMetadata {
    let c: ChunkCoord = chunk.iter().map(|&c| c as u32).collect();
    ArrayMetadata::new(gc(shape), c, i16::ZARR_TYPE, Default::default())
}
/// A 64-bit number in one of four windows of `bits` bits: from 0, around 2^32,
/// below 2^63, and up to 2^64-1.
fn window(n: &str, bits: u32) -> u64 {
    let w = 1u64 << bits;
    let base = [0, (1 << 32) - w / 2, (1 << 63) - w, u64::MAX - (w - 1)][choice(&format!("{}_window", n), 4) as usize];
    base + var(n, bits, 0, w - 1)
}
/// ceil(a / b), stated without division: the least e with e*b >= a.
fn is_ceil(e: u64, a: u64, b: u64) -> bool {
    // e <= a always, so with a, b within the harness bounds no product wraps
    and(
        e <= a,
        ite(e <= a, 1, 0) == 1 && {
            let x = e.wrapping_mul(b);
            and(x >= a, or(e == 0, x.wrapping_sub(b) < a))
        },
    )
}
fn contains(b_off: &[u64], b_shape: &[u64], x: &[u64]) -> bool {
    and_all((0..x.len()).map(|i| and(x[i] >= b_off[i], x[i] < b_off[i].wrapping_add(b_shape[i]))))
}
fn parts(b: &BoundingBox) -> (Vec<u64>, Vec<u64>) {
    // offset and end through the public interface
    let end: Vec<u64> = b.end().collect();
    let shape: Vec<u64> = b.shape_ndarray_shape().iter().map(|&x| x as u64).collect();
    (end.iter().zip(&shape).map(|(e, s)| e.wrapping_sub(*s)).collect(), shape)
}

/// One axis: extent formula and in-bounds test for every extent.
fn axis(max_shape: u64, sbits: u32, max_chunk: u64, cbits: u32) {
    let s = var("shape", sbits, 0, max_shape);
    let c = var("chunk", cbits, 1, max_chunk);
    let p = var("pos", sbits, 0, max_shape);
    let m = raw_meta(&[s], &[c]);
    no_panic("grid arithmetic panicked", || {
        let e = m.get_grid_extent();
        check(e.len() == 1, "grid extent has one entry per axis");
        check(is_ceil(e[0], s, c), "grid extent is the ceiling of extent over chunk extent");
        check(m.get_num_chunks() == e[0], "chunk count is the product of the grid extents");
        check(m.in_bounds(&gc(&[p])) == (p.wrapping_mul(c) < s), "a position is in bounds exactly if its chunk overlaps the array");
        check(m.coord_iter().len() as u64 == e[0], "grid enumeration reports the grid's size");
        reach("axis");
    });
}

entries! {
h_grid_axis => { axis((1 << param(0)) - 1, param(0) as u32, (1 << param(1)) - 1, param(1) as u32); }

/// Constant chunk extents, every 64-bit array extent.
h_grid_wide => {
    const CS: [u64; 8] = [1, 2, 3, 10, 64, 1000, 65535, 4294967295];
    let c = CS[choice("which", CS.len() as u64) as usize];
    let s = window("shape", param(0) as u32);
    let m = raw_meta(&[s], &[c]);
    no_panic("grid arithmetic panicked", || {
        let e = m.get_grid_extent()[0];
        let want = (s / c).wrapping_add(ite(s % c != 0, 1, 0));
        check(e == want, "grid extent is the ceiling of extent over chunk extent");
        check(m.get_num_chunks() == want, "chunk count is the product of the grid extents");
        check(m.coord_iter().len() as u64 == want, "grid enumeration reports the grid's size");
        let p = u64_("pos");
        check(m.in_bounds(&gc(&[p])) == (p < want), "a position is in bounds exactly if its chunk overlaps the array");
        check(!m.in_bounds(&gc(&[p, 0])), "a position with too many axes is not in bounds");
        check(!m.in_bounds(&gc(&[])), "a position with too few axes is not in bounds");
        reach("wide");
    });
}

/// Full enumeration, `param(0)` axes, extents up to `param(1)`, chunks up to `param(2)`.
h_grid_enum => {
    let (nd, ms, mc) = (param(0) as usize, param(1), param(2));
    let shape: Vec<u64> = (0..nd).map(|i| var(&format!("shape{}", i), 8, 0, ms)).collect();
    let chunk: Vec<u64> = (0..nd).map(|i| var(&format!("chunk{}", i), 8, 1, mc)).collect();
    let m = raw_meta(&shape, &chunk);
    no_panic("grid enumeration panicked", || {
        let ext = m.get_grid_extent();
        check(ext.len() == nd, "grid extent has one entry per axis");
        check(and_all((0..nd).map(|i| is_ceil(ext[i], shape[i], chunk[i]))), "grid extent is the ceiling of extent over chunk extent");
        let total = ext.iter().fold(1u64, |a, b| a.wrapping_mul(*b));
        check(m.get_num_chunks() == total, "chunk count is the product of the grid extents");
        let mut it = m.coord_iter();
        let mut seen: Vec<Vec<u64>> = vec![];
        let mut n = 0u64;
        loop {
            check(it.len() as u64 == total.wrapping_sub(n), "the enumeration reports its exact remaining length");
            match it.next() {
                None => break,
                Some(c) => {
                    check(c.len() == nd, "an enumerated position has one entry per axis");
                    check(and_all((0..nd).map(|i| c[i].wrapping_mul(chunk[i]) < shape[i])), "an enumerated position is in bounds");
                    for s in &seen {
                        check(!and_all((0..nd).map(|i| s[i] == c[i])), "a position is enumerated once");
                    }
                    check(m.in_bounds(&gc(&c)), "an enumerated position passes the bounds test");
                    seen.push(c);
                    n += 1;
                }
            }
        }
        check(n == total, "the enumeration yields every in-bounds position");
        check(it.len() == 0, "the enumeration reports its exact remaining length");
        if n == 0 { reach("empty"); } else { reach("nonempty"); }
        if nd == 0 { check(n == 1, "a zero-dimensional array has exactly one chunk"); }
    });
}

/// Region to chunks: `param(0)` axes, extents up to param(1), chunks up to
/// param(2), region offset and extent up to param(3).
h_region => {
    let (nd, ms, mc, mr) = (param(0) as usize, param(1), param(2), param(3));
    let shape: Vec<u64> = (0..nd).map(|i| var(&format!("shape{}", i), 8, 0, ms)).collect();
    let chunk: Vec<u64> = (0..nd).map(|i| var(&format!("chunk{}", i), 8, 1, mc)).collect();
    let off: Vec<u64> = (0..nd).map(|i| var(&format!("off{}", i), 8, 0, mr)).collect();
    let len: Vec<u64> = (0..nd).map(|i| var(&format!("len{}", i), 8, 0, mr)).collect();
    let m = raw_meta(&shape, &chunk);
    let bb = BoundingBox::new(gc(&off), gc(&len));
    no_panic("region enumeration panicked", || {
        let mut it = m.bounded_coord_iter(&bb);
        let mut remaining = it.len() as u64;
        let mut seen: Vec<Vec<u64>> = vec![];
        while let Some(c) = it.next() {
            check(remaining > 0, "the enumeration reports its exact remaining length");
            remaining = remaining.wrapping_sub(1);
            check(it.len() as u64 == remaining, "the enumeration reports its exact remaining length");
            check(c.len() == nd, "an enumerated position has one entry per axis");
            check(and_all((0..nd).map(|i| {
                let (a, b) = (c[i].wrapping_mul(chunk[i]), c[i].wrapping_mul(chunk[i]).wrapping_add(chunk[i]));
                // some cell x: a <= x < b, x < shape, off <= x < off+len
                let lo = ite(a > off[i], a, off[i]);
                and(and(lo < b, lo < shape[i]), lo < off[i] + len[i])
            })), "an enumerated chunk shares an array cell with the region");
            for s in &seen {
                check(!and_all((0..nd).map(|i| s[i] == c[i])), "a chunk is enumerated once");
            }
            seen.push(c);
        }
        check(remaining == 0, "the enumeration reports its exact remaining length");
        check(it.len() == 0, "the enumeration reports its exact remaining length");
        // completeness: any cell of array and region lies in an enumerated chunk
        let x: Vec<u64> = (0..nd).map(|i| var(&format!("cell{}", i), 8, 0, 255)).collect();
        let inside = and_all((0..nd).map(|i| and(x[i] < shape[i], and(x[i] >= off[i], x[i] < off[i] + len[i]))));
        let mut hit = false;
        for s in &seen {
            hit = or(hit, and_all((0..nd).map(|i| and(x[i] >= s[i].wrapping_mul(chunk[i]), x[i] < s[i].wrapping_mul(chunk[i]) + chunk[i]))));
        }
        check(implies(inside, hit), "every cell of the region lies in an enumerated chunk");
        if seen.is_empty() { reach("none"); } else { reach("some"); }
    });
}

/// Region to chunks along one axis for wide numbers: the first chunk and the
/// number of chunks.
h_region_wide => {
    const CS: [u64; 6] = [1, 2, 7, 64, 1000, 4294967295];
    let c = CS[choice("which", CS.len() as u64) as usize];
    let b = param(0) as u32;
    let (s, o, l) = (window("shape", b), window("off", b), window("len", b));
    assume(o <= u64::MAX - l);
    let m = raw_meta(&[s], &[c]);
    no_panic("region enumeration panicked", || {
        let mut it = m.bounded_coord_iter(&BoundingBox::new(gc(&[o]), gc(&[l])));
        let end = ite(o + l < s, o + l, s);
        let empty = o >= end;
        let lo = o / c;
        let hi = (end.wrapping_sub(1)) / c;
        let want = ite(empty, 0, hi.wrapping_sub(lo).wrapping_add(1));
        check(it.len() as u64 == want, "the enumeration reports its exact remaining length");
        match it.next() {
            None => check(empty, "a region that shares cells with the array selects a chunk"),
            Some(v) => {
                check(!empty, "a region that shares no cell with the array selects no chunk");
                check(v[0] == lo, "the first chunk is the one holding the region's first cell");
                check(it.len() as u64 == want.wrapping_sub(1), "the enumeration reports its exact remaining length");
            }
        }
        reach("region_wide");
    });
}

/// Bounding-box algebra over `param(0)` axes, all numbers 63 bit.
h_bbox => {
    let nd = param(0) as usize;
    let v = |n: &str| -> Vec<u64> { (0..nd).map(|i| var(&format!("{}{}", n, i), 64, 0, (1 << 62) - 1)).collect() };
    let (ao, al, bo, bl, x) = (v("ao"), v("al"), v("bo"), v("bl"), v("x"));
    let a = BoundingBox::new(gc(&ao), gc(&al));
    let b = BoundingBox::new(gc(&bo), gc(&bl));
    no_panic("bounding-box operation panicked", || {
        let (in_a, in_b) = (contains(&ao, &al, &x), contains(&bo, &bl, &x));
        let mut i = a.clone();
        i.intersect(&b);
        let (io, il) = parts(&i);
        let in_i = contains(&io, &il, &x);
        for k in 0..nd {
            let one = |o: &[u64], l: &[u64]| contains(&o[k..=k], &l[k..=k], &x[k..=k]);
            check(implies(in_i, one(&ao, &al)), "the intersection holds only cells of both boxes");
            check(implies(in_i, one(&bo, &bl)), "the intersection holds only cells of both boxes");
            check(implies(and(in_a, in_b), one(&io, &il)), "the intersection holds every common cell");
        }
        let none = !and_all((0..nd).map(|k| {
            let lo = ite(ao[k] > bo[k], ao[k], bo[k]);
            and(lo < ao[k] + al[k], lo < bo[k] + bl[k])
        }));
        check(i.is_empty() == none, "the intersection is reported empty exactly when there is no common cell");
        check(a.is_empty() == !and_all((0..nd).map(|k| al[k] != 0)), "a box is reported empty exactly when it has no cell");
        // union
        let some = and(!a.is_empty(), !b.is_empty());
        let mut u = a.clone();
        u.union(&b);
        let (uo, ul) = parts(&u);
        check(implies(and(some, or(in_a, in_b)), contains(&uo, &ul, &x)), "the union contains both boxes");
        for k in 0..nd {
            check(implies(some, and(uo[k] == ite(ao[k] < bo[k], ao[k], bo[k]), uo[k] + ul[k] == ite(ao[k] + al[k] > bo[k] + bl[k], ao[k] + al[k], bo[k] + bl[k]))), "the union is the smallest box containing both");
        }
        // ends and slices
        let ends: Vec<u64> = a.end().collect();
        let sl = a.to_ndarray_slice();
        check(sl.len() == nd && ends.len() == nd, "a box has one end and one slice per axis");
        for k in 0..nd {
            check(ends[k] == ao[k] + al[k], "the end of a box is offset plus extent");
            match &sl[k] {
                ndarray::SliceOrIndex::Slice { start, end, step } => {
                    check(*step == 1, "a box's slice has step 1");
                    check(*start as u64 == ao[k], "a box's slice starts at its offset");
                    match end {
                        Some(e) => check(*e as u64 == ao[k] + al[k], "a box's slice ends at its end"),
                        None => check(false, "a box's slice has an end"),
                    }
                }
                _ => check(false, "a box's slice is a range"),
            }
        }
        // translation
        let t = v("t");
        if and_all((0..nd).map(|k| t[k] <= ao[k])) {
            let mv = a.clone() - &gc(&t);
            let (mo, ml) = parts(&mv);
            for k in 0..nd {
                check(and(mo[k] == ao[k] - t[k], ml[k] == al[k]), "translation moves exactly the box's cells");
            }
            reach("translated");
        }
        reach("bbox");
    });
}

/// Chunk bounds: param(0)-bit grid positions, param(1)-bit chunk extents.
h_chunk_bounds => {
    let (pb, cb) = (param(0), param(1));
    let c: Vec<u64> = (0..2).map(|i| var(&format!("chunk{}", i), cb as u32, 1, (1 << cb) - 1)).collect();
    let p: Vec<u64> = (0..2).map(|i| var(&format!("pos{}", i), pb as u32, 0, (1 << pb) - 1)).collect();
    let m = raw_meta(&[1 << 62, 1 << 62], &c);
    no_panic("chunk bounds panicked", || {
        let b = m.get_chunk_bounds(&p);
        let (o, l) = parts(&b);
        check(o.len() == 2 && l.len() == 2, "chunk bounds have one entry per axis");
        for k in 0..2 {
            check(o[k] == p[k].wrapping_mul(c[k]), "a chunk starts at position times chunk extent");
            check(l[k] == c[k], "a chunk's bounds have the chunk shape");
        }
        let d = zarr::chunk::SliceDataChunk::<i16, Vec<i16>>::new(gc(&p), vec![]);
        check(d.get_bounds(&m) == b, "a data chunk's bounds are those of its position");
        let (o, l) = parts(&m.get_bounds());
        check(and_all([o[0] == 0, o[1] == 0, l[0] == 1 << 62, l[1] == 1 << 62]), "the array's bounds start at the origin and have its shape");
        reach("bounds");
    });
}
}
