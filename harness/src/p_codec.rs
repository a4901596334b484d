//! Z03 and the compressed part of Z25: chunks through compressors.
use crate::some_or_return;
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Value};
use zarr::chunk::{DataChunk, SliceDataChunk, VecDataChunk};
use ndarray::Array;
use zarr::ndarray::prelude::*;
use zarr::prelude::*;

/// How the stand-ins for the compression libraries behave: what they hold
/// back, and how much one call moves.
/// kinds: how many of the behaviours are explored.
fn library(kinds: u64) {
    let kind = choice("library", kinds);
    #[cfg(feature = "standins")]
    crate::codec::set_mode(crate::codec::Mode { lazy: kind % 2 == 0, step: [usize::MAX, 3, 1, 1000][(kind / 2) as usize] });
    let _ = kind;
}
const GZIP: &str = "https://purl.org/zarr/spec/codec/gzip/1.0";
/// A compressor with any configuration: its document, the first bytes of what
/// it writes, and which byte of it shows the setting in effect, and how.
fn compressor(codec: u64) -> (Value, &'static [u8], (usize, u8)) {
    let int = |name: &str| {
        if choice("configured", 2) == 0 {
            None
        } else {
            Some(var(name, 32, 0, u32::MAX as u64) as u32 as i32)
        }
    };
    let with = |codec: &str, name: &str, v: Option<Value>| match v {
        None => json!({ "codec": codec, "configuration": {} }),
        Some(v) => {
            let mut c = serde_json::Map::new();
            c.insert(name.to_string(), v);
            json!({ "codec": codec, "configuration": c })
        }
    };
    match codec {
        0 => {
            let l = int("level");
            // RFC 1952: 2 for the best compression, 4 for the fastest
            let shows = match l {
                Some(9) => 2,
                Some(0) | Some(1) => 4,
                _ => 0,
            };
            (with(GZIP, "level", l.map(|v| json!(v))), b"\x1f\x8b\x08", (8, shows))
        }
        1 => {
            let v = if choice("configured", 2) == 0 { None } else { Some(var("block", 8, 0, 255) as u8) };
            let shows = match v {
                Some(v) if v >= 1 && v <= 9 => b'0' + v,
                _ => b'9',
            };
            (with("bzip2", "blockSize", v.map(|v| json!(v))), b"BZh", (3, shows))
        }
        2 => {
            let p = int("preset");
            // the size of the dictionary
            let shows = match p.map(|p| p & 0x7fff_ffff) {
                Some(0) => 0x0c,
                Some(1) => 0x10,
                Some(2) => 0x12,
                Some(3) | Some(4) => 0x14,
                Some(7) => 0x18,
                Some(8) => 0x1a,
                Some(9) => 0x1c,
                _ => 0x16,
            };
            (with("xz", "preset", p.map(|v| json!(v))), b"\xfd7zXZ\x00", (16, shows))
        }
        _ => {
            let b = int("block");
            let shows = match b {
                Some(b) if b > 1 << 20 => 0x70,
                Some(b) if b > 256 << 10 => 0x60,
                Some(b) if b > 64 << 10 => 0x50,
                _ => 0x40,
            };
            (with("lz4", "blockSize", b.map(|v| json!(v))), b"\x04\x22\x4d\x18", (5, shows))
        }
    }
}
fn with_compressor(shape: &[u64], chunk: &[u64], dtype: &str, c: &Value) -> Option<ArrayMetadata> {
    let mut d = doc(shape, chunk, json!(dtype), "C", json!(9));
    d["compressor"] = c.clone();
    serde_json::from_value::<ArrayMetadata>(d).ok()
}
fn stored(key: &str) -> Option<Vec<u8>> {
    std::fs::read(format!("{}/data/root/{}", base(), key)).ok()
}

/// Every configuration, every value of a small chunk.
fn lossless(codec: u64, n: usize, kinds: u64) {
    library(kinds);
    let h = hier();
    let (c, magic, (at, shows)) = compressor(codec);
    let m = match with_compressor(&[4, 4 * n as u64], &[1, n as u64], "<u2", &c) {
        Some(m) => m,
        None => {
            // refused configurations are not part of any metadata
            reach("refused");
            return;
        }
    };
    let v: Vec<u16> = elems("e", n);
    let before: Vec<u16> = if choice("stored", 2) == 1 { elems("before", n) } else { vec![] };
    if !before.is_empty() {
        // stored by a writer of the same format
        let plain = some_or_return!(with_compressor(&[4, 4 * n as u64], &[1, n as u64], "<u2", &json!({ "codec": c["codec"].clone(), "configuration": {} })));
        ok("a chunk is written", h.write_chunk("a", &plain, &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[1, 2]), before.clone())));
    }
    let s = snap_if(!before.is_empty());
    let r = no_panic("no compressor configuration makes writing a chunk panic", || h.write_chunk("a", &m, &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[1, 2]), v.clone())));
    let r = some_or_return!(r);
    if r.is_err() {
        if let Some(s) = s {
            check(same(s, ""), "a refused write leaves the stored chunk alone");
        }
        check(!before.is_empty() || stored("a/c1/2").is_none(), "a refused write stores nothing");
        reach("refused");
        return;
    }
    let b = some("the chunk's file exists", stored("a/c1/2"));
    check(b.len() >= magic.len() && eq(&b[..magic.len()], magic), "a compressed chunk has the format of its codec");
    check(b.len() > at && b[at] == shows, "the configured setting, or the documented substitute, is in effect");
    let r = no_panic("no compressor configuration makes reading a chunk panic", || h.read_chunk::<u16>("a", &m, gc(&[1, 2])));
    let r = some("a compressed chunk is present", ok("a compressed chunk is read", some_or_return!(r)));
    check(r.get_data().len() == n, "a compressed chunk is read with all its elements");
    check(eq(&le_all(r.get_data()), &le_all(&v)), "compression is lossless");
    let mut into = VecDataChunk::<u16>::new(gc(&[0, 0]), vec![7; 5]);
    some("a compressed chunk is present", ok("a compressed chunk is read into a buffer", h.read_chunk_into::<u16, _>("a", &m, gc(&[1, 2]), &mut into)));
    check(into.get_data().len() == n && eq(&le_all(into.get_data()), &le_all(&v)), "compression is lossless");
    reach("lossless");
}
fn snap_if(b: bool) -> Option<u64> {
    if b {
        Some(snap())
    } else {
        None
    }
}

/// Chunks of more bytes than compressors and the library buffer.
fn long(codec: u64, n: usize, kinds: u64) {
    library(kinds);
    let h = hier();
    let c = match codec {
        0 => json!({ "codec": GZIP, "configuration": { "level": choice("level", 10) } }),
        1 => json!({ "codec": "bzip2", "configuration": { "blockSize": 1 + choice("block", 9) } }),
        2 => json!({ "codec": "xz", "configuration": { "preset": choice("preset", 2) } }),
        _ => json!({ "codec": "lz4", "configuration": { "blockSize": (65536u64 + choice("block", 2)) } }),
    };
    let m = some("valid array metadata is loaded", with_compressor(&[n as u64], &[n as u64], "u1", &c));
    let x = bytes("v", if codec == 0 { 2 } else { 6 });
    let mut v: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    for (i, x) in x.iter().enumerate() {
        // gzip's checksum runs through everything behind a variable byte
        v[if codec == 0 { n - 1 - i } else { i * (n - 1) / 5 }] = *x;
    }
    ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u8, Vec<u8>>::new(gc(&[0]), v.clone())));
    let r = some("a compressed chunk is present", ok("a compressed chunk is read", h.read_chunk::<u8>("a", &m, gc(&[0]))));
    check(r.get_data().len() == n, "a compressed chunk is read with all its elements");
    check(eq(r.get_data(), &v), "compression is lossless");
    reach("long");
}

/// What is left of a compressed chunk that was cut short, or that is not of
/// the declared format.
fn damaged(codec: u64, kinds: u64) {
    library(kinds);
    let h = hier();
    let names = [GZIP, "bzip2", "xz", "lz4"];
    let meta_for = |i: u64| some("valid array metadata is loaded", with_compressor(&[8], &[2], "<u2", &json!({ "codec": names[i as usize], "configuration": {} })));
    let m = meta_for(codec);
    let v: Vec<u16> = elems("e", 2);
    ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[1]), v.clone())));
    let b = some("the chunk's file exists", stored("a/c1"));
    let f = format!("{}/data/root/a/c1", base());
    let how = choice("damage", 4 + names.len() as u64);
    match how {
        0 => {
            // every length; natively the compressed value has another length
            let cut = choice("cut", 64) as usize;
            if cut >= b.len() {
                return;
            }
            ok("file", std::fs::write(&f, &b[..cut]));
        }
        1 => {
            // bytes that belong to nothing
            let mut x = vec![0u8, 255, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7];
            x[4..8].copy_from_slice(&bytes("x", 4));
            ok("file", std::fs::write(&f, &x));
        }
        2 => {
            let mut x = b.clone();
            let extra = bytes("x", 3);
            x.extend_from_slice(&extra);
            ok("file", std::fs::write(&f, &x));
        }
        3 => ok("file", std::fs::write(&f, b"")),
        _ => {
            let other = how - 4;
            if other == codec {
                return;
            }
            ok("a chunk is written", h.write_chunk("a", &meta_for(other), &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[1]), v.clone())));
        }
    }
    let r = no_panic("reading a damaged compressed chunk does not panic", || h.read_chunk::<u16>("a", &m, gc(&[1])));
    match some_or_return!(r) {
        Err(_) => {
            check(how != 2, "bytes behind a compressed chunk do not make it unreadable");
            reach("error");
        }
        Ok(None) => check(false, "a damaged chunk is not taken for an absent one"),
        Ok(Some(r)) => {
            check(how == 0 || how == 2, "a value of another format is not taken for a chunk");
            check(r.get_data().len() == 2 && eq(&le_all(r.get_data()), &le_all(&v)), "a damaged chunk yields its elements or an error");
            reach("whole");
        }
    }
}

/// Writing and reading compressed chunks while the storage fails.
fn fault_codec(codec: u64, budget: u64, shorts: u64, kinds: u64) {
    library(kinds);
    let h = hier();
    let names = [GZIP, "bzip2", "xz", "lz4"];
    let m = some("valid array metadata is loaded", with_compressor(&[8], &[2], "<u2", &json!({ "codec": names[codec as usize], "configuration": {} })));
    let v: Vec<u16> = elems("e", 2);
    let w = || h.write_chunk("a", &m, &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[1]), v.clone()));
    let read = choice("read", 2) == 1;
    if read {
        ok("a chunk is written", w());
    }
    short_writes(shorts);
    fault(if read { F_OPEN | F_READ | F_STAT | F_FLOCK } else { F_OPEN | F_WRITE | F_STAT | F_MKDIR | F_FLOCK | F_TRUNC }, budget);
    if read {
        let r = no_panic("reading from failing storage does not panic", || h.read_chunk::<u16>("a", &m, gc(&[1])));
        let fired = faults_fired();
        fault(0, 0);
        match some_or_return!(r) {
            Err(_) => check(fired > 0, "a chunk is read unless the storage fails"),
            Ok(r) => {
                let r = some("failing storage does not make a chunk absent", r);
                check(eq(&le_all(r.get_data()), &le_all(&v)), "a read during which the storage fails yields an error, not other data");
            }
        }
        reach(if fired > 0 { "fault" } else { "nofault" });
    } else {
        let r = no_panic("writing to failing storage does not panic", w);
        let fired = faults_fired();
        fault(0, 0);
        short_writes(0);
        match some_or_return!(r) {
            Err(_) => check(fired > 0, "a chunk is written unless the storage fails"),
            Ok(()) => {
                let r = some("a chunk whose write succeeded is there", ok("a chunk whose write succeeded is readable", h.read_chunk::<u16>("a", &m, gc(&[1]))));
                check(eq(&le_all(r.get_data()), &le_all(&v)), "a chunk whose write succeeded is complete");
            }
        }
        reach(if fired > 0 { "fault" } else { "nofault" });
    }
}

/// Regions and whole arrays over compressed chunks.
fn region(codec: u64, kinds: u64) {
    library(kinds);
    let h = hier();
    let names = [GZIP, "bzip2", "xz", "lz4"];
    let mut d = doc(&[3, 4], &[2, 2], json!("<u2"), if choice("order", 2) == 0 { "C" } else { "F" }, json!(9));
    d["compressor"] = json!({ "codec": names[codec as usize], "configuration": {} });
    let m = some("valid array metadata is loaded", serde_json::from_value::<ArrayMetadata>(d).ok());
    let before: Vec<u16> = elems("before", 4);
    let stored = choice("stored", 2) == 1;
    if stored {
        ok("a chunk is written", h.write_chunk("a", &m, &SliceDataChunk::<u16, Vec<u16>>::new(gc(&[0, 1]), before.clone())));
    }
    let v: Vec<u16> = elems("v", 4);
    let a = Array::from_shape_vec(vec![2, 2], v.clone()).unwrap().into_dyn();
    ok("a region is written", h.write_ndarray("a", &m, gc(&[1, 1]), &a));
    let r = ok("a region is read", h.read_ndarray::<u16>("a", &m, &zarr::ndarray::BoundingBox::new(gc(&[0, 0]), gc(&[3, 4]))));
    let c = *m.get_chunk_memory_layout() == zarr::Order::RowMajor;
    for x in 0..3usize {
        for y in 0..4usize {
            let want = if (1..3).contains(&x) && (1..3).contains(&y) {
                v[(x - 1) * 2 + y - 1]
            } else if stored && x < 2 && y >= 2 {
                before[if c { x * 2 + y - 2 } else { x + (y - 2) * 2 }]
            } else {
                9
            };
            check(r[[x, y]] == want, "every cell of a compressed array is the last one written");
        }
    }
    reach("region");
}

entries! {
/// Z03: codec, elements, behaviour of the libraries
h_codec => { lossless(param(0), param(1) as usize, param(2)); }
h_codec_long => { long(param(0), param(1) as usize, param(2)); }
h_codec_region => { region(param(0), param(1)); }
h_codec_damaged => { damaged(param(0), param(1)); }
/// Z25
h_fault_codec => { fault_codec(param(0), param(1), param(2), param(3)); }
}
