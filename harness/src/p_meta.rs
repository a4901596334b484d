//! Z19, Z20: metadata documents.
use crate::some_or_return;
use crate::sym::*;
use crate::util::*;
use serde_json::{json, Value};
use zarr::data_type::{DataType, Endian, ExtensibleDataType, FloatSize, IntSize};
use zarr::ndarray::prelude::*;
use zarr::prelude::*;

fn int_size(k: u64) -> (IntSize, u64) {
    match k {
        0 => (IntSize::B1, 1),
        1 => (IntSize::B2, 2),
        2 => (IntSize::B4, 4),
        _ => (IntSize::B8, 8),
    }
}
/// Any data type, with its spelling.
fn any_dtype(most: u64) -> (DataType, String) {
    let big = choice("big", 2) == 1;
    let endian = if big { Endian::Big } else { Endian::Little };
    let c = if big { ">" } else { "<" };
    match choice("dkind", 5) {
        0 => (DataType::Bool, "bool".to_string()),
        1 => {
            let (size, n) = int_size(choice("size", 4));
            (DataType::Int { size, endian }, if n == 1 { "i1".to_string() } else { format!("{}i{}", c, n) })
        }
        2 => {
            let (size, n) = int_size(choice("size", 4));
            (DataType::UInt { size, endian }, if n == 1 { "u1".to_string() } else { format!("{}u{}", c, n) })
        }
        3 => {
            let (size, n) = match choice("size", 3) {
                0 => (FloatSize::B2, 2),
                1 => (FloatSize::B4, 4),
                _ => (FloatSize::B8, 8),
            };
            (DataType::Float { size, endian }, format!("{}f{}", c, n))
        }
        _ => {
            // raw sizes are whole bytes
            let k = match choice("rwindow", 3) {
                0 => var("raw", 64, 0, most),
                1 => (1 << 32) / 8 - 2 + var("raw", 64, 0, 3),
                _ => u64::MAX / 8 - var("raw", 64, 0, 3),
            };
            (DataType::Raw { size: 8 * k as usize }, format!("r{}", 8 * k))
        }
    }
}
fn same_dtype(a: &DataType, b: &DataType) -> bool {
    match (a, b) {
        (DataType::Int { size: IntSize::B1, .. }, DataType::Int { size: IntSize::B1, .. }) => true,
        (DataType::UInt { size: IntSize::B1, .. }, DataType::UInt { size: IntSize::B1, .. }) => true,
        _ => a == b,
    }
}
/// Z19: data types, on their own and within metadata.
fn dtype(most: u64) {
    let (d, spelling) = any_dtype(most);
    let t = ok("a data type is written", some_or_return!(no_panic("writing a data type does not panic", || serde_json::to_string(&d))));
    check(eq(t.as_bytes(), format!("\"{}\"", spelling).as_bytes()), "a data type is written in its own spelling");
    observe("spelling", t.as_bytes());
    let r: DataType = ok("a data type is read back", some_or_return!(no_panic("reading a data type does not panic", || serde_json::from_str(&t))));
    check(same_dtype(&r, &d), "a data type is read back as written");
    let v = ok("a data type is written", serde_json::to_value(&d));
    let r: DataType = ok("a data type is read back", serde_json::from_value(v));
    check(same_dtype(&r, &d), "a data type is read back as written");
    let e = match choice("ext", 3) {
        0 => ExtensibleDataType::Core(d),
        1 => ExtensibleDataType::Extended { extension: "http://e.org/x".to_string(), type_string: "<M8[ns]".to_string(), fallback: Some(d) },
        _ => ExtensibleDataType::Extended { extension: "".to_string(), type_string: "<f8".to_string(), fallback: None },
    };
    let t = ok("a data type is written", serde_json::to_string(&e));
    let r: ExtensibleDataType = ok("a data type is read back", serde_json::from_str(&t));
    let good = match (&e, &r) {
        (ExtensibleDataType::Core(a), ExtensibleDataType::Core(b)) => same_dtype(a, b),
        (ExtensibleDataType::Extended { extension: e1, type_string: t1, fallback: f1 }, ExtensibleDataType::Extended { extension: e2, type_string: t2, fallback: f2 }) => {
            e1 == e2 && t1 == t2 && match (f1, f2) {
                (Some(a), Some(b)) => same_dtype(a, b),
                (None, None) => true,
                _ => false,
            }
        }
        _ => false,
    };
    check(good, "a data type is read back as written");
    reach("dtype");
}
/// A compressor configuration with arbitrary numbers.
fn compressor() -> Option<Value> {
    let n = match choice("cwindow", 4) {
        0 => var("cn", 8, 0, 20) as i64,
        1 => -(1 + var("cn", 8, 0, 20) as i64),
        2 => i32::MAX as i64 - var("cn", 8, 0, 9) as i64,
        _ => i32::MIN as i64 + var("cn", 8, 0, 9) as i64,
    };
    Some(match choice("codec", 6) {
        0 => return None,
        1 => json!({ "codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": { "level": n } }),
        2 => json!({ "codec": "bzip2", "configuration": { "blockSize": n & 255 } }),
        3 => json!({ "codec": "lz4", "configuration": { "blockSize": n } }),
        4 => json!({ "codec": "xz", "configuration": { "preset": n } }),
        _ => json!({ "codec": "xz", "configuration": {} }),
    })
}
fn fill_value() -> Value {
    match choice("fill", 8) {
        0 => Value::Null,
        1 => json!(var("fillv", 8, 0, 120)),
        2 => json!(-1 - (var("fillv", 8, 0, 120) as i64)),
        3 => json!([1.5, -0.0, 1e300, 0.1, 5e-324][choice("float", 5) as usize]),
        4 => json!([u64::MAX, i64::MAX as u64 + 1][choice("int", 2) as usize]),
        5 => json!("NaN"),
        6 => json!(bool_("fillb")),
        _ => json!({ "a": [1, null] }),
    }
}
/// Z19: whole array metadata, through text and through the store.
fn metadata(part: u64) {
    let (d, spelling) = match part {
        0 => any_dtype(20),
        _ => (DataType::UInt { size: IntSize::B2, endian: Endian::Big }, ">u2".to_string()),
    };
    let axes = if part == 1 { choice("axes", 3) as usize } else { 1 };
    let shape: Vec<u64> = (0..axes).map(|i| match choice(&format!("sw{}", i), if part == 1 { 2 } else { 1 }) {
        0 => var(&format!("s{}", i), 64, 0, 120),
        _ => u64::MAX - var(&format!("s{}", i), 64, 0, 9),
    }).collect();
    let chunk: Vec<u64> = (0..axes).map(|i| if i == 0 && part == 1 { var("ch", 32, 1, 12) } else { u32::MAX as u64 }).collect();
    let order = ["C", "F"][choice("order", 2) as usize];
    let mut x = doc(&shape, &chunk, json!(spelling), order, if part == 2 { fill_value() } else { json!(3) });
    if part == 3 {
        if let Some(c) = compressor() {
            x["compressor"] = c;
        }
    }
    if part == 4 {
        let b = bytes("text", 2);
        assume(and_all(b.iter().map(|&c| c < 0x80)));
        let t = unsafe { String::from_utf8_unchecked(b) };
        match choice("what", 3) {
            0 => x["chunk_grid"]["separator"] = json!(t),
            1 => x["attributes"] = json!({ t.clone(): [t, null, { "x": 1.5 }] }),
            _ => x["extensions"] = json!([{ "extension": t, "must_understand": false }, { "extension": "b", "must_understand": true, "configuration": { "c": 1 } }]),
        }
    }
    let m = meta_of(x.clone());
    check(m.get_shape() == &shape[..], "metadata has the shape given");
    check(m.get_chunk_shape().iter().zip(&chunk).all(|(a, b)| *a as u64 == *b), "metadata has the chunk shape given");
    check(*m.get_chunk_memory_layout() == if order == "C" { zarr::Order::RowMajor } else { zarr::Order::ColumnMajor }, "metadata has the memory order given");
    check(match m.get_data_type() { ExtensibleDataType::Core(e) => same_dtype(e, &d), _ => false }, "metadata has the data type given");
    check(m.get_fill_value().cloned().unwrap_or(Value::Null) == x["fill_value"], "metadata has the fill value given");
    let t = ok("metadata is written", some_or_return!(no_panic("writing metadata does not panic", || serde_json::to_string(&m))));
    let r: ArrayMetadata = ok("metadata is read back", serde_json::from_str(&t));
    check(r == m, "metadata is read back equal");
    // the document has the fields the protocol defines, with the values given
    let v: Value = ok("metadata is JSON", serde_json::from_str(&t));
    let mut y = x;
    if part == 3 {
        check(v.get("compressor").is_some() == y.get("compressor").is_some(), "a compressor is written unless it is the default");
        if y.get("compressor").map_or(false, |c| c["configuration"] == json!({})) {
            // defaults are spelled out
            y["compressor"]["configuration"] = json!({ "preset": 6 });
        }
    }
    check(v == y, "metadata is written as the document it came from");
    if part == 1 || part == 3 {
        let h = hier();
        ok("an array is created", h.create_array("a", &m));
        let g = ok("array metadata is read", h.get_array_metadata("a"));
        check(g == m, "metadata is read back equal from the store");
    }
    reach("metadata");
}

// ---- Z20 ------------------------------------------------------------------------
/// The data types of the protocol: bool, i1, u1, [<>][iu][1248]... and r<bits>.
fn spelled(b: &[u8]) -> Option<bool> {
    if b == b"bool" || b == b"i1" || b == b"u1" {
        return Some(true);
    }
    if b.len() == 3 && (b[0] == b'<' || b[0] == b'>') {
        let s = b[2];
        if b[1] == b'i' || b[1] == b'u' {
            if s == b'1' {
                return None; // superfluous byte order: either is fine
            }
            return Some(s == b'2' || s == b'4' || s == b'8');
        }
        return Some(b[1] == b'f' && (s == b'2' || s == b'4' || s == b'8'));
    }
    if !b.is_empty() && b[0] == b'r' {
        let d = &b[1..];
        if d.is_empty() {
            return Some(false);
        }
        if d[0] == b'+' || (d.len() > 1 && d[0] == b'0') {
            return None; // signs and leading zeros
        }
        let mut n = 0u64;
        for &c in d {
            if c < b'0' || c > b'9' {
                return Some(false);
            }
            n = n * 10 + (c - b'0') as u64;
        }
        return Some(n % 8 == 0);
    }
    Some(false)
}
fn dtype_text(n: usize, ascii: bool) {
    let b = bytes("text", n);
    if ascii {
        assume(and_all(b.iter().map(|&c| c < 0x80)));
    }
    let t = match String::from_utf8(b) {
        Ok(t) => t,
        Err(_) => return,
    };
    dtype_of(t);
}
/// Characters of one to four bytes among those of data types.
fn dtype_wide(n: u64) {
    let c = ["<", ">", "r", "f", "8", "0", "b1", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{661}"];
    let n = choice("chars", n + 1);
    dtype_of((0..n).map(|i| c[choice(&format!("c{}", i), c.len() as u64) as usize]).collect());
}
fn dtype_of(t: String) {
    let where_ = choice("where", 3);
    let v = match where_ {
        0 => Value::String(t.clone()),
        1 => json!({ "extension": "e", "type": "t", "fallback": t }),
        _ => json!({ "extension": "e", "type": t }),
    };
    let r = some_or_return!(no_panic("loading any data type does not panic", || serde_json::from_value::<ExtensibleDataType>(v)));
    let want = if where_ == 2 { Some(true) } else { spelled(t.as_bytes()) };
    if let Some(w) = want {
        check(r.is_ok() == w, "exactly the data types of the protocol are accepted");
    }
    if let Ok(e) = r {
        some_or_return!(no_panic("using a loaded data type does not panic", || {
            let _ = e.effective_type().map(|d| d.size_of());
            let _ = serde_json::to_string(&e);
        }));
        reach("accepted");
    } else {
        reach("refused");
    }
}
/// Any chunk grid in a stored document.
fn grid() {
    let h = hier();
    let n = choice("axes", 3) as usize;
    let k = choice("grid_axes", 3) as usize;
    let shape: Vec<u64> = (0..n).map(|i| var(&format!("s{}", i), 8, 0, 9)).collect();
    let chunk: Vec<u64> = (0..k).map(|i| match choice(&format!("cw{}", i), 3) {
        0 => var(&format!("c{}", i), 8, 0, 9),
        1 => u32::MAX as u64 - var(&format!("c{}", i), 8, 0, 3),
        _ => u32::MAX as u64 + 1,
    }).collect();
    let mut d = doc(&shape, &chunk, json!("u1"), "C", json!(7));
    d["chunk_grid"]["type"] = json!(["regular", "other"][choice("type", 2) as usize]);
    let f = format!("{}/meta/root/a.array.json", base());
    ok("directory", std::fs::create_dir_all(format!("{}/meta/root", base())));
    ok("file", std::fs::write(&f, serde_json::to_string(&d).unwrap_or_default()));
    let s = snap();
    let r = some_or_return!(no_panic("loading any chunk grid does not panic", || h.get_array_metadata("a")));
    let _ = some_or_return!(no_panic("testing for any array does not panic", || h.array_exists("a")));
    let usable = n == k && and_all(chunk.iter().map(|&c| and(c > 0, c <= u32::MAX as u64)));
    match r {
        Err(_) => {
            check(!usable || d["chunk_grid"]["type"] != "regular", "metadata with a usable chunk grid loads");
            reach("refused");
        }
        Ok(m) => {
            check(usable, "metadata without a usable chunk grid is refused");
            some_or_return!(no_panic("using loaded metadata does not panic", || {
                let e = m.get_grid_extent();
                check(e.len() == n, "a loaded grid has as many extents as axes");
                let _ = (m.get_num_chunks(), m.get_num_elements(), m.get_chunk_num_elements());
                let zero = gc(&vec![0; n]);
                let inb = m.in_bounds(&zero);
                check(inb == shape.iter().all(|&x| x > 0), "a loaded grid knows its chunks");
                let one = BoundingBox::new(gc(&vec![0; n]), gc(&vec![1; n]));
                let _ = m.coord_iter().take(2).count();
                let _ = m.bounded_coord_iter(&one).take(2).count();
                let _ = m.get_chunk_bounds(&zero);
                if inb {
                    check(ok("a chunk can be looked up", h.read_chunk::<u8>("a", &m, zero.clone())).is_none(), "an array that was never written has no chunks");
                }
                let a = ok("a region is read", h.read_ndarray::<u8>("a", &m, &one));
                check(a.iter().all(|&x| x == 7), "an array that was never written holds the fill value");
            }));
            reach("loaded");
        }
    }
    check(same(s, ""), "loading changes nothing");
}
/// Stored documents that are cut short, or have one byte altered.
fn altered(span: u64) {
    let h = hier();
    let array = choice("kind", 2) == 1;
    let mut d = doc(&[4, 3], &[2, 3], json!("<u2"), "F", json!(1));
    d["attributes"] = json!({ "k": 1 });
    d["extensions"] = json!([{ "extension": "e", "must_understand": false }]);
    d["compressor"] = json!({ "codec": "xz", "configuration": { "preset": 6 } });
    let good = if array { serde_json::to_string(&d) } else { serde_json::to_string(&json!({ "extensions": [], "attributes": { "k": 1 } })) }.unwrap_or_default().into_bytes();
    let k = (choice("at", (good.len() as u64 + span - 1) / span) * span) as usize;
    let t = if choice("how", 2) == 0 {
        good[..k].to_vec()
    } else {
        let mut t = good.clone();
        t[k] = u8_("byte");
        t
    };
    ok("directory", std::fs::create_dir_all(format!("{}/meta/root", base())));
    ok("file", std::fs::write(format!("{}/meta/root/a.{}.json", base(), if array { "array" } else { "group" }), &t));
    let s = snap();
    let r = some_or_return!(no_panic("loading any metadata does not panic", || (h.get_array_metadata("a"), h.list_attributes("a"), h.array_exists("a"), h.list_nodes(""))));
    if t.len() < good.len() {
        check(r.0.is_err() && r.1.is_err(), "metadata that is cut short does not load");
        check(!matches!(r.2, Ok(true)), "an array whose metadata is cut short is not reported to exist");
        check(same(s, ""), "loading changes nothing");
        check(some_or_return!(no_panic("updating any metadata does not panic", || h.set_attribute("a", "q".to_string(), 1))).is_err(), "attributes of metadata that is cut short can not be set");
        check(same(s, ""), "a refused update changes nothing");
    }
    if let Ok(m) = r.0 {
        some_or_return!(no_panic("using loaded metadata does not panic", || {
            let n = m.get_ndim();
            let zero = gc(&vec![0; n]);
            let _ = (m.get_num_chunks(), m.get_grid_extent(), m.in_bounds(&zero));
            let _ = m.get_effective_fill_value::<u16>();
            let _ = serde_json::to_string(&m);
            let one = BoundingBox::new(gc(&vec![0; n]), gc(&vec![1; n]));
            let _ = m.bounded_coord_iter(&one).take(2).count();
            let _ = h.read_ndarray::<u16>("a", &m, &one);
        }));
    }
    some_or_return!(no_panic("updating any metadata does not panic", || {
        let _ = h.set_attribute("a", "q".to_string(), 1);
    }));
    reach(if array { "array" } else { "group" });
}

/// Fields that are missing or of another kind.
fn fields() {
    let h = hier();
    const FIELDS: [&str; 11] = ["shape", "data_type", "chunk_grid", "type", "chunk_shape", "separator", "chunk_memory_layout", "extensions", "attributes", "compressor", "fill_value"];
    let f = choice("field", 11) as usize;
    let name = FIELDS[f];
    let n = var("n", 16, 0, 40);
    let k = choice("value", 17);
    let x = match k {
        0 => None,
        1 => Some(Value::Null),
        2 => Some(json!(true)),
        3 => Some(json!(n)),
        4 => Some(json!(-1 - n as i64)),
        5 => Some(json!(1.5)),
        6 => Some(json!("x")),
        7 => Some(json!("C")),
        8 => Some(json!([])),
        9 => Some(json!([n])),
        10 => Some(json!([-1 - n as i64])),
        11 => Some(json!([1.5])),
        12 => Some(json!(["x"])),
        13 => Some(json!([null])),
        14 => Some(json!({})),
        15 => Some(json!({ "a": 1 })),
        _ => Some(json!([n, 2])),
    };
    let good = match name {
        "shape" => k == 9,
        "chunk_shape" => and(k == 9, n > 0),
        "type" | "separator" => k == 6 || k == 7,
        "chunk_memory_layout" => k == 7,
        "extensions" => k == 8,
        "attributes" => k == 14 || k == 15,
        "compressor" => k == 0,
        "fill_value" => true,
        _ => false,
    };
    let mut d = doc(&[4], &[2], json!("u1"), "F", json!(7));
    {
        let o = if (3..6).contains(&f) { d["chunk_grid"].as_object_mut() } else { d.as_object_mut() };
        if let Some(o) = o {
            match x {
                None => {
                    o.remove(name);
                }
                Some(x) => {
                    o.insert(name.to_string(), x);
                }
            }
        }
    }
    ok("directory", std::fs::create_dir_all(format!("{}/meta/root", base())));
    ok("file", std::fs::write(format!("{}/meta/root/a.array.json", base()), serde_json::to_string(&d).unwrap_or_default()));
    let s = snap();
    let r = some_or_return!(no_panic("loading any metadata does not panic", || h.get_array_metadata("a")));
    let e = some_or_return!(no_panic("testing for any array does not panic", || h.array_exists("a")));
    check(r.is_ok() == good, "exactly metadata whose fields are all there and of the right kind loads");
    check(matches!(e, Ok(true)) == good, "exactly an array whose metadata loads exists");
    if let Ok(m) = r {
        some_or_return!(no_panic("using loaded metadata does not panic", || {
            let _ = (m.get_grid_extent(), m.get_num_chunks(), m.get_num_elements(), m.get_effective_fill_value::<u8>());
            let one = BoundingBox::new(gc(&[0]), gc(&[1]));
            let c = m.bounded_coord_iter(&one).count();
            check(c as u64 == if m.get_shape()[0] > 0 { 1 } else { 0 }, "a loaded grid knows its chunks");
            if m.get_effective_fill_value::<u8>().is_ok() {
                let a = ok("a region is read", h.read_ndarray::<u8>("a", &m, &one));
                check(a.len() == 1, "a region is read");
            }
            let _ = serde_json::to_string(&m);
        }));
        reach("loaded");
    } else {
        reach("refused");
    }
    check(same(s, ""), "loading changes nothing");
}

// ---- Z13, Z18, Z19: numbers as text -----------------------------------------------
fn put_text(key: &str, v: &str) {
    let f = format!("{}/{}", base(), key);
    if let Some(d) = std::path::Path::new(&f).parent() {
        ok("directory", std::fs::create_dir_all(d));
    }
    ok("file", std::fs::write(&f, v));
}
fn stored_fill(text: &str) -> f64 {
    let h = hier();
    // the text stands in the document as another program has put it there
    put_text("meta/root/a.array.json", &format!("{{\"shape\":[3],\"data_type\":\"<f8\",\"chunk_grid\":{{\"type\":\"regular\",\"chunk_shape\":[2],\"separator\":\"/\"}},\"chunk_memory_layout\":\"C\",\"fill_value\":{},\"extensions\":[],\"attributes\":{{}}}}", text));
    let m = ok("an array with a fill value is loaded", h.get_array_metadata("a"));
    ok("a stored number is a fill value", m.get_effective_fill_value::<f64>())
}
const POW: [f64; 23] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];
/// Every number of n digits (at most 15) with a decimal point and an exponent:
/// its digits and the power of ten are exact, so their quotient or product is
/// the nearest number.
fn float_digits(n: usize) {
    let neg = choice("sign", 2) == 1;
    let point = choice("point", n as u64) as usize;
    let exp = [0i32, 3, -3, -7, 9][choice("exp", 5) as usize];
    let d = bytes("digits", n);
    let mut sig = 0u64;
    for &c in &d {
        assume(and(c >= b'0', c <= b'9'));
        sig = sig * 10 + u64::from(c - b'0');
    }
    if point > 0 {
        assume(d[0] != b'0');
    }
    let mut t = if neg { "-".to_string() } else { String::new() };
    if point == 0 {
        t.push('0');
    }
    t.push_str(unsafe { std::str::from_utf8_unchecked(&d[..point]) });
    t.push('.');
    t.push_str(unsafe { std::str::from_utf8_unchecked(&d[point..]) });
    if exp != 0 {
        t.push_str(&format!("e{}", exp));
    }
    let k = exp - (n - point) as i32;
    let mut want = if k < 0 { sig as f64 / POW[-k as usize] } else { sig as f64 * POW[k as usize] };
    if neg {
        want = -want;
    }
    check(stored_fill(&t).to_bits() == want.to_bits(), "a fill value in decimal notation is the nearest number");
    reach("digits");
}
/// Numbers of every length and magnitude, among them the hardest to convert.
const NUMBERS: [(&str, f64); 32] = [
    ("0.1", 0.1), ("0.3333333333333333", 0.3333333333333333), ("1e22", 1e22), ("1e23", 1e23), ("1.7976931348623157e308", f64::MAX),
    ("5e-324", 5e-324), ("2.2250738585072014e-308", f64::MIN_POSITIVE), ("-0.0", -0.0), ("0.0", 0.0), ("123456789.125", 123456789.125), ("3.141592653589793", std::f64::consts::PI),
    ("0.30000000000000004", 0.30000000000000004), ("1e-7", 1e-7), ("6.02214076e23", 6.02214076e23), ("1.6021766208e-19", 1.6021766208e-19),
    ("4.35", 4.35), ("6.62607015e-34", 6.62607015e-34), ("1e300", 1e300), ("1e-300", 1e-300), ("0.1234567890123456", 0.1234567890123456), ("273.15", 273.15),
    ("1.4142135623730951", std::f64::consts::SQRT_2), ("123456.78901234567", 123456.78901234567), ("9007199254740992.0", 9007199254740992.0), ("4294967295.0", 4294967295.0),
    ("18446744073709551615.0", 18446744073709551615.0), ("-9.5", -9.5), ("1.0", 1.0),
    // not converted to the nearest number
    ("0.9650074960886351", 0.9650074960886351), ("-1.642959551865238e38", -1.642959551865238e38), ("8.383658838626809e-78", 8.383658838626809e-78), ("1.0783972713012537e226", 1.0783972713012537e226),
];
fn float_text(how: u64) {
    let (t, x) = NUMBERS[choice("number", NUMBERS.len() as u64) as usize];
    match how {
        0 => check(stored_fill(t).to_bits() == x.to_bits(), &format!("the stored fill value {} is the nearest number", t)),
        how => {
            let h = hier();
            let mut m = meta(&[3], &[2], "<f8", "C", if how == 1 { json!(x) } else { Value::Null });
            if how == 1 {
                ok("an array is created", h.create_array("a", &m));
                m = ok("array metadata is read", h.get_array_metadata("a"));
                let y: f64 = ok("the fill value is known", m.get_effective_fill_value());
                check(y.to_bits() == x.to_bits(), &format!("the fill value {} survives being stored", t));
            } else {
                ok("an array is created", h.create_array("a", &m));
                ok("an attribute is set", h.set_attribute("a", "x".to_string(), x));
                let a = ok("attributes are listed", h.list_attributes("a"));
                let y = a.get("x").and_then(|v| v.as_f64());
                check(y.map(|y| y.to_bits()) == Some(x.to_bits()), &format!("the attribute value {} survives being stored", t));
            }
        }
    }
    reach("text");
}
/// An update of one attribute keeps the value of another.
fn float_kept() {
    let (t, _) = NUMBERS[choice("number", NUMBERS.len() as u64) as usize];
    let h = hier();
    put_text("meta/root/g.group.json", &format!("{{\"extensions\":[],\"attributes\":{{\"x\":{},\"y\":1}}}}", t));
    let x = |h: &FilesystemHierarchy| some("an attribute is there", ok("attributes are listed", h.list_attributes("g")).get("x").and_then(|v| v.as_f64()));
    let before = x(&h);
    ok("an attribute is set", h.set_attribute("g", "y".to_string(), 2));
    check(x(&h).to_bits() == before.to_bits(), &format!("an attribute of value {} is kept when another is set", t));
    reach("kept");
}

entries! {
/// Z13
h_float_digits => { float_digits(param(0) as usize); }
/// Z13, Z18, Z19
h_float_text => { float_text(param(0)); }
h_float_kept => { float_kept(); }
/// Z19
h_dtype => { dtype(param(0)); }
h_metadata => { metadata(param(0)); }
/// Z20
h_dtype_wide => { dtype_wide(param(0)); }
h_dtype_text => { dtype_text(param(0) as usize, param(1) == 1); }
h_grid_doc => { grid(); }
h_fields => { fields(); }
h_altered => { altered(param(0)); }
}
