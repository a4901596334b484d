use crate::sym::*;
use serde_json::{json, Value};
use zarr::prelude::*;

pub use smallvec::smallvec;
pub use zarr::{ChunkCoord, GridCoord};

macro_rules! entries {
    ($($(#[$a:meta])* $n:ident => $b:block)*) => {
        $( $(#[$a])* #[no_mangle] pub extern "C-unwind" fn $n() $b )*
        pub fn entries(v: &mut Vec<(&'static str, extern "C-unwind" fn())>) {
            $( v.push((stringify!($n), $n)); )*
        }
    };
}

/// Array metadata as a document another program could have stored; the numbers
/// may be symbolic (they stay JSON numbers, no text is produced from them).
pub fn doc(shape: &[u64], chunk: &[u64], dtype: Value, order: &str, fill: Value) -> Value {
    json!({
        "shape": shape,
        "data_type": dtype,
        "chunk_grid": {"type": "regular", "chunk_shape": chunk, "separator": "/"},
        "chunk_memory_layout": order,
        "fill_value": fill,
        "extensions": [],
        "attributes": {},
    })
}
pub fn meta_of(d: Value) -> ArrayMetadata {
    match serde_json::from_value::<ArrayMetadata>(d) {
        Ok(m) => m,
        Err(_) => {
            check(false, "valid array metadata was refused");
            unreachable!()
        }
    }
}
pub fn meta(shape: &[u64], chunk: &[u64], dtype: &str, order: &str, fill: Value) -> ArrayMetadata {
    meta_of(doc(shape, chunk, json!(dtype), order, fill))
}
/// The panic-free body of a harness: a panic anywhere in it is a violation.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match catch(f) {
        Ok(r) => Some(r),
        Err(_) => {
            check(false, what);
            None
        }
    }
}
#[macro_export]
macro_rules! some_or_return {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return,
        }
    };
}
pub fn and_all(it: impl IntoIterator<Item = bool>) -> bool {
    it.into_iter().fold(true, and)
}
pub fn gc(v: &[u64]) -> GridCoord {
    v.iter().cloned().collect()
}

// ---- hierarchies --------------------------------------------------------------
use zarr::prelude::FilesystemHierarchy;
/// A fresh filesystem hierarchy in the scratch directory.
pub fn hier() -> FilesystemHierarchy {
    match FilesystemHierarchy::open_or_create(base()) {
        Ok(h) => h,
        Err(_) => {
            check(false, "a hierarchy cannot be created in an empty place");
            unreachable!()
        }
    }
}
pub fn ok<R, E>(what: &str, r: Result<R, E>) -> R {
    match r {
        Ok(r) => r,
        Err(_) => {
            check(false, what);
            unreachable!()
        }
    }
}
pub fn some<R>(what: &str, r: Option<R>) -> R {
    match r {
        Some(r) => r,
        None => {
            check(false, what);
            unreachable!()
        }
    }
}

// ---- element types --------------------------------------------------------------
pub trait El: zarr::ReflectedType + Copy {
    const SIZE: usize;
    fn of_le(b: &[u8]) -> Self;
    fn le(self) -> Vec<u8>;
}
macro_rules! el {
    ($($t:ty, $u:ty, $of:expr, $to:expr;)*) => { $(
        impl El for $t {
            const SIZE: usize = std::mem::size_of::<$u>();
            fn of_le(b: &[u8]) -> Self {
                let mut a = [0u8; std::mem::size_of::<$u>()];
                a.copy_from_slice(b);
                $of(<$u>::from_le_bytes(a))
            }
            fn le(self) -> Vec<u8> { $to(self).to_le_bytes().to_vec() }
        }
    )* };
}
el! {
    u8, u8, |x| x, |x: u8| x;
    u16, u16, |x| x, |x: u16| x;
    u32, u32, |x| x, |x: u32| x;
    u64, u64, |x| x, |x: u64| x;
    i8, u8, |x| x as i8, |x: i8| x as u8;
    i16, u16, |x| x as i16, |x: i16| x as u16;
    i32, u32, |x| x as i32, |x: i32| x as u32;
    i64, u64, |x| x as i64, |x: i64| x as u64;
    f32, u32, f32::from_bits, |x: f32| x.to_bits();
    f64, u64, f64::from_bits, |x: f64| x.to_bits();
    half::f16, u16, half::f16::from_bits, |x: half::f16| x.to_bits();
    bool, u8, |x| x & 1 == 1, |x: bool| x as u8;
}
/// The bytes of `v` in element order, little endian within an element.
pub fn le_all<T: El>(v: &[T]) -> Vec<u8> {
    v.iter().flat_map(|x| x.le()).collect()
}
/// `n` arbitrary elements.
pub fn elems<T: El>(name: &str, n: usize) -> Vec<T> {
    let b = bytes(name, n * T::SIZE);
    (0..n).map(|i| T::of_le(&b[i * T::SIZE..(i + 1) * T::SIZE])).collect()
}
/// The bytes in declared byte order, from little-endian ones.
pub fn to_order(le: &[u8], size: usize, big: bool) -> Vec<u8> {
    if !big {
        return le.to_vec();
    }
    le.chunks(size).flat_map(|c| c.iter().rev().cloned().collect::<Vec<u8>>()).collect()
}
/// Calls `$f::<T>(dtype name, big endian)` for one of all element types.
#[macro_export]
macro_rules! for_dtype {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<bool>("bool", false $(, $a)*),
            1 => $f::<u8>("u1", false $(, $a)*),
            2 => $f::<i8>("i1", false $(, $a)*),
            3 => $f::<u16>("<u2", false $(, $a)*),
            4 => $f::<u16>(">u2", true $(, $a)*),
            5 => $f::<i16>("<i2", false $(, $a)*),
            6 => $f::<i16>(">i2", true $(, $a)*),
            7 => $f::<half::f16>("<f2", false $(, $a)*),
            8 => $f::<half::f16>(">f2", true $(, $a)*),
            9 => $f::<u32>("<u4", false $(, $a)*),
            10 => $f::<u32>(">u4", true $(, $a)*),
            11 => $f::<i32>("<i4", false $(, $a)*),
            12 => $f::<i32>(">i4", true $(, $a)*),
            13 => $f::<f32>("<f4", false $(, $a)*),
            14 => $f::<f32>(">f4", true $(, $a)*),
            15 => $f::<u64>("<u8", false $(, $a)*),
            16 => $f::<u64>(">u8", true $(, $a)*),
            17 => $f::<i64>("<i8", false $(, $a)*),
            18 => $f::<i64>(">i8", true $(, $a)*),
            19 => $f::<f64>("<f8", false $(, $a)*),
            _ => $f::<f64>(">f8", true $(, $a)*),
        }
    };
}
pub const NDTYPES: u64 = 21;
