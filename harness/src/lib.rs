//! Harness entry points: each `h_*` states one part of a property of zarr over
//! symbolic inputs.  Compiled twice: to LLVM bitcode for the symbolic
//! executor, and natively for replaying its counterexamples and sample paths.
#![allow(clippy::missing_safety_doc)]
pub mod sym;
#[macro_use]
pub mod util;
#[cfg(feature = "standins")]
pub mod codec;
pub mod p_grid;
pub mod p_chunk;
pub mod p_nd;
pub mod p_path;
pub mod p_node;
pub mod p_meta;
pub mod p_fault;
pub mod p_codec;
pub mod p_store;
pub mod p_more;

/// Entry points by name, for the native replayer.
pub fn entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
    p_grid::entries(&mut v);
    p_chunk::entries(&mut v);
    p_nd::entries(&mut v);
    p_path::entries(&mut v);
    p_node::entries(&mut v);
    p_meta::entries(&mut v);
    p_fault::entries(&mut v);
    p_codec::entries(&mut v);
    p_store::entries(&mut v);
    p_more::entries(&mut v);
    v
}
