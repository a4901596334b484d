#!/bin/bash
# Builds demo.rs beside this file against /repo's crate and runs it.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null; export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
T=$(mktemp -d) || exit 2
mkdir -p $T/src
cp $D/demo.rs $T/src/main.rs
cp /repo/Cargo.lock $T/Cargo.lock
cat > $T/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
zarr = { path = "/repo" }
serde_json = "1"
ndarray = "0.13"
half = "1"
X
(cd $T && RUSTFLAGS=-Awarnings cargo build --offline -q) || { rm -rf "$T"; exit 2; }
mkdir $T/scratch
(cd $T/scratch && SCRATCH=$T/scratch timeout 120 $T/target/debug/demo)
r=$?
rm -rf "$T"
exit $r
