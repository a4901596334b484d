#!/bin/bash
# Build everything a check needs, from /repo's current working tree:
#   engine (symbolic executor), harness bitcode -> IR, native replayer.
# Usage: build.sh [engine] [ir] [native]   (default: all)
set -e -o pipefail
V=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_BUILD_RUSTFLAGS
B=$V/build
mkdir -p $B
what=${*:-engine ir native}
part() { case $1 in
engine)
  (cd $V/engine && CARGO_TARGET_DIR=$B/engine cargo build --release --offline -q) ;;
ir)
  SYS=$(rustc --print sysroot); BIN=$SYS/lib/rustlib/x86_64-unknown-linux-gnu/bin
  T=$B/ir; rm -f $T/release/deps/zh-*.bc $T/release/deps/*zh*.rcgu.* 2>/dev/null || true
  touch $V/harness/src/lib.rs
  (cd $V/harness && RUSTFLAGS='-Csave-temps -Awarnings' CARGO_TARGET_DIR=$T cargo rustc --lib --crate-type staticlib --release --features standins --offline -q)
  bc=$(ls -t $T/release/deps/zh-*-cgu.0.rcgu.bc 2>/dev/null | head -1 || true)
  [ -n "$bc" ] || { echo "no bitcode produced" >&2; exit 3; }
  grep -hoE '^h_[a-z0-9_]+ =>' $V/harness/src/*.rs | sed 's/ =>//' > $B/api.txt
  $BIN/opt -strip-debug -passes='internalize,globaldce' -internalize-public-api-file=$B/api.txt $bc -o $B/fin.bc
  $BIN/llvm-dis $B/fin.bc -o $B/fin.ll.new && mv $B/fin.ll.new $B/fin.ll ;;
native)
  mkdir -p $B/native; (cd $V/replay && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$B/native cargo build --profile native --offline -q) ;;
*) echo "unknown part $1" >&2; exit 3 ;;
esac; }
# the parts are independent of each other; one build of each at a time
pids=()
for w in $what; do (exec 9>$B/lock-$w; flock 9; part $w) & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait $p || rc=$?; done
exit $rc
