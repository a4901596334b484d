#!/bin/bash
# confirm a planted bug in a scratch copy: seedtest.sh ID
I=$1; S=/verif/seeded/$I; W=/tmp/seedw
. /opt/vp/env.sh; unset CARGO_TARGET_DIR
mkdir -p $W; find $W -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +
git -C /repo archive HEAD | tar x -C $W; cp /repo/Cargo.lock $W/
[ -d $W/target ] || cp -a /repo/target $W/
(cd $W && git init -q . && git apply $S/patch.diff) || { echo "$I: patch does not apply"; exit 1; }
find $W/src -type f -exec touch {} +
cd $W; export CARGO_TARGET_DIR=$W/target
mkdir -p target/vp-logs; rm -f target/vp-logs/*
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp-logs/default.log 2>&1
cargo test --workspace --no-fail-fast --offline --lib --features lz_pure -- compression::lz_pure:: > target/vp-logs/lz.log 2>&1
python3 /opt/vp/results.py $W/r.json "cargo:$W/target/vp-logs/*.log" > /dev/null
unset CARGO_TARGET_DIR
python3 -c "
import json,sys
r=set(json.load(open('$W/r.json'))['passed']); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=sorted(b-r)
print('$I: missing stable tests',m[:5]) if m else None
sys.exit(1 if m else 0)" || { grep -E '^error' -A6 $W/target/vp-logs/default.log | head -12; exit 1; }
D=/tmp/demod-$I; mkdir -p $D; cp $S/* $D/; sed -i "s#/repo#$W#g" $D/demo.sh
bash $D/demo.sh > $D/out 2>&1; b=$?
grep -v '^note' $D/out | tail -2
bash $S/demo.sh > $D/out 2>&1; a=$?
[ $a = 0 ] || tail -5 $D/out
echo "$I: unchanged=$a patched=$b"
rm -rf $D
[ $a = 0 ] && [ $b != 0 ] && [ $b != 2 ]
