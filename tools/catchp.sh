#!/bin/bash
# Like catch.sh, but on copies mounted over /repo and /verif in a namespace of
# their own, so that the working trees stay as they are.
# catchp.sh [-j WORKERS] ID[:PROPERTY]...
J=2; [ "$1" = -j ] && { J=$2; shift 2; }
one() {
  W=/tmp/cw/$1; I=${2%%:*}; P=${2#*:}; S=${SSRC:-/verif/seeded}/$I
  [ "$P" = "$2" ] && P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  mkdir -p $W/repo $W/verif
  rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/
  [ -d $W/verif/build ] || cp -a /verif/build $W/verif/
  rsync -a --delete --exclude build --exclude .git --exclude evidence ${VSRC:-/verif}/ $W/verif/; mkdir -p $W/verif/evidence
  (cd $W/repo && git init -q . 2>/dev/null; git apply $S/patch.diff && rm -rf $W/repo/.git) || { echo "$I: does not apply"; return; }
  find $W/repo/src -type f -exec touch {} +
  t=$(date +%s)
  unshare -m bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && /verif/check.py $P --tier ${TIER:-quick}" > /tmp/catch-$I-$P.out 2>&1; r=$?
  if [ $r = 1 ] && grep -q "^VIOLATION property=$P" /tmp/catch-$I-$P.out; then echo "$I: caught by $P ($(($(date +%s)-t)) s) $(grep -A1 ^VIOLATION /tmp/catch-$I-$P.out | grep -v ^VIOL | head -1 | cut -c1-150)"; rm -f /tmp/catch-$I-$P.out; else echo "$I: MISSED by $P (exit $r, $(($(date +%s)-t)) s)"; tail -3 /tmp/catch-$I-$P.out | cut -c1-300; fi
}
i=0
for w in $(seq 1 $J); do
  ( k=0; for a in "$@"; do k=$((k+1)); [ $((k % J)) = $((w % J)) ] && one $w $a; done ) &
done
wait
