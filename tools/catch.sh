#!/bin/bash
# does the property's check catch the planted bug?  catch.sh ID...
for I in "$@"; do
S=/verif/seeded/$I
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply $S/patch.diff || { echo "$I: does not apply"; continue; }
t=$(date +%s)
/verif/check.py $P --tier quick > /tmp/catch-$I.out 2>&1; r=$?
git -C /repo checkout -q -- .
if [ $r = 1 ] && grep -q "^VIOLATION property=$P" /tmp/catch-$I.out; then echo "$I: caught by $P ($(($(date +%s)-t)) s)"; grep -A1 ^VIOLATION /tmp/catch-$I.out | grep -v ^VIOL | head -2; rm -f /tmp/catch-$I.out; else echo "$I: MISSED by $P (exit $r)"; tail -4 /tmp/catch-$I.out; fi
done
