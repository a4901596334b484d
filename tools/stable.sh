#!/bin/bash
# run the repository's tests on /repo and compare with the stable list
bash /opt/vp/build.sh >/tmp/stable.build 2>&1 || { tail -20 /tmp/stable.build; exit 1; }
bash /opt/vp/test.sh /tmp/r.json >/dev/null 2>&1
python3 -c "
import json
r=set(json.load(open('/tmp/r.json'))['passed']); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('missing', sorted(b-r), 'of', len(b))"
