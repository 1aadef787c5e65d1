#!/bin/bash
# build /repo, run its tests, report stable tests that do not pass
bash /opt/vp/build.sh > /tmp/stable-build.log 2>&1 || { tail -20 /tmp/stable-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable-out.json > /tmp/stable-test.log 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/stable-out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in r['passed']]
print('stable %d, passing %d, missing %s'%(len(b['stable']),len(b['stable'])-len(miss),miss))
raise SystemExit(1 if miss else 0)
P
