#!/bin/bash
# rebuild /repo and run its stable tests
bash /opt/vp/build.sh > /tmp/rt.log 2>&1 || { tail -30 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >> /tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
m=[t for t in b['stable'] if t not in r['passed']]
print("stable failing:", m)
P
