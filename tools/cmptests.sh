#!/bin/bash
# rebuild /repo and compare the stable tests with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/out.json'))
m=sorted(b-set(o['passed'])); print("stable",len(b),"missing",m)
raise SystemExit(1 if m else 0)
P
