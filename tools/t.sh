#!/bin/bash
# development helper: rebuild /repo and confirm that every stable test passes
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print('STABLE OK' if not m else 'MISSING %s'%sorted(m))
P
