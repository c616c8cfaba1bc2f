#!/bin/bash
# development helper: for each seeded change given (default all): demo on the clean tree, then with the patch: build, stable tests, demo, and the check of its property
cd /verif/seeded; [ $# = 0 ] && set -- *
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1; (cd /repo; for i in "$@"; do bash /verif/seeded/$i/demo.sh >/tmp/demo.log 2>&1 || { echo "$i: DEMO FAILS CLEAN"; tail -3 /tmp/demo.log; }; done)
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: no apply"; continue; }
  t=$([ -n "$NOTEST" ] && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || bash /verif/tools/t.sh 2>&1 | tail -1)
  (cd /repo; bash /verif/seeded/$i/demo.sh >/tmp/demo.log 2>&1; r=$?; d=$([ $r = 0 ] && echo "DEMO-QUIET" || echo "demo ok($r)"); cd /verif; python3 tools/check.py $p >/tmp/seedchk.log 2>&1; c=$?; echo "$i [$p] $t | $d | check=$c $([ $c = 1 ] && echo CAUGHT || echo MISSED) $(grep -m1 '^  ' /tmp/seedchk.log | cut -c1-150)")
  python3 - "$i" "$p" <<'P'
import json,sys,re
f='/verif/tools/seed_results.json'
try: d=json.load(open(f))
except Exception: d={}
l=[x.strip() for x in open('/tmp/seedchk.log') if x.startswith('  ') and ': ' in x]
d[sys.argv[1]]=('by '+sys.argv[2]+': '+re.sub(r'^[^:]*: ','',l[0]).replace('|','/')[:110]) if l else 'missed by '+sys.argv[2]
json.dump(d,open(f,'w'),indent=0,sort_keys=True)
P
  git -C /repo checkout -q -- .
done
