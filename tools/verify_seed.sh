#!/bin/bash
# verify_seed.sh ID...: does the planted bug build, pass the stable tests, fail its demo, and is it caught?  (/repo is restored)
V=$(cd "$(dirname "$0")/.." && pwd)
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; rb=$?
  bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
  t=skipped; [ -n "$NOTEST" ] || t=$(bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/seed.json'))['passed'])
m=[x for x in b if x not in o];print('ok' if not m else 'BROKEN %d %s'%(len(m),m[:3]))
P
)
  c=$(cd $V && python3 check.py $prop quick 2>/dev/null >/tmp/seedcheck.log; echo $?)
  git checkout -q -- .
  n=$(grep -c "^VIOLATION property=$prop" /tmp/seedcheck.log)
  echo "$id: property=$prop build=$rb demo(unchanged)=$r0 demo(patched)=$r1 tests=$t check=$c violations=$n $([ $r0 = 0 -a $r1 != 0 -a $rb = 0 ] && echo COUNTS || echo NOT-COUNTING) $([ $c = 1 ] && echo CAUGHT || echo MISSED)"
  grep "^violated" /tmp/seedcheck.log | cut -c1-200 | head -3
done
bash /opt/vp/build.sh >/dev/null 2>&1
