#!/bin/bash
# test_seed.sh ID...: applies each planted bug to /repo, builds, runs the stable
# tests and the check of its property, and undoes the change
V=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || b=BUILD-FAILED
  bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1
  t=$(python3 -c "
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=open('/tmp/seed_test.json').read(); r=json.loads(r)
def st(n):
  for k in ('passed','pass'):
    if k in r: return n in r[k]
  return str(r.get(n))
print('tests', all(st(n) for n in s))")
  (cd $V && timeout 900 python3 run.py --property $p --tier ${TIER:-quick} > /tmp/seed_check_$id.log 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p build=$b $t check exit $c: $(grep -m1 VIOLATION /tmp/seed_check_$id.log | cut -c1-200) $([ $c -eq 1 ] || tail -1 /tmp/seed_check_$id.log | cut -c1-200)"
done
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
