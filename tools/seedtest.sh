#!/bin/bash
# seedtest.sh ID...: applies a seeded change to /repo, runs build + stable tests + demo + its property's check, undoes it
for id in "$@"; do
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply $s/patch.diff || { echo "$id does not apply"; continue; }
  if [ -z "$NOTESTS" ]; then bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1; fi
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedtest.json'))
need=set(b.get('passed') or b.get('tests') or b.get('stable'))
print('tests-ok' if need<=set(o['passed']) else 'TESTS-FAIL %s'%sorted(need-set(o['passed'])))
P
)
  (cd /repo; bash $s/demo.sh >/dev/null 2>&1); d=$?
  o=$(cd /verif; timeout 900 python3-vt check.py $p quick 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p $t demo=$d check=$c $(echo "$o" | grep -E 'VIOLATION|UNDECIDED|ERROR' | head -3 | cut -c1-200)"
done
