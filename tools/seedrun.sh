#!/bin/bash
# bash tools/seedrun.sh [id ...]: run each planted bug's own check (and the stable tests with -t) against it
cd "$(dirname "$0")/.."
T=; [ "$1" = -t ] && { T=1; shift; }
ids=${*:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  bash check.sh $p > /tmp/seedrun.$id.txt 2>&1; rc=$?
  e=$(( $(date +%s)-s ))
  st=
  if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/seedrun.json >/dev/null 2>&1
    st=$(python3 -c "import json;o=json.load(open('/tmp/seedrun.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests-broken',len(set(b['stable'])-set(o['passed'])))"); fi
  git -C /repo checkout -- .
  echo "$id $p rc=$rc ${e}s $(grep -c '^refuted' /tmp/seedrun.$id.txt) refuted; $(grep VIOLATION /tmp/seedrun.$id.txt | cut -c1-120) $st"
done
