#!/bin/bash
# runseeds.sh "IDS" "PROPS": runs the quick checks of PROPS (default: the bug's own) against scratch copies with each planted bug
cd /verif
for id in ${1:-$(ls seeded)}; do
  W=/tmp/seedrun; rm -rf /tmp/seedrun; cp -a /repo $W; git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  own=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for p in ${2:-$own}; do
    out=$(DXSS_SRC=$W/src timeout 900 ./check.sh $p --tier quick --seed ${SEED:-1} 2>&1); rc=$?
    echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 "^\[" | cut -c1-160)"
  done
done
rm -rf /tmp/seedrun
