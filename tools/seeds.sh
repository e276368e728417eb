#!/bin/bash
# Applies each planted bug to /repo, runs build, tests, its demo and its property's check, and undoes it. Usage: seeds.sh [id...]
cd /verif/seeded || exit 2
[ $# -gt 0 ] || set -- *
for id in "$@"; do
    prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
    (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/seed.demo0 2>&1); d0=$?
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    np=$(python3 -c "
import json; r=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
ok=set(r['passed']); base=b.get('passed') or b.get('stable') or b
print(len([t for t in base if t in ok]), '/', len(base))")
    (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
    t0=$(date +%s)
    NESTL_X=1 python3 /verif/check.py $prop >/tmp/seed.check.$id 2>&1; rc=$?
    t1=$(date +%s)
    git -C /repo checkout -- .
    echo "$id $prop demo clean=$d0 bug=$d1 tests $np check rc=$rc $(grep -c VIOLATION /tmp/seed.check.$id) $((t1-t0))s: $(grep '^what' /tmp/seed.check.$id | cut -c1-140)"
done
