#!/bin/bash
# tools/seeds.sh [IDS]: run the check of every planted bug against a patched clone (development only)
cd /verif; ids=${@:-$(ls seeded)}
for id in $ids; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 W=/tmp/sd_$id; rm -rf $W; git clone -q /repo $W; git -C $W apply /verif/seeded/$id/patch.diff
 out=$(VF_REPO=$W python3 check.py $p quick 2>&1); rc=$?
 echo "$id $p rc=$rc $(echo "$out" | grep -E 'clause|VIOLATION' | head -3 | tr '\n' '|' | cut -c1-230)"
 rm -rf $W
done
