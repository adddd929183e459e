#!/bin/bash
# tools/symseeds.sh SECONDS [IDS]: deductive run only, against every planted bug (development only)
cd /verif; S=$1; shift; ids=${@:-$(ls seeded)}
one() { id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 W=/tmp/sy_$id; rm -rf $W; git clone -q /repo $W; git -C $W apply /verif/seeded/$id/patch.diff
 VF_REPO=$W timeout 300 python3-vt -W ignore vf/sym/run.py $p /tmp/sy_$id.json $S quick >/tmp/sy_$id.txt 2>&1
 python3 - $id $p <<'P'
import json,sys
try:
    d=json.load(open('/tmp/sy_%s.json'%sys.argv[1]))
    print(sys.argv[1:], d['discharged'], d['obligations'], 'REFUTED' if d['refuted'] else '-', [(r['clause'],r['name']) for r in d['refuted']][:3], {k:v for c in d['clauses'] for k,v in c['errors'].items()})
except Exception as e: print(sys.argv[1:], 'failed', e)
P
 rm -rf $W; }
export -f one; export S
echo $ids | tr ' ' '\n' | xargs -P 5 -I{} bash -c 'one {}'
