#!/bin/bash
# quick development run: tools/try.sh CASES SEED C01 C02 ...
n=$1; seed=$2; shift 2
for p in "$@"; do OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python /verif/vf/runner.py run $p 0 1 $n ${BUDGET:-200} $seed > /tmp/o_$p.txt 2>/tmp/e_$p.txt & done; wait
for p in "$@"; do echo == $p; tail -3 /tmp/e_$p.txt; python3 - /tmp/o_$p.txt <<'P'
import json,sys
n=0
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d['event']=='done':
        for k,v in d['stats'].items(): print('%-28s'%k,v,'%.1f'%d['spent'][k])
    else:
        n+=1
        if n<=6: print(d['event'],d['clause'],d['label'],d['detail'][-1200:],str(d['input'])[:700])
P
done
