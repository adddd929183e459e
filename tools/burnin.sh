#!/bin/bash
# tools/burnin.sh SEED BUDGET [IDS...]: long run of all clauses, prints failures and the worst margins
seed=$1; b=$2; shift 2
ids=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}
for p in $ids; do
 for w in 0 1 2 3 4 5 6 7; do OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python /verif/vf/runner.py run $p $w 8 1000000 $b $seed > /tmp/bi_${p}_$w.txt 2>/tmp/bi_err_${p}_$w.txt & done; wait
 python3 - $p <<'P'
import json,sys,glob
p=sys.argv[1]; tot={}; worst={}
for f in glob.glob('/tmp/bi_%s_*.txt'%p):
    for l in open(f):
        d=json.loads(l)
        if d['event']=='done':
            for k,v in d['stats'].items():
                t=tot.setdefault(k,[0,0,0,0,0.]); t[0]+=v['ok'];t[1]+=v['reject'];t[2]+=v['fail'];t[3]+=v['error'];t[4]+=d['spent'][k]
            for k,v in d['worst'].items():
                if v[0]>worst.get(k,[0])[0]: worst[k]=v
        else: print('!!',d['event'],d['clause'],d['label'],d['seed'],d['detail'][-400:],str(d['input'])[:500])
for k in tot: print(p,k,tot[k][:4],'%.0fs'%tot[k][4],worst.get(k))
P
done
