#!/bin/bash
# symall.sh SECONDS OUT: the deductive part of every check with one budget; prints one line per clause
out=${2:-/tmp/symall.txt}; : > $out
for p in ${PIDS:-$(seq -f C%02g 1 22)}; do
  python3-vt /verif/vf/sym/run.py $p /tmp/symall_$p.json ${1:-40} quick > /tmp/symall_$p.txt 2>&1
  python3 - $p >> $out <<'P'
import json, sys
p = sys.argv[1]
d = json.load(open('/tmp/symall_%s.json' % p))
for c in d['clauses']:
    print(p, c['clause'], c['paths'], 'complete' if c['complete'] else '-', 'DECIDED' if c['decided'] else '-', c['obligations'],
          c['obligations'] - c['discharged'], {k[:90]: v for k, v in c['unsupported'].items()}, c['errors'])
for r in d['refuted'][:3]:
    print('   REFUTED', str(r)[:500])
P
done
echo done >> $out
