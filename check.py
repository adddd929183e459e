#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree:

1. deductive part (vf/sym, python3-vt): obligations generated from the current
   source by symbolic execution against the contract clauses of the property,
2. run-time evaluation of the same clauses on the real code (the labelled
   bounded stand-in and the search/replay of counterexamples).

exit 0: property held, exit 1: VIOLATION line, exit 3: no verdict (harness error).
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
PYPY = os.environ.get('VF_PYTHON', '/opt/venv/bin/python')
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')

TIERS = {'quick': dict(cases=3000, budget=22., workers=8, sym=30.),
         'thorough': dict(cases=60000, budget=300., workers=8, sym=400.)}


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)['known'] if x['property'] == pid]


def popen(args, **kw):
    return subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV,
                            universal_newlines=True, start_new_session=True, **kw)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def replay(path, timeout=200):
    p = popen([PYPY, os.path.join(HERE, 'vf', 'runner.py'), 'replay', path])
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return dict(status='error', info=dict(detail='timeout of the replay'))
    for line in out.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('event') == 'replay':
            return d
    return dict(status='error', info=dict(detail=(out + err)[-2000:]))


def search(pid, cands, tmp, budget):
    """Failing inputs of the real code near counterexamples; index -> result"""
    path = os.path.join(tmp, 'cands.json')
    with open(path, 'w') as f:
        json.dump([dict(property=pid, clause=o['clause'], hints=o.get('hints')) for o in cands], f)
    p = popen([PYPY, os.path.join(HERE, 'vf', 'runner.py'), 'search', path, str(budget)])
    try:
        out, err = p.communicate(timeout=budget + 120)
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
    kill(p)
    res = {}
    for line in out.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('event') == 'candidate':
            res[d['index']] = d
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = dict(TIERS[tier])
    if os.environ.get('VF_BUDGET'):
        cfg['budget'] = float(os.environ['VF_BUDGET'])
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return decide(pid, tier, seed, cfg, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, cfg, t0, tmp):
    # -- run-time evaluation -------------------------------------------------
    symout = os.path.join(tmp, 'sym.json')
    nw = cfg['workers']
    work = [popen([PYPY, os.path.join(HERE, 'vf', 'runner.py'), 'run', pid, str(w), str(nw),
                   str(cfg['cases']), str(cfg['budget']), str(seed)]) for w in range(nw)]
    events, dones, errs = [], [], []
    hard = time.time() + cfg['budget'] + 240
    for p in work:
        try:
            out, err = p.communicate(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            out, err = p.communicate()
            errs.append('worker exceeded its time limit: ' + err[-500:])
        kill(p)
        fin = False
        for line in out.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('event') == 'done':
                dones.append(d)
                fin = True
            elif d.get('event') in ('fail', 'error'):
                events.append(d)
        if not fin:
            errs.append('worker ended early: ' + err[-1500:])
    # -- deductive part --------------------------------------------------------
    symres = None
    if not os.environ.get('VF_NOSYM'):
        sym = popen([VT, os.path.join(HERE, 'vf', 'sym', 'run.py'), pid, symout, str(cfg['sym']), tier])
        try:
            so, se = sym.communicate(timeout=1.8 * cfg['sym'] + 90)
        except subprocess.TimeoutExpired:
            kill(sym)
            so, se = sym.communicate()
        kill(sym)
        if os.path.exists(symout):
            with open(symout) as f:
                symres = json.load(f)
        else:
            errs.append('deductive part gave no result: ' + se[-1500:])
    # -- judge ----------------------------------------------------------------
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    violations, unconfirmed = [], []
    known = known_findings(pid)
    n = 0
    seen = set()
    for e in sorted(events, key=lambda e: (e['clause'], e['seed'])):
        if e['event'] != 'fail' or (e['clause'], e['label']) in seen or len(violations) >= 5:
            continue
        seen.add((e['clause'], e['label']))
        path = os.path.join(HERE, 'replays', '%s_%d.json' % (pid, n))
        n += 1
        e['how'] = 'replay with: %s %s replay %s' % (PYPY, os.path.join(HERE, 'vf', 'runner.py'), path)
        with open(path, 'w') as f:
            json.dump(e, f, indent=1)
        r = replay(path)
        if r.get('status') == 'fail':
            violations.append((path, '', e))
        else:
            unconfirmed.append((path, r))
    # refuted obligations of the deductive part: look for the failing input of the real code
    spurious = []
    cands = (symres or {}).get('refuted', [])[:12]
    if cands:
        found = search(pid, cands, tmp, 20. if tier == 'quick' else 120.)
        for k, o in enumerate(cands):
            path = os.path.join(HERE, 'replays', '%s_%d.json' % (pid, n))
            n += 1
            rec = dict(property=pid, clause=o['clause'], obligation=o['name'], detail=o.get('detail'),
                       hints=o.get('hints'), verifier_output=o)
            r = found.get(k, dict(status='none', tried=dict(ok=0)))
            if r['status'] == 'fail':
                rec.update(seed=r['seed'], label=r['info'].get('label'), detail=r['info'].get('detail'),
                           input=r.get('input'),
                           how='replay with: %s %s replay %s' % (
                               PYPY, os.path.join(HERE, 'vf', 'runner.py'), path))
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            if r['status'] == 'fail':
                violations.append((path, '', rec))
            elif r['tried'].get('ok', 0) >= 20:
                # the real code satisfies the postcondition on the inputs of the counterexample
                spurious.append(dict(clause=o['clause'], name=o['name'], detail='spurious: %d evaluations of the '
                                     'real code near the counterexample satisfy the contract' % r['tried']['ok']))
            elif o.get('kind') != 'exception':
                violations.append((path, ' no-failing-input-found', rec))
            else:
                spurious.append(dict(clause=o['clause'], name=o['name'], detail='exception of the symbolic '
                                     'execution, not reproduced on the real code'))
    evals = sum(s['ok'] + s['fail'] for d in dones for s in d['stats'].values())
    checks = sum(s['checks'] for d in dones for s in d['stats'].values())
    distinct = sum(v for d in dones for v in d['distinct'].values())
    samples = [s for d in dones for s in d['samples']][:4]
    per = {}
    for d in dones:
        for k, s in d['stats'].items():
            t = per.setdefault(k, dict(ok=0, reject=0, fail=0, error=0, checks=0))
            for x in t:
                t[x] += s[x]
    kf = []
    for d in dones:
        for x in d.get('known', []):
            if x not in kf:
                kf.append(x)
    ob = symres or {}
    nob, ndis = ob.get('obligations', 0), ob.get('discharged', 0)
    ev = dict(property=pid, tier=tier, seed=seed, level=level(pid),
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='python3-vt vf/sym/run.py %s OUT %g %s' % (pid, cfg['sym'], tier),
                  trusted_base=ob.get('trusted_base', []),
                  by_backend=ob.get('by_backend', {}), solver_s=ob.get('solver_s', 0.),
                  functions_under_contract=ob.get('functions', []),
                  undecided=ob.get('undecided', []) + spurious, bounded_obligations=ob.get('bounded', 0),
                  unbounded_obligations=ob.get('unbounded', 0), clauses_deductive=ob.get('clauses', {}),
                  evaluations=evals, distinct_nontrivial=distinct,
                  runtime_postconditions=checks, runtime_clauses=per,
                  rule='run-time contract evaluation (bounded stand-in): random inputs that satisfy the '
                       'precondition of a clause, %d workers, at most %g s; distinct = different choices '
                       'of shapes, ranks, options; rejected cases are not counted' % (nw, cfg['budget']),
                  samples=samples),
              assumptions=assumptions(pid, ob),
              violations=len(violations), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in known:
        if any(x[0] == pid and x[1] == k['signature'] for x in kf):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for x in kf:
        if not any(x[1] == k['signature'] for k in known):
            path = os.path.join(HERE, 'replays', '%s_known.json' % pid)
            with open(path, 'w') as f:
                json.dump(x, f)
            violations.append((path, '', dict(clause='finding', label=x[1], detail='')))
    for path, suffix, e in violations:
        print('%s: clause %s: %s' % (pid, e.get('clause'), e.get('label') or e.get('obligation')))
        print('  ' + str(e.get('detail'))[-600:].replace('\n', '\n  '))
    if violations:
        # confirmed failing inputs first
        violations.sort(key=lambda v: bool(v[1]))
        print('VIOLATION property=%s replay=%s%s' % (pid, violations[0][0], violations[0][1]))
        return 1
    herr = [e for e in events if e['event'] == 'error']
    print('%s: obligations %d, discharged %d, undecided %d; run-time evaluations %d (%d postconditions), '
          '%.1f s' % (pid, nob, ndis, len(ob.get('undecided', [])), evals, checks, time.time() - t0))
    for e in herr[:3]:
        print('  no verdict for one case of %s: %s' % (e['clause'], e['detail'][-300:]))
    for p, r in unconfirmed[:3]:
        print('  not reproducible: %s %s' % (p, str(r)[:300]))
    for x in errs[:3]:
        print('  note: ' + x)
    if evals == 0:
        print('no evaluation: no verdict')
        return 3
    for c, s in per.items():
        if s['ok'] == 0:
            print('  clause %s was never evaluated' % c)
    return 0


def level(pid):
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        for c in json.load(f)['checks']:
            if c['property'] == pid:
                return c['level']
    return 'other'


def assumptions(pid, ob):
    res = ['floating point arithmetic is treated as exact in the deductive part; run-time evaluation uses '
           'tolerances (1e-8 relative unless stated in the clause, 2e-3 for single precision)',
           'numpy/scipy/LAPACK/h5py are external: the deductive part assumes their documented behaviour']
    return res + [a for a in ob.get('assumptions', []) if a not in res]


if __name__ == '__main__':
    sys.exit(main())
