"""Run-time contract evaluation of clauses on the real package (PyPy side).

usage: runner.py run PID WORKER NWORKERS CASES BUDGET SEED [HINTSFILE]
       runner.py replay FILE
Prints one JSON object per line.
"""
from __future__ import print_function
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim'))
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)

LIMIT = 60      # seconds per case; cases take milliseconds


class Hang(Exception):
    pass


def _hang(*_):
    raise Hang('no result within %d s' % LIMIT)


def case_seed(seed, key, i):
    return (zlib.crc32(key.encode()) * 31 + seed * 1000003 + i * 7919) % (2 ** 31 - 1)


def evaluate(c, seed, hints=None):
    """-> (status, info, env); status in ok, reject, fail, error"""
    from vf.env_real import RealEnv
    from vf.registry import ContractViolation, Reject
    import numpy as np
    env = RealEnv(seed, hints)
    np.random.seed(seed % (2 ** 31))
    signal.signal(signal.SIGALRM, _hang)
    signal.alarm(LIMIT)
    try:
        c.fn(env)
    except Reject:
        return 'reject', None, env
    except ContractViolation as e:
        return 'fail', dict(kind='postcondition', label=e.label, detail=e.detail), env
    except (MemoryError, KeyboardInterrupt) as e:
        return 'error', dict(kind='error', label=type(e).__name__,
                             detail=traceback.format_exc()[-3000:]), env
    except Exception as e:
        if 'maximum supported dimension for an ndarray' in str(e):
            return 'reject', None, env      # numpy's limit of 32 axes, not the code's
        tb = traceback.format_exc()
        frames = [f for f in traceback.extract_tb(sys.exc_info()[2])]
        repo = os.path.realpath(REPO) + os.sep
        inrepo = any(os.path.realpath(f[0]).startswith(repo) for f in frames)
        # names the harness itself looks up and does not find are no verdict
        if not inrepo and isinstance(e, (AttributeError, ImportError, NameError)):
            return 'error', dict(kind='error', label=repr(e), detail=tb[-3000:]), env
        return 'fail', dict(kind='exception', label='no exception expected: %s' % type(e).__name__,
                            detail=tb[-3000:]), env
    finally:
        signal.alarm(0)
    return 'ok', None, env


def clean(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, (list, tuple)):
            return [clean(y) for y in x]
        if isinstance(x, dict):
            return dict((str(k), clean(v)) for k, v in x.items())
        return repr(x)


def setup():
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import mpnum
    f = os.path.realpath(mpnum.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f


def run(pid, worker, nworkers, cases, budget, seed, hintsfile=None):
    from vf.registry import for_property
    setup()
    t0 = time.time()
    cl = [c for c in for_property(pid) if c.real]
    hints = []
    if hintsfile:
        with open(hintsfile) as f:
            hints = json.load(f)
    stats = dict((c.name, dict(ok=0, reject=0, fail=0, error=0, checks=0)) for c in cl)
    seen = dict((c.name, set()) for c in cl)
    samples = []
    worst = {}
    nfail = dict((c.name, 0) for c in cl)
    done = False
    i = 0
    # schedule: clauses in round robin, each with its own number of cases
    quota = dict((c.name, max(2, int(round(cases * c.weight)))) for c in cl)
    spent = dict((c.name, 0.) for c in cl)
    while not done:
        done = True
        for c in cl:
            idx = i * nworkers + worker
            if idx >= quota[c.name] or nfail[c.name] >= 3:
                continue
            if time.time() - t0 > budget:
                continue
            done = False
            h = None
            hs = [x for x in hints if x.get('clause') in (None, c.name)]
            if idx < len(hs):
                h = hs[idx].get('hints')
            s = case_seed(seed, c.key, idx)
            t1 = time.time()
            st, info, env = evaluate(c, s, h)
            spent[c.name] += time.time() - t1
            stats[c.name][st] += 1
            stats[c.name]['checks'] += env.checks
            if st == 'ok':
                seen[c.name].add(repr(env.log))
                if env.worst[0] > worst.get(c.name, (0,))[0]:
                    worst[c.name] = env.worst + (s,)
                if len(samples) < 3 and idx % 7 == 0:
                    samples.append(dict(clause=c.name, seed=s, input=clean(env.log)))
            elif st in ('fail', 'error'):
                nfail[c.name] += 1
                rec = dict(event=st, property=pid, clause=c.name, seed=s, hints=h,
                           input=clean(env.log))
                rec.update(clean(info))
                print(json.dumps(rec))
                sys.stdout.flush()
        i += 1
    from vf.registry import KNOWN
    print(json.dumps(dict(event='done', stats=stats, samples=samples, known=sorted(map(list, KNOWN)),
                          distinct=dict((k, len(v)) for k, v in seen.items()),
                          quota=quota, worst=worst, spent=spent, wall=time.time() - t0)))


def thin(hints, seed):
    """Every third seed drops some of the hints"""
    if not hints or seed % 3:
        return hints
    import random
    r = random.Random(seed)
    return dict((k, v) for k, v in hints.items() if r.random() < .75)


def search(path, budget):
    """Look for inputs of the real code near the counterexamples of the deductive part.

    PATH: list of {property, clause, hints}; one line per candidate."""
    from vf.registry import for_property
    setup()
    with open(path) as f:
        recs = json.load(f)
    left = float(budget)
    for k, rec in enumerate(recs):
        c = [c for c in for_property(rec['property']) if c.name == rec['clause']][0]
        t0 = time.time()
        share = left / (len(recs) - k)
        n = dict(ok=0, reject=0, error=0)
        seed = 0
        res = None
        while time.time() - t0 < share and seed < 400:
            seed += 1
            st, info, env = evaluate(c, seed, thin(rec.get('hints'), seed))
            if st == 'fail':
                res = dict(event='candidate', index=k, status='fail', seed=seed, info=clean(info),
                           input=clean(env.log))
                break
            n[st] += 1
        left -= time.time() - t0
        print(json.dumps(res or dict(event='candidate', index=k, status='none', tried=n)))
        sys.stdout.flush()


def replay(path):
    from vf.registry import for_property
    setup()
    with open(path) as f:
        rec = json.load(f)
    c = [c for c in for_property(rec['property']) if c.name == rec['clause']][0]
    st, info, env = evaluate(c, rec['seed'], thin(rec.get('hints'), rec['seed']))
    print(json.dumps(dict(event='replay', status=st, info=clean(info), input=clean(env.log))))
    return 0 if st == 'ok' else 1


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == 'search':
        search(sys.argv[2], sys.argv[3])
        sys.exit(0)
    a = sys.argv
    run(a[2], int(a[3]), int(a[4]), int(a[5]), float(a[6]), int(a[7]),
        a[8] if len(a) > 8 else None)
