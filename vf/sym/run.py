"""Deductive run: python3-vt vf/sym/run.py PID OUT.json SECONDS TIER"""
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

from vf import registry                                   # noqa: E402
from vf.registry import ContractViolation, Reject         # noqa: E402
from vf.sym import loader                                 # noqa: E402
from vf.sym.ctx import CTX, Ctx, Tree, SharedTree, Unsupported, PathEnd, OtherWorker, Cut  # noqa: E402
from vf.sym.env import SymEnv                             # noqa: E402
from vf.sym.unb import SeqEnv, LoopDone                  # noqa: E402

REPO = os.environ.get('VF_REPO', '/repo')


FUNCS = set()           # functions of the repository which were executed symbolically


def watch():
    m = sys.monitoring
    root = os.path.realpath(REPO) + os.sep

    def start(code, off):
        f = os.path.realpath(code.co_filename)
        if f.startswith(root) and not code.co_name.startswith('<'):
            FUNCS.add('%s:%s' % (f[len(root):], code.co_qualname))
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, 'vf')
    m.register_callback(m.COVERAGE_ID, m.events.PY_START, start)
    m.set_events(m.COVERAGE_ID, m.events.PY_START)


def infeasible(c):
    import z3
    try:
        return c.check() == z3.unsat
    except BaseException:
        return False


def run_clause(cl, pkg, deadline, seed=1, maxpaths=10**9, pathtime=20, verbose=0, part=(0, 1), shared=None):
    mp, np_, mods = pkg
    sys.modules['mpnum_utils'] = mods['mpnum.utils']
    sys.modules.update(mods)            # imports inside of functions
    tree = Tree(seed, part) if shared is None else SharedTree(shared[0], shared[1], deadline)
    out = dict(clause=cl.name, paths=0, obligations=0, discharged=0, undecided=[], refuted=[], rejected=0,
               unsupported={}, infeasible=0, complete=False, trusted=set(), errors={}, exceptions=[], uncertain=0, dimbounded=0)
    stats = dict(z3=0, z3_s=0.)
    labels = {}
    t0 = time.time()
    while time.time() < deadline and out['paths'] < maxpaths:
        if shared is not None:
            more = tree.next()
            if not more:
                out['complete'] = more is False
                break
        c = Ctx(tree, min(deadline, time.time() + pathtime), stats)
        CTX[0] = c
        env = SeqEnv(mp, np_, mods, c) if cl.seq else SymEnv(mp, np_, mods, c)
        status = None
        try:
            cl.fn(env)
            status = 'ok'
        except Reject:
            status = 'rejected'
        except OtherWorker:
            if tree.finish():
                out['complete'] = True
                break
            continue
        except Cut:
            status = 'cut'
        except LoopDone:
            status = 'ok'
        except PathEnd:
            status = 'infeasible'
        except ContractViolation as e:
            if infeasible(c):
                if tree.finish():
                    out['complete'] = True
                    break
                continue
            status = 'refuted'
            try:
                hints = env.hints()
            except BaseException:
                hints = {}
            if len(out['refuted']) < 5:
                if cl.seq:
                    hints = {k: v for k, v in hints.items() if k == 'N'}
                out['refuted'].append(dict(clause=cl.seq or cl.name, contract=cl.name, name=e.label,
                                           detail=e.detail[:600], hints=hints,
                                           path=[str(x) for x in c.cons][:40], choices=repr(env.log)[:800]))
        except Unsupported as e:
            status = 'unsupported'
            k = str(e)[:160]
            out['unsupported'][k] = out['unsupported'].get(k, 0) + 1
            if verbose > 1:
                traceback.print_exc()
        except TimeoutError:
            status = 'timeout'
            out['unsupported']['time limit'] = out['unsupported'].get('time limit', 0) + 1
        except RecursionError:
            status = 'unsupported'
            out['unsupported']['recursion'] = out['unsupported'].get('recursion', 0) + 1
        except Exception as e:
            # an exception of the code under contract on admissible inputs, or of the engine
            if infeasible(c):
                if tree.finish():
                    out['complete'] = True
                    break
                continue
            status = 'error'
            k = '%s: %s' % (type(e).__name__, str(e)[:160])
            out['errors'][k] = out['errors'].get(k, 0) + 1
            if out['errors'][k] <= 1 and len(out['errors']) <= 4:
                try:
                    hints = env.hints()
                except BaseException:
                    hints = {}
                if cl.seq:
                    hints = {k: v for k, v in hints.items() if k == 'N'}
                out['exceptions'].append(dict(clause=cl.seq or cl.name, contract=cl.name, name='no exception expected: ' + type(e).__name__,
                                              kind='exception', detail=traceback.format_exc()[-1500:], hints=hints,
                                              choices=repr(env.log)[:800]))
            if verbose:
                print(env.log)
                traceback.print_exc()
        if not tree.mine():
            if tree.finish():
                out['complete'] = True
                break
            continue
        if c.uncertain:
            out['uncertain'] += 1
        for lab, v, d in env.obl:
            out['obligations'] += 1
            x = labels.setdefault(lab, dict(yes=0, unknown=0, no=0))
            x[v] += 1
            if v == 'yes':
                out['discharged'] += 1
            elif v == 'unknown' and len(out['undecided']) < 20:
                out['undecided'].append(dict(clause=cl.name, name=lab, detail=str(d)[:400]))
                if verbose:
                    print('UNKNOWN', lab, str(d)[:500], env.log, c.cons)
        out['trusted'] |= c.trusted
        if c.bounded:
            out['dimbounded'] += 1
        out['paths'] += 1
        out['status_' + status] = out.get('status_' + status, 0) + 1
        if tree.finish():
            out['complete'] = True
            break
        if len(out['refuted']) >= 3:
            break
    out['labels'] = labels
    out['seconds'] = time.time() - t0
    out['stats'] = stats
    CTX[0] = None
    return out


def merge(rs):
    """Results of the workers for one clause"""
    r = dict(rs[0])
    for o in rs[1:]:
        for k, v in o.items():
            if k in ('clause', 'seconds'):
                continue
            if k == 'complete':
                r[k] = r[k] and v
            elif k == 'trusted':
                r[k] = r[k] | v
            elif k == 'labels':
                for lab, x in v.items():
                    y = r[k].setdefault(lab, dict(yes=0, unknown=0, no=0))
                    for z in x:
                        y[z] += x[z]
            elif isinstance(v, dict):
                d = r[k] = dict(r.get(k, {}))
                for kk, x in v.items():
                    d[kk] = d.get(kk, 0) + x
            elif isinstance(v, list):
                r[k] = (r[k] + v)[:20]
            else:
                r[k] = r.get(k, 0) + v
    r['decided'] = bool(r['complete'] and not r['unsupported'] and not r['errors'] and not r['uncertain']
                        and r['obligations'] and r['obligations'] == r['discharged'])
    return r


def worker(w, nw, cls, pkgs, t0, deadline, verbose, shared, q):
    try:
        watch()
    except (ValueError, AttributeError):
        pass
    res = []
    seconds = deadline - t0
    end = t0 + (.8 * seconds if any(not c.seq for c in cls) else 1.8 * seconds)
    for k, cl in enumerate(cls):
        group = [c for c in cls[k:] if bool(c.seq) == bool(cl.seq)]
        if not cl.seq and (k == 0 or cls[k - 1].seq):
            end = time.time() + seconds         # the clauses for all lengths come first
        share = (end - time.time()) / (min(2, len(group)) if cl.seq else len(group))
        res.append(run_clause(cl, pkgs[bool(cl.seq)], time.time() + share, verbose=verbose, part=(w, nw),
                              shared=shared[k]))
    q.put((w, res, FUNCS))


def main():
    pid, path, seconds, tier = sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4]
    only = sys.argv[5:]
    t0 = time.time()
    deadline = t0 + seconds
    cls = [c for c in registry.for_property(pid) if c.sym and (not only or c.name in only)]
    cls.sort(key=lambda c: not c.seq)
    pkgs = {False: loader.load(REPO)}
    if any(c.seq for c in cls):
        try:
            pkgs[True] = loader.load(REPO, seq=True)
        except BaseException:
            traceback.print_exc()
            cls = [c for c in cls if not c.seq]
    nw = int(os.environ.get('VF_JOBS', '8'))
    verbose = int(os.environ.get('VF_VERBOSE', '0'))
    import multiprocessing as M
    cx = M.get_context('fork')
    q = cx.Queue()
    shared = []
    for c in cls:
        if c.seq and nw > 1:
            sq = cx.Queue()
            sq.put([])
            shared.append((sq, cx.Value('i', 1)))
        else:
            shared.append(None)
    procs = []
    got = {}
    funcs = set()
    if cls and nw == 1:
        import queue
        q = queue.Queue()
        worker(0, 1, cls, pkgs, t0, deadline, verbose, shared, q)
    elif cls:
        procs = [cx.Process(target=worker, args=(w, nw, cls, pkgs, t0, deadline, verbose, shared, q), daemon=True)
                 for w in range(nw)]
        for p in procs:
            p.start()
    import queue
    while cls and len(got) < nw:
        try:
            w, r, f = q.get(timeout=max(1., t0 + 1.8 * seconds + 25 - time.time()))
        except queue.Empty:
            break
        got[w] = r
        funcs |= f
    for p in procs:
        p.terminate()
    res = []
    for k, cl in enumerate(cls):
        rs = [r[k] for r in got.values() if k < len(r)]
        if rs:
            res.append(merge(rs))
            res[-1]['seq'] = bool(cl.seq)
            res[-1]['mode'] = 'any number of sites' if cl.seq else 'at most 3 sites (bounded)'
            if len(got) < nw:
                res[-1]['complete'] = res[-1]['decided'] = False
    doc = dict(
        obligations=sum(r['obligations'] for r in res),
        discharged=sum(r['discharged'] for r in res),
        unbounded=sum(r['discharged'] for r in res if r.get('seq')),
        bounded=sum(r['discharged'] for r in res if not r.get('seq')),
        refuted=[x for r in res for x in r['refuted'] + r['exceptions']],
        undecided=[x for r in res for x in r['undecided']],
        solver_s=round(sum(r['stats']['z3_s'] for r in res), 3),
        by_backend=dict(z3_queries=sum(r['stats']['z3'] for r in res),
                        tensor_rewriting=sum(r['discharged'] for r in res)),
        functions=sorted(funcs),
        workers_finished=len(got),
        trusted_base=sorted(set(t for r in res for t in r['trusted'])),
        clauses=[{k: (sorted(v) if isinstance(v, set) else v) for k, v in r.items()
                  if k not in ('refuted', 'undecided', 'exceptions')} for r in res],
    )
    with open(path + '.part', 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.rename(path + '.part', path)
    if os.environ.get('VF_VERBOSE'):
        for r in res:
            print(r['clause'], {k: v for k, v in r.items() if k not in (
                'labels', 'clause', 'undecided', 'stats', 'trusted') and v})


if __name__ == '__main__':
    main()
