import itertools as it
from ..registry import clause
from .common import basic, site_legs_n, contract, flat
from .c04 import any_chain


def is_mpa(env, x):
    return isinstance(x, env.mp.MPArray)


@clause('C05', ['mparray.MPArray.sum'], weight=2)
def leg_sum(env):
    """sum over legs: None, int, tuple for all sites, per site choices"""
    mode = env.choose('mode', ['none', 'int', 'same', 'persite', 'empty'])
    if mode in ('int', 'same'):
        n = env.choose('legs', [1, 2, 3])
        N, sh, a = any_chain(env, legs=n, uni=True, hi=5)
    else:
        N, sh, a = any_chain(env, hi=5)
    nd = [len(s) for s in sh]
    da = env.dense(a)
    legs = site_legs_n(nd)

    def pick(k, n):
        m = env.choose('nsum%d' % k, list(range(0, n + 1)))
        from .common import rand_perm
        p = list(rand_perm(env, 'p%d' % k, n))[:m]
        return p, [x - n if env.choose('neg', [True, False, False]) else x for x in p]
    if mode == 'none':
        arg, sel = None, [list(range(n)) for n in nd]
    elif mode == 'empty':
        arg, sel = (), [[] for n in nd]
    elif mode == 'int':
        x = env.choose('leg', list(range(-nd[0], nd[0])))
        arg, sel = x, [[x % nd[0]] for n in nd]
    elif mode == 'same':
        p, u = pick(0, nd[0])
        arg, sel = env.choose('t', [tuple, list])(u), [p for n in nd]
    else:
        arg, sel = [], []
        for k, n in enumerate(nd):
            if env.choose('none%d' % k, [True, False, False, False]):
                arg.append(None)
                sel.append(list(range(n)))
            else:
                p, u = pick(k, n)
                arg.append(tuple(u))
                sel.append(p)
    with env.unchanged(a):
        r = a.sum(arg)
    out = [l for ls, s in zip(legs, sel) for j, l in enumerate(ls) if j not in s]
    ref = contract(env, [da], [list(range(da.ndim))], out)
    if not out:
        env.check(not is_mpa(env, r), 'sum over all legs gives a number')
        env.eq(r, ref, 'sum of all elements')
    else:
        basic(env, r, [tuple(d for j, d in enumerate(s) if j not in ss) for s, ss in zip(sh, sel)],
              'sum')
        env.eq(env.dense(r), ref, 'leg sum')
        env.honest(r)


@clause('C05', ['mparray.partialtrace', 'mparray.trace', 'mparray._prune_ltens'], weight=2)
def traces(env):
    """trace and partialtrace over chosen leg pairs"""
    N = env.sites(1, 5)
    full = env.choose('full', [True, False])
    nd, sel, sh, args = [], [], [], []
    same = env.choose('same', [True, False])
    base = env.shapes('base', N, legs=1)
    for k in range(N):
        n = 2 if full else env.choose('n%d' % k, [0, 1, 2, 2, 3] if not same else [2])
        if same and not full:
            n = env.choose('nsame', [2, 3]) if k == 0 else nd[0]
        d = base[k][0]
        s = [env.dim('e%d%d' % (k, j), 1, 2) for j in range(n)]
        if n >= 2 and (full or same or env.choose('tr%d' % k, [True, True, False])):
            if same and k > 0:
                x, y = sel[0]
            else:
                x, y = env.choose('pair%d' % k, [(i, j) for i in range(n) for j in range(n) if i != j])
            s[x] = s[y] = d
            sel.append((x, y))
            if same and k > 0:
                args.append(args[0])
            else:
                args.append((x - n if env.choose('ng', [True, False]) else x,
                             y - n if env.choose('ng', [True, False]) else y))
        else:
            sel.append(None)
            args.append(None)
        nd.append(n)
        sh.append(tuple(s))
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    da = env.dense(a)
    legs = site_legs_n(nd)
    lab = list(range(da.ndim))
    out = []
    rem = []
    for k in range(N):
        if sel[k] is not None:
            lab[legs[k][sel[k][1]]] = lab[legs[k][sel[k][0]]]
        o = [lab[l] for j, l in enumerate(legs[k]) if sel[k] is None or j not in sel[k]]
        out += o
        if o:
            rem.append(tuple(sh[k][j] for j in range(nd[k]) if sel[k] is None or j not in sel[k]))
    ref = contract(env, [da], [lab], out)
    use_same = same and (full or nd[0] >= 2)
    arg = args[0] if use_same and env.choose('plain', [True, False]) else \
        env.choose('t', [tuple, list])(args)
    with env.unchanged(a):
        r = env.mp.partialtrace(a, axes=arg)
        tr = env.mp.trace(a, axes=arg) if not out else None
    if out:
        basic(env, r, rem, 'partialtrace')
    else:
        env.same(len(r), 1, 'full trace has one site')
        env.eq(tr, ref, 'trace')
    env.eq(env.dense(r), ref, 'partial trace')
    env.honest(r)


@clause('C05', ['mparray.partialtrace', 'mparray.trace'], weight=.3)
def trace_default(env):
    """Default axes (0, 1); bond legs cannot be traced"""
    N = env.sites(1, 5)
    sh = [(s[0], s[0]) for s in env.shapes('shape', N, legs=1)]
    a = env.mpa('A', sh)
    lab = [i // 2 for i in range(2 * N)]
    ref = contract(env, [env.dense(a)], [lab], [])
    env.eq(env.mp.trace(a), ref, 'trace')
    env.eq(env.dense(env.mp.partialtrace(a)), ref, 'partialtrace')
    bad = env.choose('bad', [(0, 2), (2, 0), (-3, 0), (1, 2), (-3, -1), (0, 3)])
    env.raises((AssertionError, ValueError), lambda: env.mp.partialtrace(a, bad), 'bond leg rejected')
    env.raises((AssertionError, ValueError),
               lambda: env.mp.partialtrace(a, [None] * (N - 1) + [bad]), 'bond leg rejected')


@clause('C05', ['mparray.MPArray.get'])
def get(env):
    """get fixes the first leg of every site"""
    N = env.sites(1, 5)
    sh = env.shapes('shape', N, legs=env.choose('legs', [1, 2, 3]), maxsize=800)
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    idx = [env.randint('i%d' % k, 0, s[0] - 1) if env.choose('s%d' % k, [True, True, False])
           else slice(None) for k, s in enumerate(sh)]
    if not env.symbolic:
        idx = [env.np.int64(i) if not isinstance(i, slice) and env.choose('np', [True, False]) else
               (i - sh[k][0] if not isinstance(i, slice) and env.choose('neg', [True, False, False])
                else i) for k, i in enumerate(idx)]
    da = env.dense(a)
    sel = []
    for i, s in zip(idx, sh):
        sel += [i] + [slice(None)] * (len(s) - 1)
    with env.unchanged(a):
        r = a.get(env.choose('t', [tuple, list])(idx))
    basic(env, r, [tuple(s) if isinstance(i, slice) else tuple(s[1:]) for i, s in zip(idx, sh)], 'get')
    env.eq(env.dense(r), da[tuple(sel)], 'selected elements')
    env.honest(r)


@clause('C05', ['mparray.MPArray.axis_iter'], sym=False)
def axis_iter(env):
    """axis_iter visits all index combinations in row-major order"""
    N = env.sites(1, 3)
    per = env.choose('per site', [True, False])
    n = env.choose('legs', [1, 2, 3])
    sh = env.shapes('shape', N, legs=n, maxsize=400)
    if per:
        ax = [env.choose('ax%d' % k, list(range(-n, n))) for k in range(N)]
        arg = env.choose('t', [tuple, list])(ax)
    else:
        x = env.choose('ax', list(range(-n, n)))
        ax, arg = [x] * N, x
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    da = env.dense(a)
    with env.unchanged(a):
        if arg == 0 and env.choose('default', [True, False]):
            res = list(a.axis_iter())
        else:
            res = list(a.axis_iter(arg))
    combos = list(it.product(*[range(s[x]) for s, x in zip(sh, ax)]))
    env.same(len(res), len(combos), 'number of sub-arrays')
    legs = site_legs_n([n] * N)
    for c, r in zip(combos, res):
        sel = [slice(None)] * da.ndim
        for k in range(N):
            sel[legs[k][ax[k] % n]] = c[k]
        basic(env, r, [tuple(d for j, d in enumerate(s) if j != x % n) for s, x in zip(sh, ax)], 'sub-array')
        env.eq(env.dense(r), da[tuple(sel)], 'sub-array %r' % (c,))
        env.honest(r)


@clause('C05', ['mparray.diag'], sym=False)
def diag(env):
    """diag fixes the same index at every site"""
    N = env.sites(1, 4)
    n = env.choose('legs', [1, 2, 3])
    ax = env.choose('axis', list(range(-n, n)))
    d = env.dim('d', 1, 3)
    sh = []
    for s in env.shapes('shape', N, legs=n, maxsize=400):
        s = list(s)
        s[ax] = d
        sh.append(tuple(s))
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    da = env.dense(a)
    with env.unchanged(a):
        r = env.mp.diag(a, axis=ax) if ax != 0 or env.choose('e', [True, False]) else env.mp.diag(a)
    env.same(len(r), d, 'number of diagonal elements')
    legs = site_legs_n([n] * N)
    for i in range(d):
        sel = [slice(None)] * da.ndim
        for k in range(N):
            sel[legs[k][ax % n]] = i
        if n == 1:
            env.eq(r[i], da[tuple(sel)], 'diagonal element')
        else:
            env.eq(env.dense(r[i]), da[tuple(sel)], 'diagonal sub-array')
            env.honest(r[i])


@clause('C05', ['mparray.prune', 'mparray._prune_ltens'])
def prune(env):
    """prune contracts away sites without legs (or only size-one legs)"""
    N = env.sites(1, 6)
    sing = env.choose('singletons', [True, False])
    sh = []
    for k in range(N):
        n = env.choose('n%d' % k, [0, 0, 1, 2])
        s = tuple(env.dim('d%d%d' % (k, j), 1, 2) for j in range(n))
        if n and env.choose('one%d' % k, [True, False, False]):
            s = (1,) * n
        sh.append(s)
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    da = env.dense(a)
    with env.unchanged(a):
        r = env.mp.prune(a, singletons=sing) if sing or env.choose('kw', [True, False]) else env.mp.prune(a)

    def gone(s):
        return len(s) == 0 or (sing and all(d == 1 for d in s))
    rem = [s for s in sh if not gone(s)]
    env.wellformed(r)
    env.same(r.shape, tuple(rem) if rem else ((),), 'remaining sites')
    env.eq(env.dense(r), da.reshape(flat(rem)), 'pruned array')
    env.honest(r)


@clause('C05', ['mparray.MPArray.pad_ranks', 'mparray.full_rank'])
def pad(env):
    """pad_ranks keeps the array; documented ranks"""
    N, sh, a = any_chain(env, lo=2, hi=5, maxsize=800)
    da = env.dense(a)
    rank = env.choose('rank', [None, 1, 2, 3, 4, 6])
    force = env.choose('force', [True, False])
    old = a.ranks
    with env.unchanged(a):
        if rank is None:
            r = a.pad_ranks(force_rank=force)
        else:
            r = a.pad_ranks(rank, force_rank=force) if force or env.choose('kw', [True, False]) \
                else a.pad_ranks(rank)
    basic(env, r, sh, 'pad_ranks')
    env.eq(env.dense(r), da, 'padding keeps the array')
    if not env.symbolic:
        want = max(old) if rank is None else rank
        ps = [int(env.np.prod(s, dtype=object)) if len(s) else 1 for s in sh]
        exp = []
        for b in range(N - 1):
            lim = want
            if not force:
                x = y = 1
                for p in ps[:b + 1]:
                    x *= p
                for p in ps[b + 1:]:
                    y *= p
                lim = min(want, x, y)
            exp.append(max(old[b], lim))
        env.same(r.ranks, tuple(exp), 'documented ranks')
    env.honest(r)


@clause('C05', ['mparray.full_rank'], sym=False, weight=.5)
def full_rank(env):
    """full_rank: min of the products of dimensions on both sides, without overflow"""
    N = env.sites(1, 8)
    big = env.choose('big', [True, False, False])
    if big:
        N = N * 12
    d = [env.dim('d', 1, 5) for _ in range(N)]
    form = env.choose('form', ['int', 'tuple', 'tuples', 'np'])
    if form == 'tuples':
        arg = [(x, 1 + x % 2) for x in d]
        d = [x * (1 + x % 2) for x in d]
    else:
        arg = {'int': d, 'tuple': [(x,) for x in d], 'np': env.np.array(d)}[form]
    r = env.mp.full_rank(arg)
    exp = []
    for b in range(1, N):
        x = y = 1
        for p in d[:b]:
            x *= p
        for p in d[b:]:
            y *= p
        exp.append(min(x, y))
    env.same([int(x) for x in r], exp, 'full ranks')
