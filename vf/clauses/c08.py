from ..registry import clause
from .common import basic
from .c07 import chain


def svals(env, d, nd, cut):
    n = 1
    for s in d.shape[:sum(nd[:cut])]:
        n *= s
    return env.np.linalg.svd(d.reshape((n, -1)), compute_uv=False)


def ttsvd(env, d, sh, rank, relerr, direction):
    """Dense sequential truncation (reference)"""
    np = env.np
    N = len(sh)
    ps = [int(np.prod(s)) if len(s) else 1 for s in sh]
    ranks = [None] * (N - 1)
    bonds = range(N - 1) if direction == 'right' else range(N - 2, -1, -1)
    cur, amb = d.reshape(ps), False
    for b in bonds:
        n = int(np.prod(ps[:b + 1]))
        u, s, v = np.linalg.svd(cur.reshape((n, -1)), full_matrices=False)
        k = len(s) if rank is None else min(rank, len(s))
        if relerr is not None:
            c = np.cumsum(s) / np.sum(s)
            j = int(np.searchsorted(c, 1 - relerr)) + 1
            if abs(c - (1 - relerr)).min() < 1e-9:
                amb = True
            k = min(k, j)
        ranks[b] = k
        cur = np.dot(u[:, :k] * s[:k], v[:k]).reshape(ps)
    return cur.reshape(d.shape), ranks, amb


@clause('C08', ['mparray.MPArray.compress', 'mparray.MPArray.compression',
                'mparray.MPArray._compress_svd', 'mparray.MPArray._compress_svd_l',
                'mparray.MPArray._compress_svd_r', 'utils.extmath.truncated_svd'],
        sym=False, weight=4)
def svd(env):
    """Rank bound, overlap identities, error bound, lossless cases"""
    np = env.np
    N, sh, a = chain(env, lo=1, hi=6, kinds='dz')
    d = env.dense(a)
    env.assume(abs(d).max() > 1e-3)
    old = a.ranks
    rank = env.choose('rank', [None, 1, 2, 3, 5, 20])
    relerr = env.choose('relerr', [None, None, 0., .05, .2, .5, .9])
    direction = env.choose('dir', [None, 'left', 'right'])
    inplace = env.bit('inplace')
    kw = {}
    if rank is not None or env.bit('k1'):
        kw['rank'] = rank
    if relerr is not None or env.bit('k2'):
        kw['relerr'] = relerr
    if direction is not None or env.bit('k3'):
        kw['direction'] = direction
    if env.bit('k4', .2):
        kw['canonicalize'] = True
    form = a.canonical_form
    if inplace:
        c = a
        ov = c.compress(**kw) if env.bit('m') else c.compress('svd', **kw)
    else:
        with env.unchanged(a):
            c, ov = a.compression(method='svd', **kw)
        env.check(c is not a, 'new object')
    basic(env, c, sh, 'compressed')
    dc = env.dense(c)
    sc = max(1., float(np.linalg.norm(d)) ** 2)
    env.eq(ov, np.vdot(d, dc), 'overlap with the original', scale=sc)
    env.eq(ov, np.vdot(dc, dc), 'squared norm of the result', scale=sc)
    env.honest(c)
    if N == 1:
        env.eq(dc, d, 'single site: nothing to do')
        return
    if rank is not None:
        env.check(max(c.ranks) <= rank, 'rank bound', '%r' % (c.ranks,))
    env.check(all(x <= y for x, y in zip(c.ranks, old)), 'ranks do not increase')
    nd = [len(s) for s in sh]
    sv = [svals(env, d, nd, cut) for cut in range(1, N)]
    full = [int((s > 1e-10 * s[0]).sum()) for s in sv]
    if relerr in (None,) and (rank is None or rank >= max(full)):
        env.eq(dc, d, 'lossless')
    bound = sum(float((s[k:] ** 2).sum()) for s, k in zip(sv, c.ranks))
    err = float(np.linalg.norm((d - dc).ravel()) ** 2)
    env.check(err <= bound + 1e-8 * sc, 'error bound by discarded singular values',
              '%g > %g' % (err, bound))
    # sequential reference for both directions
    l, r = form
    dirs = [direction] if direction else ['left', 'right']
    best = []
    for dr in dirs:
        ref, rr, amb = ttsvd(env, d, sh, rank, relerr, dr)
        best.append((ref, rr, amb))
    if any(x[2] for x in best):
        return
    if relerr is not None:
        # number of kept singular values is exactly the documented one, up to exact zeros
        ok = False
        for ref, rr, _ in best:
            exact = all(min(x, o) == y for x, y, o in zip(rr, c.ranks, old))
            ok = ok or (exact and bool(abs(ref - dc).max() < 1e-6 * max(1., abs(d).max())))
        gap = all(k >= len(s) or s[k - 1] - s[k] > 1e-6 * s[0] for _, rr, _ in best
                  for k, s in zip(rr, sv))
        if gap or not (rank is not None):
            env.check(ok, 'number of kept singular values for relerr',
                      '%r expected one of %r' % (c.ranks, [x[1] for x in best]))
    # ranks never fall short: optimal value is not worse than the reference
    errs = [float(np.linalg.norm((d - ref).ravel()) ** 2) for ref, _, _ in best]
    env.check(err <= max(errs) + 1e-7 * sc, 'not worse than sequential truncation',
              '%g > %r' % (err, errs))


@clause('C08', ['mparray.MPArray.compress', 'mparray.MPArray.compression',
                'mparray.MPArray._compress_svd', 'mparray.MPArray._compress_svd_l',
                'mparray.MPArray._compress_svd_r', 'utils.extmath.truncated_svd'], weight=1)
def svd_identities(env):
    """Overlap identities, honest form, rank bounds, lossless without truncation"""
    np = env.np
    N, sh, a = chain(env, lo=1, hi=4, kinds='z')
    d = env.dense(a)
    if not env.symbolic:
        env.assume(abs(d).max() > 1e-3)
    old = a.ranks
    how = env.choose('truncate', ['no', 'rank', 'relerr', 'both'])
    kw = dict(direction=env.choose('dir', [None, 'left', 'right']))
    if how in ('rank', 'both'):
        kw['rank'] = env.dim('rank', 1, 4)
    if how in ('relerr', 'both'):
        kw['relerr'] = env.choose('relerr', [.2, 0.])
    if env.bit('inplace'):
        c = a
        ov = c.compress(**kw)
    else:
        with env.unchanged(a):
            c, ov = a.compression(method='svd', **kw)
        env.check(c is not a, 'new object')
    basic(env, c, sh, 'compressed')
    dc = env.dense(c)
    sc = 1. if env.symbolic else max(1., float(np.linalg.norm(d)) ** 2)
    env.eq(ov, np.vdot(dc, dc), 'squared norm of the result', scale=sc)
    env.eq(ov, np.vdot(d, dc), 'overlap with the original', scale=sc)
    env.honest(c)
    for x, y in zip(c.ranks, old):
        env.check(x <= y, 'ranks do not increase')
        if 'rank' in kw:
            env.check(x <= kw['rank'], 'rank bound')
    if how == 'no':
        env.eq(dc, d, 'lossless')


@clause('C08', ['mparray.MPArray.singularvals'], sym=False, weight=1.5)
def singularvals(env):
    """Singular values of all bipartitions; the array stays the same"""
    np = env.np
    N, sh, a = chain(env, kinds='dz')
    d = env.dense(a)
    res = []
    for s in a.singularvals():
        res.append(np.array(s).copy())
        env.eq(env.dense(a), d, 'array unchanged while iterating')
        env.honest(a)
    env.eq(env.dense(a), d, 'array unchanged')
    env.honest(a)
    env.same(len(res), N - 1, 'number of bipartitions')
    nd = [len(s) for s in sh]
    for b, s in enumerate(res):
        ref = svals(env, d, nd, b + 1)
        m = max(len(ref), len(s))
        p = np.zeros(m)
        p[:len(s)] = s
        q = np.zeros(m)
        q[:len(ref)] = ref
        env.eq(p, q, 'singular values of bipartition %d' % (b + 1), scale=max(1., float(abs(ref).max())))


@clause('C08', ['mparray.MPArray.singularvals', 'mparray.MPArray._compress_svd_r'], weight=1)
def singularvals_def(env):
    """d = L (L^+ d) with an isometry L and (L^+ d)(L^+ d)^+ = diag(s^2): s are the singular values"""
    np = env.np
    N, sh, a = chain(env, hi=4, kinds='z')
    d = env.dense(a)
    res = list(a.singularvals())
    env.same(len(res), N - 1, 'number of bipartitions')
    env.eq(env.dense(a), d, 'array unchanged')
    env.honest(a)
    if N == 1:
        return
    lt = list(a.lt)
    b = env.randint('bond', 0, N - 2)
    s = res[b]
    if b >= a.canonical_form[0]:
        env.eq(np.vdot(d, d), np.sum(s * s), 'sum of the squared singular values',
               scale=1. if env.symbolic else max(1., float(np.linalg.norm(d)) ** 2))
        return
    L = env.dense(lt[:b + 1], virtual=True)[0]
    n = L.ndim - 1
    C = np.tensordot(L.conj(), d, (list(range(n)), list(range(n))))
    env.eq(np.tensordot(L, C, (-1, 0)), d, 'array in the range of the left isometry')
    m = C.ndim - 1
    G = np.tensordot(C, C.conj(), (list(range(1, m + 1)), list(range(1, m + 1))))
    env.eq(G, np.diag(s * s), 'squared singular values')


@clause('C08', ['mparray.MPArray._compress_svd'], weight=1)
def nocanon_rank(env):
    """canonicalize=False: rank bound, honest result, lossless without truncation"""
    N, sh, a = chain(env, lo=2, hi=4, kinds='z')
    d = env.dense(a)
    kw = dict(direction=env.choose('dir', [None, 'left', 'right']), canonicalize=False)
    rank = env.dim('rank', 1, 4) if env.bit('rank given') else None
    old = a.ranks
    a.compress('svd', rank=rank, **kw)
    env.honest(a)
    basic(env, a, sh, 'compressed')
    for x, y in zip(a.ranks, old):
        env.check(x <= y, 'ranks do not increase')
        if rank is not None:
            env.check(x <= rank, 'rank bound')
    if rank is None:
        env.eq(env.dense(a), d, 'lossless')


@clause('C08', ['mparray.MPArray._compress_svd'], sym=False, weight=1)
def nocanon(env):
    """canonicalize=False and other svd functions: rank bound and honest result"""
    np = env.np
    N, sh, a = chain(env, lo=2, kinds='dz')
    env.assume(abs(env.dense(a)).max() > 1e-3)
    rank = env.choose('rank', [None, 1, 2, 3])
    d = env.dense(a)
    how = env.choose('how', ['nocanon', 'func'])
    old = max(a.ranks)
    dr = env.choose('dir', [None, 'left', 'right'])
    if how == 'nocanon':
        ov = a.compress(rank=rank, canonicalize=False, direction=dr)
        if rank is None or rank >= old:
            env.eq(env.dense(a), d, 'lossless')
    else:
        calls = []

        def func(A, k):
            u, s, v = np.linalg.svd(A, full_matrices=False)
            calls.append(k)
            return u[:, :k], s[:k], v[:k]
        r = rank or old
        ov = a.compress(rank=r, svdfunc=func, direction=dr)
        env.check(len(calls) > 0, 'supplied svd function is used')
        dc = env.dense(a)
        env.eq(ov, np.vdot(d, dc), 'overlap', scale=max(1., float(np.linalg.norm(d)) ** 2))
    env.honest(a)
    if rank is not None:
        env.check(max(a.ranks) <= rank, 'rank bound')
    basic(env, a, sh, 'compressed')
    env.raises((ValueError,), lambda: a.compress('nonsense'), 'unknown method rejected')
