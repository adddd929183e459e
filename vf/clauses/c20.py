from ..registry import clause
from .common import basic, rand_perm


@clause('C20', ['utils.extmath.block_diag'], weight=2)
def block_diag(env):
    """Blocks on the diagonal of the chosen axes, zeros elsewhere"""
    np = env.np
    nd = env.choose('ndim', [1, 2, 3, 4])
    na = env.choose('naxes', list(range(1, nd + 1)))
    import itertools
    axes = env.choose('axes', list(itertools.permutations(range(nd), na)))
    neg = env.choose('negative', [0, 1, 2])
    arg = [a - nd if neg == 1 or (neg == 2 and i % 2) else a for i, a in enumerate(axes)]
    n = env.choose('n', [1, 2, 3])
    common = [env.dim('c%d' % i, 1, 3) for i in range(nd)]
    arrs = []
    for k in range(n):
        shp = [env.dim('s%d%d' % (k, i), 1, 3) if i in axes else common[i] for i in range(nd)]
        arrs.append(env.tensor('A%d' % k, shp, env.dtype('dt%d' % k)))
    if env.choose('default', [False, True]) and nd >= 2:
        arg, axes = (0, 1), (0, 1)
        env.assume(all(a.shape[i] == arrs[0].shape[i] for a in arrs for i in range(2, nd)))
        r = env.mp.utils.extmath.block_diag(arrs)
    else:
        r = env.mp.utils.extmath.block_diag(arrs, axes=env.choose('t', [list, tuple])(arg))
    shape = [sum(a.shape[i] for a in arrs) if i in axes else arrs[0].shape[i] for i in range(nd)]
    env.same(r.shape, tuple(shape), 'shape')
    ref = np.zeros(shape, np.result_type(*arrs) if not env.symbolic else complex)
    start = [0] * nd
    for a in arrs:
        sl = tuple(slice(start[i], start[i] + a.shape[i]) if i in axes else slice(None)
                   for i in range(nd))
        ref[sl] = a
        start = [start[i] + a.shape[i] for i in range(nd)]
    env.eq(r, ref, 'block diagonal sum')
    if not env.symbolic:
        env.check(r.dtype == ref.dtype, 'dtype')


@clause('C20', ['utils.extmath.partial_trace', 'utils.extmath.mkron', 'utils.extmath.matdot'], weight=2)
def dense_helpers(env):
    """partial_trace, mkron, matdot"""
    np = env.np
    what = env.choose('what', ['ptrace', 'mkron', 'matdot'])
    if what == 'ptrace':
        N = env.choose('N', [1, 2, 3, 4])
        ds = [env.dim('d%d' % k, 1, 3) for k in range(N)]
        A = env.tensor('A', tuple(ds + ds), complex)
        out = [k for k in range(N) if env.bit('t%d' % k)]
        keep = [k for k in range(N) if k not in out]
        before = A.copy()
        r = env.mp.utils.extmath.partial_trace(A, env.choose('t', [list, tuple])(out))
        lab = list(range(N)) + [k if k in out else N + k for k in range(N)]
        env.eq(r, np.einsum(A, lab, keep + [N + k for k in keep]), 'partial trace')
        env.bitwise(A, before, 'input unchanged')
    elif what == 'mkron':
        n = env.choose('n', [1, 2, 3, 4])
        ms = [env.tensor('M%d' % i, (env.dim('m%d' % i, 1, 3), env.dim('n%d' % i, 1, 3)),
                         env.dtype('dt%d' % i)) for i in range(n)]
        ref = ms[0]
        for m in ms[1:]:
            a, b = ref.shape, m.shape
            ref = np.einsum('ij,kl->ikjl', ref, m).reshape((a[0] * b[0], a[1] * b[1]))
        env.eq(env.mp.utils.extmath.mkron(*ms), ref, 'iterated Kronecker product')
    else:
        a = [env.dim('a%d' % k, 1, 3) for k in range(env.choose('na', [1, 2, 3]))]
        b = [env.dim('b%d' % k, 1, 3) for k in range(env.choose('nb', [1, 2, 3]))]
        b[0] = a[-1]
        A, B = env.tensor('A', a, complex), env.tensor('B', b, complex)
        la, lb = list(range(len(a))), [len(a) - 1] + list(range(10, 9 + len(b)))
        env.eq(env.mp.utils.extmath.matdot(A, B), np.einsum(A, la, B, lb, la[:-1] + lb[1:]), 'matdot')


@clause('C20', ['_named_ndarray.named_ndarray.tensordot', '_named_ndarray.named_ndarray.to_array',
                '_named_ndarray.named_ndarray.rename', '_named_ndarray.named_ndarray.conj'], weight=2)
def named_axes(env):
    """Axes are addressed by name only"""
    np = env.np
    cls = env.mp._named_ndarray.named_ndarray
    n1, n2 = (env.choose(x, [0, 1, 2, 3, 4], sym=[0, 1, 2, 3]) for x in ('n1', 'n2'))
    names1 = ['a%d' % i for i in range(n1)]
    names2 = ['b%d' % i for i in range(n2)]
    if env.bit('tuples', .3):
        names1 = [('t', x) for x in names1]
    if env.bit('mixed', .3):
        names1 = [i if i % 2 else x for i, x in enumerate(names1)]
    c = env.choose('c', list(range(min(n1, n2) + 1)))
    i1 = rand_perm(env, 'p1', n1)[:c]
    i2 = rand_perm(env, 'p2', n2)[:c]
    s1 = [env.dim('s%d' % i, 1, 3) for i in range(n1)]
    s2 = [env.dim('r%d' % i, 1, 3) for i in range(n2)]
    for a, b in zip(i1, i2):
        s2[b] = s1[a]
        if env.bit('same%d' % a, .4):
            names2[b] = names1[a]      # same name on both sides, contracted
    A, B = env.tensor('A', s1, complex), env.tensor('B', s2, complex)
    X, Y = cls(A, names1), cls(B, tuple(names2))
    r = X.tensordot(Y, [(names1[a], names2[b]) for a, b in zip(i1, i2)])
    rest = [names1[i] for i in range(n1) if i not in i1] + [names2[i] for i in range(n2) if i not in i2]
    env.same(sorted(map(repr, r.axisnames)), sorted(map(repr, rest)), 'remaining names')
    order = [rest[i] for i in rand_perm(env, 'order', len(rest))]
    la = list(range(n1))
    lb = list(range(10, 10 + n2))
    for a, b in zip(i1, i2):
        lb[b] = a
    lab = {}
    for i in range(n1):
        if i not in i1:
            lab[names1[i]] = la[i]
    for i in range(n2):
        if i not in i2:
            lab[names2[i]] = lb[i]
    env.eq(r.to_array(order), np.einsum(A, la, B, lb, [lab[x] for x in order]), 'tensordot by names')
    p = [names1[i] for i in rand_perm(env, 'p', n1)]
    env.eq(X.to_array(p), A.transpose([names1.index(x) for x in p]), 'to_array', tol=0.)
    env.eq(X.conj().to_array(names1), A.conj(), 'conj', tol=0.)
    if n1:
        k = env.choose('k', list(range(n1)))
        Z = X.rename([(names1[k], 'new')])
        env.same(Z.axisnames, tuple(names1[:k] + ['new'] + names1[k + 1:]), 'rename')
        env.same(X.axisnames, tuple(names1), 'rename leaves the array alone')
        env.eq(Z.to_array(list(Z.axisnames)), A, 'rename keeps data', tol=0.)
        env.same(X.axispos(names1[k]), int(k), 'axispos')
        # several names at once, also exchanged ones
        old = [names1[i] for i in rand_perm(env, 'old', n1)[:env.choose('nold', list(range(1, n1 + 1)))]]
        new = [old[i] for i in rand_perm(env, 'perm', len(old))]
        if env.choose('fresh', [True, False]):
            new[env.choose('which', list(range(len(new))))] = 'new'
        tr = dict(zip(old, new))
        Z = X.rename(list(zip(old, new)))
        env.same(Z.axisnames, tuple(tr.get(x, x) for x in names1), 'rename of several axes')
        env.eq(Z.to_array(list(Z.axisnames)), A, 'rename of several axes keeps data', tol=0.)
    if n1 > 1:
        env.raises(AssertionError, lambda: X.rename([(names1[0], names1[1])]), 'duplicate names rejected')
        env.raises(AssertionError, lambda: cls(A, names1[:-1]), 'number of names')
    env.raises(Exception, lambda: X.axispos('unknown'), 'unknown name')


@clause('C20', ['utils.extmath.truncated_svd', 'utils.extmath.randomized_svd',
                'utils.extmath.approx_range_finder'], weight=1)
def svd_vectors(env):
    """Shapes, orthonormal vectors, exactness for matrices and ranks of any size"""
    np = env.np
    m, n, k = env.dim('m', 1, 6), env.dim('n', 1, 6), env.dim('k', 1, 7)
    dt = env.dtype('dt')
    A = env.tensor('A', (m, n), dt, zero=0)
    kk = min(k, min(m, n))
    rnd = env.bit('randomized')
    if rnd:
        kw = dict(n_iter=env.choose('n_iter', [0, 1, 2]), randstate=env.randstate('rs'),
                  n_oversamples=env.choose('over', [0, 10]), piter_normalizer=env.choose('norm', ['auto', 'QR', 'none']),
                  transpose=env.choose('transpose', [True, False, 'auto']))
        u, s, v = env.mp.utils.randomized_svd(A, k, **kw)
        env.no_global_random()
    else:
        u, s, v = env.mp.utils.truncated_svd(A, k)
    env.same((u.shape, s.shape, v.shape), ((m, kk), (kk,), (kk, n)), 'shapes')
    env.eq(np.dot(np.transpose(u).conj(), u), np.eye(kk), 'left vectors orthonormal', tol=1e-7)
    env.eq(np.dot(v, np.transpose(v).conj()), np.eye(kk), 'right vectors orthonormal', tol=1e-7)
    if not rnd and k >= min(m, n):
        env.eq(np.dot(u * s[None, :], v), A, 'reproduces the matrix')
    if not rnd:
        env.eq(np.dot(A, np.transpose(v).conj()), u * s[None, :], 'singular vectors', scale=10.)


@clause('C20', ['special.sumup', 'special._local_add_sparse', 'utils.extmath.truncated_svd'], weight=1)
def optimized_sum(env):
    """special.sumup equals the weighted sum if the rank suffices, else it is bounded by the rank"""
    np = env.np
    N = env.choose('N', [1, 2, 3, 4], sym=[1, 2, 3])
    n = env.choose('n', [1, 2, 3], sym=[1, 2])
    legs = env.choose('legs', [1, 2], sym=[1] if N > 2 else [1, 2])
    sh = env.shapes('sh', N, legs=legs, maxsize=300)
    ms = [env.mpa('A%d' % i, sh, ranks=[1] * (N - 1), dtype=env.dtype('dt%d' % i), form=None) for i in range(n)]
    ws = [env.scalar('w%d' % i, env.dtype('dtw%d' % i)) for i in range(n)] if env.bit('weights') else None
    rank = env.dim('rank', 1, 4)
    ref = None
    for i, m in enumerate(ms):
        x = env.dense(m) if ws is None else env.dense(m) * ws[i]
        ref = x if ref is None else ref + x
    with env.unchanged(*ms):
        r = env.mp.special.sumup(ms, rank, weights=ws)
    basic(env, r, [tuple(s) for s in sh], 'sumup')
    for x in r.ranks:
        env.check(x <= rank, 'rank respected')
    env.honest(r)
    if N == 1 or rank >= n:
        env.eq(env.dense(r), ref, 'weighted sum', scale=10., tol=1e-7)


def lowrank(env, m, n, r, dt):
    a = env.rng.randn(m, r) + (1j * env.rng.randn(m, r) if dt == complex else 0)
    b = env.rng.randn(r, n) + (1j * env.rng.randn(r, n) if dt == complex else 0)
    return env.np.dot(a, b)


def svd_ok(env, A, u, s, v, k, label):
    np = env.np
    kk = len(s)
    env.same((u.shape, v.shape), ((A.shape[0], kk), (kk, A.shape[1])), label + ': shapes')
    env.check((np.diff(s) <= 1e-12 * max(1, s.max())).all() and (s >= 0).all(), label + ': descending')
    env.eq(np.dot(u.conj().T, u), np.eye(kk), label + ': left vectors orthonormal', tol=1e-7)
    env.eq(np.dot(v, v.conj().T), np.eye(kk), label + ': right vectors orthonormal', tol=1e-7)


@clause('C20', ['utils.extmath.truncated_svd', 'utils.extmath.randomized_svd',
                'utils.extmath.approx_range_finder'], sym=False, weight=3)
def svds(env):
    """Truncated and randomized SVD"""
    np, rng = env.np, env.rng
    m, n = env.choose('m', [1, 2, 3, 5, 8, 20]), env.choose('n', [1, 2, 3, 5, 8, 30])
    r = env.randint('rank', 1, min(m, n))
    dt = env.choose('dt', [float, complex])
    A = lowrank(env, m, n, r, dt)
    ref = np.linalg.svd(A, full_matrices=False)[1]
    k = env.randint('k', 1, min(m, n) + 2)
    kk = min(k, m, n)
    before = A.copy()
    if env.choose('which', ['truncated', 'randomized']) == 'truncated':
        u, s, v = env.mp.utils.truncated_svd(A, k)
        env.same(len(s), kk, 'number of singular values')
        env.eq(s, ref[:kk], 'largest singular values')
        svd_ok(env, A, u, s, v, k, 'truncated')
        err = np.sqrt((ref[kk:] ** 2).sum())
        env.eq(np.linalg.norm(A - np.dot(u * s, v)), err, 'best approximation', scale=ref[0])
    else:
        kw = {}
        if env.bit('iter', .6):
            kw['n_iter'] = env.choose('n_iter', [0, 1, 2, 3, 5])
        if env.bit('norm', .6):
            kw['piter_normalizer'] = env.choose('pn', ['auto', 'QR', 'LU', 'none'])
            if kw['piter_normalizer'] == 'none' and kw.get('n_iter', 9) > 2:
                kw['n_iter'] = 1
        if env.bit('tr', .6):
            kw['transpose'] = env.choose('transpose', [True, False, 'auto'])
        if env.bit('over', .4):
            kw['n_oversamples'] = env.choose('n_oversamples', [0, 1, 5, 10])
        kw['randstate'] = np.random.RandomState(env.randint('seed', 0, 10 ** 6))
        M = A
        if env.bit('sparse', .2):
            import scipy.sparse as ssp
            M = ssp.csr_matrix(A)
        g0 = np.random.get_state()[1].tolist()
        u, s, v = env.mp.utils.randomized_svd(M, k, **kw)
        env.check(np.random.get_state()[1].tolist() == g0, 'global random state untouched')
        svd_ok(env, A, u, s, v, k, 'randomized')
        env.same(len(s), kk, 'number of singular values')
        if k >= r:
            env.eq(np.dot(u * s, v), A, 'matrix of sufficiently small rank reproduced', tol=1e-6,
                   scale=ref[0])
            env.eq(s, ref[:kk], 'singular values', tol=1e-6, scale=ref[0])
        else:
            env.check((s <= ref[:kk] * (1 + 1e-9)).all(), 'singular values bounded by the true ones')
    env.bitwise(A, before, 'matrix unchanged')


@clause('C20', ['special.sumup', 'special._local_add_sparse', 'special.inner_prod_mps'], sym=False, weight=3)
def special_sums(env):
    """special.sumup equals the weighted sum; special.inner_prod_mps"""
    np, rng = env.np, env.rng
    if env.choose('what', ['sumup', 'sumup', 'inner']) == 'inner':
        N = env.sites(1, 5)
        sh = [(s[0],) for s in env.shapes('sh', N, legs=1, maxsize=500)]
        a = env.mpa('A', sh, ranks=[1] * (N - 1), dtype=env.dtype('dt1'))
        b = env.mpa('B', sh, dtype=env.dtype('dt2'))
        with env.unchanged(a, b):
            r = env.mp.special.inner_prod_mps(a, b)
        env.eq(r, np.vdot(env.dense(a), env.dense(b)), 'inner product')
        return
    N = env.choose('N', [1, 2, 3, 4])
    n = env.choose('n', [1, 2, 3, 6])
    sh = env.shapes('sh', N, legs=env.choose('legs', [1, 1, 2]), maxsize=300)
    ms = [env.mpa('A%d' % i, sh, ranks=[1] * (N - 1), dtype=env.dtype('dt%d' % i, 'zzzd')) for i in range(n)]
    wk = env.choose('weights', ['none', 'list', 'array', 'iter'])
    w = None if wk == 'none' else rng.randn(n)
    ref = sum(env.dense(m) * (1. if w is None else w[i]) for i, m in enumerate(ms))
    scale = max(1., max(abs(env.dense(m)).max() for m in ms))
    rank = env.choose('rank', [1, 2, 3, 6, 10])
    svd = env.choose('svd', ['default', 'randomized'])
    kw = {}
    if svd == 'randomized':
        rs = np.random.RandomState(env.randint('seed', 0, 10 ** 6))
        kw['svdfunc'] = lambda A, k: env.mp.utils.randomized_svd(A, k, randstate=rs)
    with env.unchanged(*ms):
        r = env.mp.special.sumup(env.choose('t', [list, iter])(ms), rank,
                                 weights=w if wk in ('none', 'array') else dict(list=list, iter=iter)[wk](list(w)), **kw)
    basic(env, r, [tuple(s) for s in sh], 'sumup')
    env.check(all(x <= rank for x in r.ranks), 'rank respected', repr(r.ranks))
    if N > 1:
        env.honest(r)
    need = [np.linalg.matrix_rank(ref.reshape((int(np.prod([np.prod(s) for s in sh[:k]])), -1)), tol=1e-8)
            for k in range(1, N)]
    if rank >= n:
        env.eq(env.dense(r), ref, 'weighted sum', scale=scale, tol=1e-7)
    elif N == 2 and svd == 'default':
        m = ref.reshape((int(np.prod(sh[0])), -1))
        s = np.linalg.svd(m)[1]
        # first bond is truncated in the basis of summands: error bounded by the discarded part
    if N == 1:
        env.eq(env.dense(r), ref, 'weighted sum on one site', scale=scale)
