from ..registry import clause
from .common import basic, contract
from . import qstate as q

MODES = {'mps': ['mps', 'auto'], 'pmps': ['pmps'], 'mpdo': ['mpdo', 'auto']}


@clause('C15', ['povm.mppovm.MPPovm.expectations', 'povm.mppovm.MPPovm.pmf',
                'povm.mppovm.MPPovm.probability_map'], weight=2)
def expectations(env):
    """Expectations on all neighbouring windows; linear in POVM and state, so any 3-leg chain"""
    n = env.choose('sites', [1, 2, 3])
    N = n + env.choose('extra', [0, 1, 2], sym=list(range(4 - n)))
    hd = q.dims(env, N)
    kind = env.choose('state', ['mps', 'pmps', 'mpdo'])
    if N > n:
        hd = [hd[0]] * N
        if env.real_only():
            env.assume(env.np.prod(hd) <= 32)
    k = q.outs(env, n)
    M, E = q.povm(env, 'povm', hd[:n], k)
    rho, dm = q.state(env, kind, hd)
    mode = env.choose('mode', MODES[kind])
    with env.unchanged(M, rho):
        res = M.expectations(rho, mode)
        for s in range(N - n + 1):
            p = next(res)
            env.wellformed(p)
            env.same(p.shape, tuple((x,) for x in k), 'one outcome leg per site')
            red = q.ptrace(env, dm, N, list(range(s, s + n)))
            env.eq(env.dense(p), q.born(env, E, red, n), 'Born rule on sites %d..' % s)
        env.check(next(res, None) is None, 'no further windows')
        if N == n:
            p = M.pmf(rho, mode)
            env.eq(env.dense(p), q.born(env, E, dm, n), 'pmf')


@clause('C15', ['povm.mppovm.MPPovm.pmf_as_array', 'povm.mppovm.MPPovm._pmf_as_array_pmps_ltr',
                'povm.mppovm.MPPovm._pmf_as_array_pmps_symm', 'utils.pmf.project_pmf',
                'utils.pmf.project_nonneg'], weight=5)
def pmf_as_array(env):
    """Dense probabilities for all implementations"""
    N, hd, k, kind, M, E, rho, dm = q.case(env, need_out=not env.choose('singleton', [False] * 9 + [True]))
    if env.choose('reuse', [False, True, False]):
        # measure the same state in several ways
        rho.norm() if hasattr(rho, 'norm') else None
    ref = q.squeeze(env, q.re(env, q.born(env, E, dm, N)), k)
    mode = env.choose('mode', MODES[kind])
    impls = ['auto', 'default']
    if kind == 'pmps':
        impls += ['pmps-symm', 'pmps-ltr'] * 2
    impl = env.choose('impl', impls)
    with env.unchanged(M, rho), q.valid_pmf(env):
        p = M.pmf_as_array(rho, mode=mode, impl=impl)
    env.same(p.shape, tuple(x for x in k if x > 1), 'shape: exactly the sites with several outcomes')
    env.check(env.np.asarray(p).dtype.kind == 'f', 'real')
    env.eq(p, ref, 'Born rule')
    if env.real_only():
        env.check((env.np.asarray(p) >= 0).all(), 'non-negative')
        env.eq(env.np.asarray(p).sum(), 1.0, 'normalized', tol=1e-12)
    env.same((M.outdims, M.hdims), (tuple(k), tuple(hd)), 'dimensions')
    env.same((M.nsoutdims, M.nsoutpos), (tuple(x for x in k if x > 1),
                                         tuple(i for i, x in enumerate(k) if x > 1)), 'nsout')


@clause('C15', ['povm.mppovm.MPPovm._pmf_as_array_pmps_symm',
                'povm.mppovm.MPPovm._pmf_as_array_pmps_ltr'], sym=False, weight=1)
def long_chains(env):
    """Longer chains of qubits with uneven ranks and outcome numbers"""
    np = env.np
    N = env.choose('N', [4, 5, 6])
    hd = [2] * N
    k = [int(x) for x in env.rng.choice([1, 1, 2, 2, 3], size=N)]
    env.assume(np.prod(k) <= 100 and max(k) > 1)
    M, E = q.povm(env, 'povm', hd, k, kind=env.choose('pk', ['product', 'mixture']))
    kind = env.choose('state', ['mps', 'pmps'])
    if kind == 'mps':
        rho, dm = q.state(env, 'mps', hd)
        psi = env.dense(rho)
        ps = env.mp.mps_to_pmps(rho)
    else:
        anc = [(2, int(x)) for x in env.rng.choice([1, 1, 2], size=N)]
        ps = env.mpa('psi', anc, ranks=[int(x) for x in env.rng.randint(1, 5, size=N - 1)])
        d = env.dense(ps)
        nrm = np.sqrt((abs(d) ** 2).sum())
        env.assume(nrm > 1e-3)
        lt = list(ps.lt)
        lt[0] = lt[0] / nrm
        ps = env.mp.MPArray(lt)
        dm = q.dm_of_pmps(env, env.dense(ps), N)
    ref = q.squeeze(env, q.born(env, E, dm, N).real, k)
    for impl in ('pmps-symm', 'pmps-ltr', 'default', 'auto'):
        env.eq(M.pmf_as_array(ps, 'pmps', impl=impl), ref, 'Born rule, ' + impl)


@clause('C15', ['povm.mppovm.MPPovm.pmfs_as_array', 'povm.mppovm.MPPovm.block_pmfs_as_array',
                'povm.mppovm.MPPovmList.block_pmfs_as_array', 'povm.mppovm.MPPovmList.pmfs_as_array',
                'povm.mppovm.MPPovmList.pmf_as_array', 'povm.mppovm.MPPovmList.pmf'], weight=1.5)
def blocks(env):
    """Probabilities of reduced states; lists of POVMs"""
    np = env.np
    n = env.choose('n', [1, 2])
    N = n + env.choose('extra', [0, 1, 2], sym=[0, 1])
    d = env.dim('d', 2, 3) if q.symbolic(env) else env.choose('d', [2, 3] if N < 4 else [2])
    hd = [d] * N
    kind = env.choose('state', ['mps', 'pmps', 'mpdo'])
    rho, dm = q.state(env, kind, hd)
    k = q.outs(env, n)
    asarray = env.choose('asarray', [True, False])
    style = env.choose('style', ['width', 'start', 'list', 'list-start', 'list-full'])
    env.assume(any(x > 1 for x in k))
    starts = (lambda: env.choose('starts', [[0, N - n, 0], [N - n]])) if q.symbolic(env) else \
        (lambda: [int(x) for x in env.rng.randint(0, N - n + 1, size=3)])
    if style in ('width', 'start'):
        M, E = q.povm(env, 'povm', hd[:n], k)
        if style == 'width':
            st, kw = list(range(N - n + 1)), {}
        else:
            st = starts()
            kw = dict(startsites=st, width=n)
        with env.unchanged(M, rho), q.valid_pmf(env):
            res = M.block_pmfs_as_array(rho, kind, asarray=asarray, **kw)
            if asarray:
                env.check(hasattr(res, 'shape'), 'returned as array')
            res = list(res)
        Es = [E] * len(st)
    elif style in ('list', 'list-start'):
        st = list(range(N - n + 1)) if style == 'list' else starts()
        kw = {} if style == 'list' else dict(startsites=st, width=n)
        pe = [q.povm(env, 'povm%d' % i, hd[:n], k) for i in range(len(st))]
        L = env.mp.povm.MPPovmList([x[0] for x in pe])
        with q.valid_pmf(env):
            res = L.block_pmfs_as_array(rho, kind, asarray=asarray, **kw)
            if asarray:
                env.check(hasattr(res, 'shape'), 'returned as array')
            res = list(res)
        Es = [x[1] for x in pe]
    else:
        k = q.outs(env, N, label='outs')
        env.assume(any(x > 1 for x in k))
        n, st = N, [0, 0] if q.symbolic(env) else [0, 0, 0]
        pe = [q.povm(env, 'povm%d' % i, hd, k) for i in range(len(st))]
        L = env.mp.povm.MPPovmList([x[0] for x in pe])
        mode = env.choose('mode', MODES[kind])
        with q.valid_pmf(env):
            res = list(L.pmf_as_array(rho, mode))
        Es = [x[1] for x in pe]
        for p, E in zip(L.pmf(rho, mode), Es):
            env.eq(env.dense(p), q.born(env, E, dm, N), 'pmf of a list')
    env.same(len(res), len(st), 'number of distributions')
    for p, s, E in zip(res, st, Es):
        red = q.ptrace(env, dm, N, list(range(s, s + n)))
        env.eq(p, q.squeeze(env, q.re(env, q.born(env, E, red, n)), k), 'Born rule on reduced state')


def same_measurement(env, M, ref, hd, outs, label):
    env.check(isinstance(M, env.mp.povm.MPPovm), label + ': type')
    basic(env, M, [(k, d, d) for k, d in zip(outs, hd)], label)
    env.eq(env.dense(M), ref, label)
    env.honest(M)


def outer(env, arrs):
    r = env.np.ones(())
    for x in arrs:
        r = env.np.tensordot(r, x, axes=((), ()))
    return r


@clause('C15', ['povm.mppovm.MPPovm.embed', 'povm.mppovm.MPPovm.block', 'povm.mppovm.MPPovm.repeat',
                'povm.mppovm.MPPovm.eye', 'povm.mppovm.MPPovm.from_local_povm',
                'povm.mppovm.MPPovmList.block', 'povm.mppovm.MPPovmList.repeat',
                'povm.mppovm.MPPovm.elements', 'povm.mppovm.MPPovm.probability_map'], weight=2)
def constructions(env):
    """embed, block, repeat, eye, from_local_povm, elements, probability_map"""
    np, MP = env.np, env.mp.povm.MPPovm
    what = env.choose('what', ['embed', 'block', 'repeat', 'local', 'eye', 'elements', 'listblock',
                               'listrepeat', 'pmap'])
    n = env.choose('n', [1, 2, 3], sym=[1, 2])
    real = env.real_only()
    eye = lambda d: np.eye(d).reshape((1, d, d))
    hd, k = q.dims(env, n, maxd=6), q.outs(env, n, maxk=9)
    if what in ('block', 'repeat', 'listblock', 'listrepeat'):
        hd = [hd[0]] * n
        env.assume(not real or np.prod(hd) <= 8)
    M, E = q.povm(env, 'povm', hd, k)
    if what == 'embed':
        N = n + env.choose('extra', [0, 1, 2], sym=[0, 1])
        s = env.choose('start', list(range(N - n + 1)))
        if env.choose('scalar', [True, False]):
            d = env.dim('d', 1, 3)
            full, arg = [d] * s + hd + [d] * (N - n - s), d
        else:
            full = q.dims(env, s, maxd=6, label='left') + hd + q.dims(env, N - n - s, maxd=6, label='right')
            arg = env.choose('t', [list, tuple])(full)
        r = M.embed(N, s, arg)
        ref = outer(env, [eye(d) for d in full[:s]] + [E] + [eye(d) for d in full[s + n:]])
        same_measurement(env, r, ref, full, [1] * s + k + [1] * (N - n - s), 'embed')
        if n > 1:
            env.raises(AssertionError, lambda: M.embed(N, N - n + 1, 2), 'position outside')
    elif what in ('block', 'listblock'):
        N = n + env.choose('extra', [0, 1, 2], sym=[0, 1])
        d = hd[0]
        env.assume(not real or d ** (2 * N) * np.prod(k) < 2e4)
        Es, Ms, ks = [E], [M], [k]
        if what == 'block':
            L = M.block(N)
        else:
            k2 = q.outs(env, n, maxk=9, label='outb')
            M2, E2 = q.povm(env, 'povm2', hd, k2)
            L = env.mp.povm.MPPovmList([M, M2]).block(N)
            Es, ks = [E, E2], [k, k2]
        env.same(len(L.mpps), (N - n + 1) * len(Es), 'one POVM per position')
        i = 0
        for s in range(N - n + 1):
            for e, kk in zip(Es, ks):
                ref = outer(env, [eye(d)] * s + [e] + [eye(d)] * (N - n - s))
                same_measurement(env, L.mpps[i], ref, [d] * N, [1] * s + kk + [1] * (N - n - s),
                                 'block')
                i += 1
    elif what in ('repeat', 'listrepeat'):
        times, last = env.choose('times', [1, 2]), env.choose('last', list(range(n)))
        env.assume(real or times * n + last <= 3)
        if last:
            M, E = q.povm(env, 'povm', hd, k, kind='product')
        N = times * n + last
        env.assume(not real or np.prod(hd) ** (2 * times + 2) * np.prod(k) ** (times + 1) < 1e6)
        part = None
        if last:
            part = env.dense([t for t in list(M.lt)[:last]])
        ref = outer(env, [E] * times + ([part] if last else []))
        if what == 'repeat':
            r = M.repeat(N)
        else:
            L = env.mp.povm.MPPovmList([M, M]).repeat(N)
            env.same(len(L.mpps), 2, 'list length')
            r = L.mpps[1]
        same_measurement(env, r, ref, (hd * 3)[:N], (k * 3)[:N], 'repeat')
    elif what == 'local':
        loc = q.local_povm(env, hd[0], k[0]) if real else env.tensor('loc', (k[0], hd[0], hd[0]))
        N = env.choose('N', [1, 2, 3])
        t = env.choose('t', ['array', 'POVM'], sym=['array'])
        r = MP.from_local_povm(loc if t == 'array' else env.mp.povm.localpovm.POVM(loc), N)
        same_measurement(env, r, outer(env, [loc] * N), [hd[0]] * N, [k[0]] * N, 'from_local_povm')
    elif what == 'eye':
        r = MP.eye(env.choose('t', [list, tuple, iter])(hd))
        same_measurement(env, r, outer(env, [eye(d) for d in hd]), hd, [1] * n, 'eye')
    elif what == 'elements':
        els = list(M.elements)
        tot = 1
        for x in k:
            tot = tot * x
        env.same(len(els), tot, 'number of elements')
        perm = list(range(0, 3 * n, 3)) + [x for s in range(n) for x in (3 * s + 1, 3 * s + 2)]
        flat = E.transpose(perm).reshape((-1,) + tuple(d for d in hd for _ in (0, 1)))
        for e, ref in zip(els, flat):
            env.eq(env.dense(e), ref, 'element in row-major order')
    else:
        m = M.probability_map
        env.same(m.shape, tuple((x, d * d) for x, d in zip(k, hd)), 'probability_map shape')
        A = env.mpa('A', [(d, d) for d in hd])
        r = env.mp.dot(m, A.ravel())
        env.eq(env.dense(r), q.born(env, E, env.dense(A), n), 'tr(M A) for every operator')


@clause('C15', ['utils.pmf.project_pmf', 'utils.pmf.project_nonneg'], sym=False, weight=1)
def projections(env):
    """project_nonneg / project_pmf: real, non-negative, normalized or an error"""
    np, rng = env.np, env.rng
    pmf = __import__('mpnum.utils.pmf', fromlist=['x'])
    shape = tuple(int(x) for x in rng.randint(1, 4, size=rng.randint(1, 4)))
    p = rng.rand(*shape) + 1e-3
    p /= p.sum()
    cplx = env.choose('complex', [True, False])
    noise = env.choose('noise', ['none', 'small', 'imag', 'neg', 'sum'])
    eps = 1e-6
    if noise == 'imag':
        env.assume(cplx)
    v = p.astype(complex) if cplx else p.copy()
    i = tuple(rng.randint(s) for s in shape)
    if noise == 'small':
        env.assume(v.size > 1)
        v[i] = 0
        v /= v.sum() if not cplx else v.sum().real
        v[i] = -1e-8 if not cplx else -1e-8 + 1e-8j
    elif noise == 'imag':
        v[i] += 1e-3j
    elif noise == 'neg':
        env.assume(v.size > 1)
        v[i] = 0
        v /= v.sum()
        v[i] = -1e-2
    elif noise == 'sum':
        v[i] += 1e-2
    if noise in ('imag', 'neg', 'sum'):
        env.raises(AssertionError, lambda: pmf.project_pmf(v.copy(), eps, eps), 'invalid input rejected')
        if noise != 'sum':
            env.raises(AssertionError, lambda: pmf.project_nonneg(v.copy(), eps, eps), 'invalid input rejected')
        return
    ref = np.where(v.real <= 0, 0., v.real)
    r = pmf.project_nonneg(v.copy(), eps, eps)
    env.check(r.dtype.kind == 'f', 'real')
    env.eq(r, ref, 'negative values set to zero', tol=1e-15)
    r = pmf.project_pmf(v.copy(), eps, eps)
    env.eq(r, ref / ref.sum(), 'normalized', tol=1e-13)
