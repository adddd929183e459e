from ..registry import clause
from .common import basic, matrix


def embed2(env, h, N, a, b, d):
    """Dense operator (legs i1 j1 i2 j2 ...) with h[i, j, k, l] on sites a, b (first factor on a)"""
    np = env.np
    args = [h, [2 * a, 2 * a + 1, 2 * b, 2 * b + 1]]
    for k in range(N):
        if k not in (a, b):
            args += [np.eye(d), [2 * k, 2 * k + 1]]
    return np.einsum(*(args + [list(range(2 * N))]))


@clause('C21', ['utils.physics.mpo_cH', 'utils.physics.sparse_cH', 'mparray.local_sum', 'mparray.inject'],
        sym=False, weight=3)
def cyclic(env):
    """MPO and sparse matrix equal the dense sum of all terms"""
    np, ph = env.np, env.mp.utils.physics
    N = env.choose('N', [2, 3, 4, 5, 6])
    d = env.choose('d', [2, 2, 3] if N < 5 else [2])
    if d == 3:
        env.assume(N <= 4)
    kinds = env.choose('terms', ['same', 'different'])
    terms = []
    for k in range(N):
        if kinds == 'same' and terms:
            terms.append(terms[0])
            continue
        t = env.mpa('T%d' % k, [(d, d)] * 2, dtype=env.dtype('dt%d' % k))
        terms.append(t)
    hs = [env.dense(t) for t in terms]
    ref = sum(embed2(env, h, N, k, k + 1, d) for k, h in enumerate(hs[:-1]))
    ref = ref + embed2(env, hs[-1], N, 0, N - 1, d)
    scale = max(1., max(abs(h).max() for h in hs))
    tt = env.choose('t', [list, tuple])(terms)
    with env.unchanged(*terms):
        H = ph.mpo_cH(tt)
    basic(env, H, [(d, d)] * N, 'mpo_cH')
    env.eq(env.dense(H), ref, 'MPO', scale=scale)
    env.honest(H)
    mixed = list(terms)
    for k in range(N):
        if env.bit('dense%d' % k, .3):
            mixed[k] = matrix(env, hs[k])
    S = ph.sparse_cH(mixed, d) if d != 2 or env.bit('explicit') else ph.sparse_cH(mixed)
    env.eq(S.toarray(), matrix(env, ref), 'sparse matrix', scale=scale)


@clause('C21', ['utils.physics.mpo_cH', 'utils.physics.sparse_cH', 'mparray.local_sum', 'mparray.inject',
                'utils.physics.cXY_local_terms'], weight=1.5)
def cyclic_any(env):
    """Cyclic Hamiltonians for arbitrary dimensions, ranks and entries of the terms; XY terms for any gamma"""
    np, ph = env.np, env.mp.utils.physics
    what = env.choose('what', ['mpo', 'sparse', 'xy'])
    N = env.choose('N', [2, 3, 4, 5], sym=[2, 3, 4])
    if what == 'xy':
        g = env.scalar('gamma', float)
        terms = ph.cXY_local_terms(N, g)
        env.same(len(terms), N, 'number of terms')
        X = np.array([[0, 1], [1, 0]])
        Y = np.array([[0, -1j], [1j, 0]])
        XX, YY = np.tensordot(X, X, 0), np.tensordot(Y, Y, 0)
        h = (g * .25 + .25) * XX + (g * -.25 + .25) * YY
        for t in terms[:1]:
            basic(env, t, [(2, 2)] * 2, 'XY term')
            env.eq(env.dense(t), h, 'local term', scale=10.)
            env.honest(t)
        return
    d = env.dim('d', 2, 3)
    if env.real_only():
        env.assume(d ** N <= 300)
    terms = []
    for k in range(N):
        if k and env.bit('same%d' % k, .3):
            terms.append(terms[0])
            continue
        dt = env.dtype('dt%d' % k)
        terms.append(env.mpa('T%d' % k, [(d, d)] * 2, dtype=dt, form=env.choose('form%d' % k, [None, (0, 1), (1, 2)])
                             if k == 0 else None))
    hs = [env.dense(t) for t in terms]
    ref = embed2(env, hs[-1], N, 0, N - 1, d)
    for k, h in enumerate(hs[:-1]):
        ref = ref + embed2(env, h, N, k, k + 1, d)
    if what == 'mpo':
        with env.unchanged(*terms):
            H = ph.mpo_cH(env.choose('t', [list, tuple])(terms))
        basic(env, H, [(d, d)] * N, 'mpo_cH')
        env.eq(env.dense(H), ref, 'MPO', scale=10.)
        env.honest(H)
    else:
        mixed = list(terms)
        for k in range(N):
            if env.bit('dense%d' % k, .3):
                mixed[k] = matrix(env, hs[k])
        S = ph.sparse_cH(mixed, d)
        env.eq(S.toarray(), matrix(env, ref), 'sparse matrix', scale=10.)


@clause('C21', ['utils.physics.cXY_local_terms', 'utils.physics.cXY_E0'], sym=False, weight=1)
def xy_model(env):
    """Local XY terms; exact ground state energy; other sizes rejected"""
    np, ph = env.np, env.mp.utils.physics
    g = env.choose('g', [0., .1, -.3, .5, .77, 1., -1.])
    if env.bit('rand', .4):
        g = env._note('gamma', float(env.rng.uniform(-1, 1)))
    N = env.choose('N', [2, 6, 6, 6, 3, 4, 5, 7, 8])
    if N % 4 != 2:
        env.raises(ValueError, lambda: ph.cXY_E0(N, g), 'size not allowed')
    terms = ph.cXY_local_terms(N, g)
    env.same(len(terms), N, 'number of terms')
    X = np.array([[0, 1], [1, 0]]) / 2.
    Y = np.array([[0, -1j], [1j, 0]]) / 2
    h = (1 + g) * np.multiply.outer(X, X) + (1 - g) * np.multiply.outer(Y, Y)
    for t in terms:
        env.eq(env.dense(t), h, 'local term', tol=1e-12)
        env.honest(t)
    if N % 4 == 2:
        H = sum(embed2(env, h, N, k, k + 1, 2) for k in range(N - 1)) + embed2(env, h, N, 0, N - 1, 2)
        w = np.linalg.eigvalsh(matrix(env, H))
        env.eq(ph.cXY_E0(N, g), w[0], 'ground state energy')
