from ..registry import clause
from . import qstate as q
from .c15 import outer


def valid(env, els, d, label):
    np = env.np
    env.same(els.shape[1:], (d, d), label + ': dimensions')
    env.eq(els, els.conj().transpose((0, 2, 1)), label + ': Hermitian', tol=1e-12)
    for e in els:
        env.check(np.linalg.eigvalsh(e).min() >= -1e-12, label + ': positive semidefinite')
    env.eq(els.sum(0), np.eye(d), label + ': sum to the identity', tol=1e-12)


def paulis(np):
    return (np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]),
            np.diag([1, -1]).astype(complex))


def density(env, d):
    np = env.np
    a = env.rng.randn(d, d) + 1j * env.rng.randn(d, d)
    r = env.rng.randint(1, d + 1)
    a = np.dot(a[:, :r], a[:, :r].conj().T)
    return a / np.trace(a)


@clause('C18', ['povm.localpovm.x_povm', 'povm.localpovm.y_povm', 'povm.localpovm.z_povm',
                'povm.localpovm.pauli_povm', 'povm.localpovm.pauli_parts',
                'povm.localpovm.POVM.from_vectors', 'povm.localpovm.POVM.probability_map',
                'povm.localpovm.POVM.linear_inversion_map', 'povm.localpovm.concat'], sym=False, weight=1)
def local_povms(env):
    """Validity in every dimension, order for two levels, probability and inversion map"""
    np, mpp = env.np, env.mp.povm
    d = env.choose('d', [2, 3, 4, 5, 6, 7, 9, 12])
    name = env.choose('povm', ['x', 'y', 'z', 'pauli', 'parts'])
    pp = paulis(np)
    if name == 'parts':
        ps = mpp.pauli_parts(d)
        env.same(len(ps), 3 if d == 2 else 2, 'number of parts')
        for P, f in zip(ps, (mpp.x_povm, mpp.y_povm, mpp.z_povm)):
            env.eq(np.array(list(P)), np.array(list(f(d))), 'parts are the X, Y, Z POVMs')
        env.raises(AssertionError, lambda: mpp.pauli_parts(1), 'no one-dimensional Pauli POVM')
        return
    P = getattr(mpp, name + '_povm')(d)
    els = np.array(list(P))
    env.same(len(P), len(els), 'length')
    i = env.rng.randint(len(els))
    env.eq(np.asarray(P[i]), els[i], 'indexing', tol=0.)
    valid(env, els, d, name)
    n = {'x': d * (d - 1), 'y': d * (d - 1), 'z': d, 'pauli': 6 if d == 2 else 2 * d * (d - 1)}[name]
    env.same(len(els), n, 'number of outcomes')
    if d == 2:
        proj = [(np.eye(2) + s * p) / 2 for p in pp for s in (1, -1)]
        ref = {'x': proj[:2], 'y': proj[2:4], 'z': proj[4:], 'pauli': [x / 3 for x in proj]}[name]
        env.eq(els, np.array(ref), 'Pauli eigenprojectors in order', tol=1e-12)
    A = env.tensor('A', (d, d), complex)
    env.eq(np.dot(P.probability_map, A.ravel()),
           np.array([np.trace(np.dot(e, A)) for e in els]), 'probability map')
    if name == 'pauli' or P.informationally_complete:
        env.check(name == 'pauli', 'only the Pauli POVM is claimed to be complete')
        env.check(P.informationally_complete, 'claimed to be complete')
        sv = np.linalg.svd(els.reshape((len(els), -1)))[1]
        env.check(len(sv) == d * d and sv.min() > 1e-8, 'informationally complete')
        rho = density(env, d)
        p = np.array([np.trace(np.dot(e, rho)) for e in els])
        env.eq(np.dot(P.linear_inversion_map, p).reshape((d, d)), rho, 'linear inversion')
    elif name == 'z':
        env.check(not P.informationally_complete, 'not claimed')


@clause('C18', ['povm.localpovm.POVM.__init__', 'povm.localpovm.POVM.probability_map',
                'povm.localpovm.POVM.linear_inversion_map', 'povm.localpovm.concat',
                'povm.localpovm.POVM.from_vectors'], sym=False, weight=1.5)
def own_povms(env):
    """Maps of any POVM; weighted combination of POVMs is a POVM"""
    np, mpp = env.np, env.mp.povm
    d = env.choose('d', [1, 2, 3, 4])
    k = env.choose('k', [1, 2, 3, 5, 17])
    els = q.local_povm(env, d, k)
    P = mpp.localpovm.POVM(env.choose('t', [list, tuple, np.asarray])(els))
    valid(env, np.array(list(P)), d, 'POVM')
    A = env.tensor('A', (d, d), complex)
    env.eq(np.dot(P.probability_map, A.ravel()), np.array([np.trace(np.dot(e, A)) for e in els]),
           'probability map')
    if np.linalg.matrix_rank(els.reshape((k, -1)), tol=1e-6) == d * d:
        rho = density(env, d)
        p = np.array([np.trace(np.dot(e, rho)) for e in els])
        env.eq(np.dot(P.linear_inversion_map, p).reshape((d, d)), rho, 'linear inversion', tol=1e-6)
    n = env.choose('n', [1, 2, 3])
    w = env.rng.rand(n) + .05
    w /= w.sum()
    ps = [q.local_povm(env, d, int(env.rng.randint(1, 5))) for _ in range(n)]
    C = mpp.localpovm.concat(env.choose('pt', [list, tuple, iter])([mpp.localpovm.POVM(p) for p in ps]),
                             env.choose('wt', [list, tuple, iter, np.asarray])([float(x) for x in w]),
                             info_complete=env.choose('ic', [True, False]))
    got = np.array(list(C))
    env.eq(got, np.concatenate([x * p for x, p in zip(w, ps)]), 'concat: weighted elements in order')
    valid(env, got, d, 'concat')
    env.raises(AssertionError, lambda: mpp.localpovm.concat([P, P], [.5, .6]), 'weights sum to one')
    v = q.unitary(env, d)
    V = mpp.localpovm.POVM.from_vectors([v[:, i] for i in range(d)])
    env.eq(np.array(list(V)), np.array([np.outer(v[:, i], v[:, i].conj()) for i in range(d)]),
           'from_vectors')


@clause('C18', ['povm.mppovm.pauli_mpp', 'povm.mppovm.pauli_mpps',
                'povm.mppovm.MPPovm.from_local_povm'], sym=False, weight=.7)
def product_povms(env):
    """Tensor product versions contain all products in documented order"""
    np, mpp = env.np, env.mp.povm
    d = env.choose('d', [2, 3, 4])
    N = env.choose('N', [1, 2, 3] if d == 2 else [1, 2] if d == 3 else [1])
    loc = np.array(list(mpp.pauli_povm(d)))
    M = mpp.pauli_mpp(N, d)
    env.same(M.shape, ((len(loc), d, d),) * N, 'pauli_mpp: shape')
    idx = [int(env.rng.randint(len(loc))) for _ in range(N)]
    lt = [np.asarray(t)[:, i] for t, i in zip(M.lt, idx)]
    env.eq(env.dense(lt), outer(env, [loc[i] for i in idx]), 'pauli_mpp element')
    parts = [np.array(list(p)) for p in mpp.pauli_parts(d)]
    L = mpp.pauli_mpps(N, d)
    import itertools
    combos = list(itertools.product(range(len(parts)), repeat=N))
    env.same(len(L.mpps), len(combos), 'number of product POVMs')
    i = int(env.rng.randint(len(combos)))
    m = L.mpps[i]
    env.check(isinstance(m, mpp.MPPovm), 'type')
    full = env.dense(m)
    env.eq(full, outer(env, [parts[x] for x in combos[i]]), 'product in lexicographic order')
    # sum over all outcomes is the identity
    tot = env.dense([np.asarray(t).sum(1) for t in m.lt])
    env.eq(tot, outer(env, [np.eye(d)] * N), 'sums to the identity')
    tot = env.dense([np.asarray(t).sum(1) for t in M.lt])
    env.eq(tot, outer(env, [np.eye(d)] * N), 'pauli_mpp sums to the identity')


@clause('C18', ['povm.localpovm.POVM.__init__', 'povm.localpovm.POVM.probability_map',
                'povm.localpovm.POVM.linear_inversion_map', 'povm.localpovm.POVM.__len__',
                'povm.localpovm.POVM.__getitem__'], weight=.5)
def maps_any(env):
    """Probability and inversion map for arbitrary elements of any number and dimension"""
    np, mpp = env.np, env.mp.povm
    d, k = env.dim('d', 1, 4), env.dim('k', 1, 6)
    els = env.tensor('els', (k, d, d), complex)
    P = mpp.localpovm.POVM(els)
    env.same(len(P), k, 'length')
    i = env.randint('i', 0, 2)
    env.assume(i < k)
    env.eq(np.asarray(P[i]), els[i], 'indexing', tol=0.)
    A = env.tensor('A', (d, d), complex)
    p = q.contract(env, [els, A], [[0, 1, 2], [2, 1]], [0])
    env.same(P.probability_map.shape, (k, d * d), 'shape of the probability map')
    env.eq(np.dot(P.probability_map, A.reshape((d * d,))), p, 'probability map')
    B = env.tensor('B', (d, d), complex)
    if env.real_only():
        env.assume(np.linalg.matrix_rank(els.reshape((k, -1)), tol=1e-3) == d * d)
    # informationally complete: full column rank (contract of pinv)
    pB = q.contract(env, [els, B], [[0, 1, 2], [2, 1]], [0])
    env.eq(np.dot(P.linear_inversion_map, pB).reshape((d, d)), B, 'linear inversion', tol=1e-6)
    ic = env.choose('ic', [True, False])
    env.same(bool(mpp.localpovm.POVM(els, info_complete=ic).informationally_complete), ic, 'claim is kept')


@clause('C18', ['povm.localpovm.concat', 'povm.localpovm.POVM.from_vectors'], weight=.5)
def concat_any(env):
    """Weighted elements in order for arbitrary POVMs and weights; projectors of arbitrary vectors"""
    np, mpp = env.np, env.mp.povm
    d = env.dim('d', 1, 4)
    n = env.choose('n', [1, 2, 3])
    ks = [env.choose('k%d' % i, [1, 2, 4], sym=[1, 2]) for i in range(n)]
    if env.bit('vectors', .3):
        v = env.tensor('v', (ks[0] + 1, d), complex)
        V = mpp.localpovm.POVM.from_vectors(env.choose('vt', [list, np.asarray])(v))
        env.same((len(V), V[0].shape), (ks[0] + 1, (d, d)), 'from_vectors: shape')
        for i in range(ks[0] + 1):
            env.eq(V[i], q.contract(env, [v[i], v[i].conj()], [[0], [1]], [0, 1]), 'from_vectors')
        return
    w = env.positive('w', (n,))
    if env.real_only():
        w = w / w.sum()
    ws = [w[i] for i in range(n)]
    env.assume_equal(sum(ws), 1.)
    els = [env.tensor('P%d' % i, (k, d, d), complex) for i, k in enumerate(ks)]
    C = mpp.localpovm.concat(env.choose('pt', [list, tuple, iter])([mpp.localpovm.POVM(e) for e in els]),
                             env.choose('wt', [list, tuple, iter])(ws))
    env.same(len(C), sum(ks), 'number of elements')
    m = 0
    for x, e, k in zip(ws, els, ks):
        for i in range(k):
            env.eq(C[m], x * e[i], 'weighted elements in order')
            m += 1


@clause('C18', ['povm.mppovm.pauli_mpp', 'povm.mppovm.pauli_mpps', 'povm.mppovm.MPPovm.from_local_povm'],
        weight=.5)
def product_any(env):
    """Products of the local POVMs (by their contract) in lexicographic order, any dimension"""
    import itertools
    np, mpp = env.np, env.mp.povm
    N = env.choose('N', [1, 2, 3], sym=[1, 2, 3])
    if env.real_only():
        d = env.choose('d', [2, 3])
        if d == 3:
            N = min(N, 2)
        loc = np.array(list(mpp.pauli_povm(d)))
        parts = [np.array(list(p)) for p in mpp.pauli_parts(d)]
    else:
        d = env.dim('d', 2, 3)
        loc = env.tensor('pauli', (env.dim('k', 2, 6), d, d), complex)
        np_ = env.choose('parts', [2, 3])
        parts = [env.tensor('part%d' % i, (env.dim('k%d' % i, 2, 6), d, d), complex) for i in range(np_)]
        for x in [loc] + parts:
            env.assume(x.shape[0] <= 255)       # documented limit
    POVM = mpp.localpovm.POVM
    with env.callee('povm.localpovm', 'pauli_povm', lambda dim: POVM(loc, info_complete=True)):
        M = mpp.pauli_mpp(N, d)
    env.check(isinstance(M, mpp.MPPovm), 'type')
    env.same(M.shape, (loc.shape,) * N, 'pauli_mpp: shape')
    env.eq(env.dense(M), outer(env, [loc] * N), 'pauli_mpp: all products')
    with env.callee('povm.localpovm', 'pauli_parts', lambda dim: tuple(POVM(p) for p in parts)):
        L = mpp.pauli_mpps(N, d)
    combos = list(itertools.product(range(len(parts)), repeat=N))
    env.same(len(L.mpps), len(combos), 'number of product POVMs')
    i = env.choose('which', [0, 1, 2, 5, -2, -1])
    env.assume(i < len(combos))
    env.check(isinstance(L.mpps[i], mpp.MPPovm), 'type')
    env.eq(env.dense(L.mpps[i]), outer(env, [parts[x] for x in combos[i]]), 'product in lexicographic order')
