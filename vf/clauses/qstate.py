"""Random valid quantum states and POVMs with an independent dense semantics
(concrete evaluation only)."""
from .c13 import dm_of_mps, dm_of_pmps, ptrace
from .common import contract


def inv_sqrt(np, m):
    w, v = np.linalg.eigh(m)
    return np.dot(v / np.sqrt(w), v.conj().T)


def unitary(env, d, cplx=True):
    np = env.np
    z = env.rng.randn(d, d) + (1j * env.rng.randn(d, d) if cplx else 0)
    return np.linalg.qr(z)[0]


def local_povm(env, d, k, kind=None):
    """Local POVM with k outcomes in dimension d: array (k, d, d)"""
    np, rng = env.np, env.rng
    if k == 1:
        return np.eye(d).reshape((1, d, d))
    kind = kind or ['ginibre', 'real', 'proj'][rng.randint(3)]
    if kind == 'proj' and k == d:
        u = unitary(env, d) if rng.rand() < .7 else np.eye(d)
        return np.array([np.outer(u[:, i], u[:, i].conj()) for i in range(d)])
    g = []
    for _ in range(k):
        r = rng.randint(1, d + 1)
        a = rng.randn(d, r) + (0 if kind == 'real' else 1j * rng.randn(d, r))
        g.append(np.dot(a, a.conj().T))
    tot = sum(g)
    # full rank total
    eps = 0.1
    g = [x + eps * np.eye(d) / k for x in g]
    s = inv_sqrt(np, sum(g))
    return np.array([np.dot(s, np.dot(x, s)) for x in g])


def symbolic(env):
    return not env.real_only()


def povm(env, name, hdims, outs, cls=None, kind=None):
    """(MPPovm, dense array of elements in local form: (k, i, j) per site)

    Deductive part: arbitrary tensors (the statements are linear in the POVM)."""
    MPPovm = env.mp.povm.MPPovm
    N = len(hdims)
    if symbolic(env):
        ranks = [1] * (N - 1) if kind == 'product' else None
        m = env.mpa(name, [(k, d, d) for k, d in zip(outs, hdims)], ranks=ranks, form=None, cls=cls or MPPovm)
        return m, env.dense(m)
    np, rng = env.np, env.rng
    if kind is None:
        kind = ['product', 'mixture', 'dense'][rng.randint(3)]
    if N > 3 and kind == 'dense':
        kind = 'mixture'
    env._note(name, dict(hdims=list(hdims), outs=list(outs), kind=kind))
    if kind == 'product':
        loc = [local_povm(env, d, k) for d, k in zip(hdims, outs)]
        lt = [x[None, ..., None] for x in loc]
    elif kind == 'mixture':
        n = rng.randint(2, 4)
        w = rng.rand(n) + .1
        w /= w.sum()
        locs = [[local_povm(env, d, k) for d, k in zip(hdims, outs)] for _ in range(n)]
        lt = []
        for s in range(N):
            shp = locs[0][s].shape
            l, r = (1 if s == 0 else n), (1 if s == N - 1 else n)
            t = np.zeros((l,) + shp + (r,), complex)
            for a in range(n):
                t[0 if l == 1 else a, ..., 0 if r == 1 else a] += \
                    locs[a][s] * (w[a] if s == 0 else 1.)
            lt.append(t)
    else:
        D, K = int(np.prod(hdims)), int(np.prod(outs))
        e = local_povm(env, D, K, 'ginibre')
        # legs k1..kN i1..iN j1..jN -> local form
        e = e.reshape(tuple(outs) + tuple(hdims) * 2)
        e = e.transpose([x for s in range(N) for x in (s, N + s, 2 * N + s)])
        # exact left-to-right decomposition with trivial isometries
        lt, left = [], 1
        rest = e.reshape((1, -1))
        for s in range(N - 1):
            m = outs[s] * hdims[s] ** 2
            rest = rest.reshape((left * m, -1))
            if rest.shape[0] <= rest.shape[1]:
                q, rest = np.eye(rest.shape[0]), rest
            else:
                q, rest = rest, np.eye(rest.shape[1])
            lt.append(q.reshape((left, outs[s], hdims[s], hdims[s], -1)))
            left = q.shape[1]
        lt.append(rest.reshape((left, outs[-1], hdims[-1], hdims[-1], 1)))
    m = (cls or MPPovm)(lt)
    return m, env.dense(m)


def state(env, kind, dims, name='state'):
    """Normalized state: (chain, density matrix in local form s1 s1' s2 s2' ...)

    Deductive part: arbitrary chain (the statements are linear in the density matrix)."""
    N = len(dims)
    if symbolic(env):
        if kind == 'mpdo':
            m = env.mpa(name, [(d, d) for d in dims], form=env.choose(name + '.form', [None, (0, 1)]))
            return m, env.dense(m)
        legs = [(d,) for d in dims] if kind == 'mps' else \
            [(d, env.dim('%s.anc%d' % (name, i))) for i, d in enumerate(dims)]
        forms = [None, (0, 1), (N - 1, N)] + ([(1, 2)] if N > 2 else [])
        m = env.mpa(name, legs, form=env.choose(name + '.form', forms))
        return m, (dm_of_mps if kind == 'mps' else dm_of_pmps)(env, env.dense(m), N)
    np, rng = env.np, env.rng
    dt = env.dtype(name + '.dt')
    if kind == 'mps':
        m = env.mpa(name, [(d,) for d in dims], dtype=dt)
        d = env.dense(m)
    else:
        anc = [int(rng.randint(1, 4 if N < 3 else 3)) for _ in dims]
        m = env.mpa(name, list(zip(dims, anc)), dtype=dt)
        d = env.dense(m)
    nrm = np.sqrt((abs(d) ** 2).sum())
    env.assume(nrm > 1e-3)
    lt = [np.array(t) for t in m.lt]
    lt[rng.randint(N)] /= nrm
    if kind == 'mps':
        out = env.mp.MPArray(lt)
        return out, dm_of_mps(env, env.dense(out), N)
    pm = env.mp.MPArray(lt)
    dm = dm_of_pmps(env, env.dense(pm), N)
    if kind == 'pmps':
        return pm, dm
    rl = []
    for t in lt:
        x = np.einsum('asbc,dtbe->adstce', t, t.conj())
        s = x.shape
        rl.append(x.reshape((s[0] * s[1], s[2], s[3], s[4] * s[5])))
    return env.mp.MPArray(rl), dm


def born(env, elems, dm, N):
    """Probabilities (k1, ..., kN): sum_ij E[k; i, j] rho[j, i]"""
    l1, l2, out = [], [], []
    for k in range(N):
        l1 += [3 * k, 3 * k + 1, 3 * k + 2]
        l2 += [3 * k + 2, 3 * k + 1]
        out.append(3 * k)
    return contract(env, [elems, dm], [l1, l2], out)


def squeeze(env, p, outs):
    return p.reshape(tuple(k for k in outs if k > 1))


def valid_pmf(env):
    """Callers of project_pmf are checked against its contract: the argument is a probability
    distribution up to rounding (valid state and POVM), the result equals it"""
    return env.callee('utils.pmf', 'project_pmf',
                      lambda values, imag_eps=1e-10, real_eps=1e-10, real_trunc=0.0: env.as_real(values))


def re(env, x):
    """Real part of probabilities (deductive part: they are real by assumption)"""
    return x if symbolic(env) else x.real


def dims(env, N, lo=1, hi=3, maxd=12, label='hd'):
    if symbolic(env):
        return [env.dim('%s%d' % (label, i), lo, hi) for i in range(N)]
    for _ in range(30):
        d = [int(env.rng.randint(lo, hi + 1)) for _ in range(N)]
        if env.np.prod(d) <= maxd:
            return d
    return [lo] * N


def outs(env, N, lo=1, hi=3, maxk=40, label='out'):
    if symbolic(env):
        ks = []
        for i in range(N):
            # single outcome or several
            ks.append(1 if lo == 1 and env.bit('%s%d.single' % (label, i)) else env.dim('%s%d' % (label, i), 2, hi))
            env.assume(ks[-1] <= 255)
        return ks
    for _ in range(30):
        d = [int(env.rng.randint(lo, hi + 1)) for _ in range(N)]
        if env.np.prod(d) <= maxk:
            return d
    return [max(lo, 1)] * N


def case(env, Nmax=4, kinds=('mps', 'pmps', 'mpdo'), need_out=False):
    N = env.choose('N', list(range(1, Nmax + 1)), sym=list(range(1, min(Nmax, 3) + 1)))
    hd = dims(env, N)
    k = outs(env, N)
    if need_out and symbolic(env):
        env.assume(any(x > 1 for x in k))
    elif need_out and max(k) == 1:
        k[env.rng.randint(N)] = 2
    kind = env.choose('state', list(kinds))
    M, E = povm(env, 'povm', hd, k)
    rho, dm = state(env, kind, hd)
    return N, hd, k, kind, M, E, rho, dm
