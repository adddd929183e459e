from ..registry import clause
from .common import matrix


def dense_op(env, m):
    return matrix(env, env.dense(m))


def hermitian_mpo(env, name, dims):
    a = env.mpa(name, [(d, d) for d in dims], dtype=env.dtype(name + 'dt'), form=None)
    return a + a.adj()


def vec(env, m):
    return env.dense(m).reshape((-1,))


def start(env, dims, full=False, name='start'):
    N = len(dims)
    if full:
        r = env.mp.full_rank(dims)
        r = [int(x) for x in r]
    else:
        r = [env.randint('D%d' % k, 1, 3) for k in range(N - 1)]
        b = [1] + r + [1]
        for k in range(N):
            if b[k] == b[k + 1] == 1:
                b[max(1, k)] = 2
        r = b[1:-1]
    s = env.mpa(name, [(d,) for d in dims], ranks=r, dtype=env.dtype(name + 'dt', 'zd'),
                form=env.choose(name + 'form', [None, (0, 1), (N - 1, N)]))
    env.assume(not any(x == (1, 1) for x in zip((1,) + s.ranks, s.ranks + (1,))))
    env.assume(abs(env.dense(s)).max() > 1e-3)
    return s


def eigs_min(np, log=None):
    def f(op, v0=None):
        op = np.asarray(op)
        w, v = np.linalg.eigh((op + op.conj().T) / 2)
        if log is not None:
            log.append((op, v0, w[0]))
        return w[:1], v[:, :1]
    return f


def eigs_any(env, log, ndim1=False):
    """A solver returning an arbitrary normalized vector and its expectation value"""
    np = env.np

    def f(op, v0=None):
        op = np.asarray(op)
        x = env.rng.randn(op.shape[0]) + 1j * env.rng.randn(op.shape[0])
        x /= np.linalg.norm(x)
        val = np.vdot(x, op.dot(x))
        log.append((op, v0, val))
        return np.array([val]), (x if ndim1 else x[:, None])
    return f


def setting(env, hi=4):
    N = env.randint('N', 2, hi)
    dims = [env.randint('d%d' % k, 2, 3 if N < 4 else 2) for k in range(N)]
    return N, dims


@clause('C14', ['linalg.eig', 'linalg._eig_leftvec_add', 'linalg._eig_rightvec_add',
                'linalg._eig_local_op', 'linalg._eig_minimize_locally',
                'linalg._eig_minimize_locally2'], sym=False, weight=3)
def exact_projection(env):
    """Whatever vector the local solver returns, the local operator gives the expectation value of
    the operator in the whole state: before (v0) and after the step"""
    np = env.np
    N, dims = setting(env)
    full = env.bit('full')
    vs = 1 if not full else env.randint('vs', 1, N - 1)
    mpo = env.mpa('H', [(d, d) for d in dims], dtype=env.dtype('dtH'),
                  form=env.choose('Hform', [None, (N - 1, N), (0, 1)]))
    s = start(env, dims, full)
    H = dense_op(env, mpo)
    log = []
    sweeps = env.choose('sweeps', [1, 2])
    with env.unchanged(mpo, s):
        val, v = env.mp.eig(mpo, sweeps, var_sites=vs, startvec=s,
                            eigs=eigs_any(env, log, env.bit('ndim1')))
    x = vec(env, v)
    sc = max(1., float(abs(H).sum()))
    env.honest(v)
    env.wellformed(v)
    env.same(v.shape, tuple((d,) for d in dims), 'shape of the eigenvector')
    env.eq(np.linalg.norm(x), 1., 'normalized')
    env.eq(val, np.vdot(x, H.dot(x)), 'value is the expectation value in the returned state', scale=sc)
    # the operator seen in the first step applied to v0 is the expectation value in the start state
    op, v0, _ = log[0]
    y = vec(env, s)
    env.eq(np.vdot(v0, op.dot(v0)), np.vdot(y, H.dot(y)), 'first local problem',
           scale=sc * max(1., float(np.vdot(y, y).real)))
    # consecutive steps: the next local operator at the current vector gives the last value
    for (o1, w1, v1), (o2, w2, v2) in zip(log[:-1], log[1:]):
        env.eq(np.vdot(w2, o2.dot(w2)), v1, 'consecutive local problems are consistent', scale=sc)
    npos = N - vs + 1
    env.same(len(log), npos + (npos - 1) + (sweeps - 1) * 2 * (npos - 1), 'number of local problems')
    for op, _, _ in log:
        # compression of H to a subspace: numerical range is contained
        w = np.linalg.eigvalsh((op + op.conj().T) / 2)
        W = np.linalg.eigvalsh((H + H.conj().T) / 2)
        env.check(w[0] >= W[0] - 1e-8 * sc and w[-1] <= W[-1] + 1e-8 * sc,
                  'local problem is a projection of the operator')


def any_solver(env, log):
    """Contract of the local solver: a normalized vector and its expectation value, nothing else"""
    np = env.np

    def f(op, v0=None):
        x = env.unit_vector('x', op)
        val = np.vdot(x, np.dot(op, x))
        log.append((op, v0, val))
        return np.array([val]), x.reshape((-1, 1))
    return f


@clause('C14', ['linalg.eig', 'linalg._eig_leftvec_add', 'linalg._eig_rightvec_add',
                'linalg._eig_local_op', 'linalg._eig_minimize_locally',
                'linalg._eig_minimize_locally2', 'linalg.eig_sum', 'linalg._eig_sum_leftvec_add',
                'linalg._eig_sum_rightvec_add', 'linalg._eig_leftvec_add_mps', 'linalg._eig_rightvec_add_mps',
                'linalg._eig_local_op_mps', 'linalg._eig_sum_minimize_locally',
                '_named_ndarray.named_ndarray.*'], weight=1.5)
def local_problems(env):
    """All local problems are exact projections, for any solver that returns normalized vectors"""
    np = env.np
    N = env.sites(2, 4)
    dims = [env.dim('d%d' % k, 2) for k in range(N)]
    how = env.choose('how', ['eig', 'eig_sum'])
    k = 1 if how == 'eig' else env.choose('k', [1, 2])
    mpas, H = [], None
    for i in range(k):
        if how == 'eig_sum' and env.bit('mps%d' % i):
            p = env.mpa('P%d' % i, [(d,) for d in dims], dtype=env.dtype('dtP%d' % i), form=None)
            y = vec(env, p)
            h = np.outer(y, y.conj())
        else:
            p = env.mpa('H%d' % i, [(d, d) for d in dims], dtype=env.dtype('dtH%d' % i), form=None)
            h = dense_op(env, p)
        H = h if H is None else H + h
        mpas.append(p)
    s = env.mpa('start', [(d,) for d in dims], dtype=env.dtype('dtS'),
                form=env.choose('form', [(0, 1), None, (N - 1, N)]))
    one = [bool(r == 1) for r in (1,) + tuple(s.ranks) + (1,)]
    env.assume(not any(a and b for a, b in zip(one[:-1], one[1:])))
    vs = env.choose('vs', [1] if N < 3 else [1, 2])
    log = []
    sweeps = env.choose('sweeps', [1, 2], sym=[1])
    with env.unchanged(s, *mpas):
        if how == 'eig':
            val, v = env.mp.eig(mpas[0], sweeps, var_sites=vs, startvec=s, eigs=any_solver(env, log))
        else:
            val, v = env.mp.eig_sum(mpas, sweeps, var_sites=vs, startvec=s, eigs=any_solver(env, log))
    sc = 1. if env.symbolic else max(1., float(abs(H).sum()))
    y = vec(env, s)
    op, v0, _ = log[0]
    env.eq(np.vdot(v0, np.dot(op, v0)), np.vdot(y, np.dot(H, y)), 'first local problem',
           scale=1. if env.symbolic else sc * max(1., float(np.vdot(y, y).real)))
    env.same(v.shape, tuple((d,) for d in dims), 'shape of the eigenvector')
    env.wellformed(v)
    env.honest(v)
    npos = N - vs + 1
    env.same(len(log), npos + (npos - 1) + (sweeps - 1) * 2 * (npos - 1), 'number of local problems')
    if vs > 1:
        return          # the state may have been truncated
    x = vec(env, v)
    env.eq(np.vdot(x, x), 1., 'normalized')
    env.eq(val, np.vdot(x, np.dot(H, x)), 'value is the expectation value in the returned state', scale=sc)
    for (o1, w1, v1), (o2, w2, v2) in zip(log[:-1], log[1:]):
        env.eq(np.vdot(w2, np.dot(o2, w2)), v1, 'consecutive local problems are consistent', scale=sc)


@clause('C14', ['linalg.eig', 'linalg.eig_sum'], sym=False, weight=2)
def variational(env):
    """Smallest eigenvalue solver: upper bound, expectation value, exact with full rank"""
    np = env.np
    N, dims = setting(env)
    full = env.bit('full')
    vs = env.randint('vs', 1, N - 1)
    mpo = hermitian_mpo(env, 'H', dims)
    H = dense_op(env, mpo)
    w0 = np.linalg.eigvalsh(H)
    sc = max(1., float(abs(w0).max()))
    how = env.choose('how', ['eig', 'eig_sum'])
    kw = dict(num_sweeps=env.choose('sweeps', [1, 2]), var_sites=vs, eigs=eigs_min(np))
    rank = None
    if env.bit('start', .6):
        s = start(env, dims, full)
        kw['startvec'] = s
        frames = [mpo, s]
        rank = max(s.ranks)
        full = full and True
    else:
        rank = env.choose('rank', [2, 3, 30])
        kw['startvec_rank'] = rank
        kw['randstate'] = np.random.RandomState(env.randint('rs', 0, 999))
        full = rank == 30
        frames = [mpo]
    st = np.random.get_state()[1].copy()
    with env.unchanged(*frames):
        if how == 'eig':
            val, v = env.mp.eig(mpo, **kw)
        else:
            val, v = env.mp.eig_sum([mpo], **kw)
    if 'randstate' in kw:
        env.check((np.random.get_state()[1] == st).all(), 'global random state untouched')
        kw['randstate'] = np.random.RandomState(dict(env.log)['rs'])
        val2, v2 = env.mp.eig(mpo, **kw) if how == 'eig' else env.mp.eig_sum([mpo], **kw)
        env.eq(val2, val, 'same random state gives the same value', scale=sc)
        env.eq(vec(env, v2), vec(env, v), 'same random state gives the same vector')
    x = vec(env, v)
    env.check(abs(np.imag(val)) <= 1e-9 * sc, 'real value')
    env.check(np.real(val) >= w0[0] - 1e-8 * sc, 'upper bound of the smallest eigenvalue',
              '%r < %r' % (val, w0[0]))
    if vs == 1 or full:
        env.eq(np.linalg.norm(x), 1., 'normalized')
        env.eq(val, np.vdot(x, H.dot(x)), 'expectation value', scale=sc)
    if full and vs == N - 1:
        env.eq(np.real(val), w0[0], 'exact with full rank and N - 1 varied sites', scale=sc)
    env.honest(v)
    env.check(max(v.ranks) <= max(rank, 1), 'rank of the result')


@clause('C14', ['linalg.eig_sum', 'linalg._eig_sum_leftvec_add', 'linalg._eig_sum_rightvec_add',
                'linalg._eig_leftvec_add_mps', 'linalg._eig_rightvec_add_mps',
                'linalg._eig_local_op_mps', 'linalg._eig_sum_minimize_locally'], sym=False, weight=3)
def sum_of_terms(env):
    """eig_sum: exact projection of the sum of operators and projectors; equals eig on the sum"""
    np = env.np
    N, dims = setting(env)
    full = env.bit('full')
    vs = 1 if not full else env.randint('vs', 1, N - 1)
    k = env.randint('k', 1, 3)
    mpas, mpos, H = [], [], 0
    herm = env.bit('herm')
    for i in range(k):
        if env.bit('mps', .4):
            p = env.mpa('P%d' % i, [(d,) for d in dims], dtype=env.dtype('dtP%d' % i))
            y = vec(env, p)
            H = H + np.outer(y, y.conj())
            mpas.append(p)
            mpos.append(env.mp.mps_to_mpo(p))
        else:
            m = hermitian_mpo(env, 'H%d' % i, dims) if herm else \
                env.mpa('H%d' % i, [(d, d) for d in dims], dtype=env.dtype('dtH%d' % i))
            H = H + dense_op(env, m)
            mpas.append(m)
            mpos.append(m)
    s = start(env, dims, full)
    sc = max(1., float(abs(H).sum()))
    log = []
    sweeps = env.choose('sweeps', [1, 2])
    arg = mpas if env.bit('list') else iter(mpas)
    with env.unchanged(s, *mpas):
        val, v = env.mp.eig_sum(arg, sweeps, var_sites=vs, startvec=s, eigs=eigs_any(env, log))
    x = vec(env, v)
    env.eq(np.linalg.norm(x), 1., 'normalized')
    env.eq(val, np.vdot(x, H.dot(x)), 'value is the expectation value of the sum', scale=sc)
    op, v0, _ = log[0]
    y = vec(env, s)
    env.eq(np.vdot(v0, op.dot(v0)), np.vdot(y, H.dot(y)), 'first local problem',
           scale=sc * max(1., float(np.vdot(y, y).real)))
    env.honest(v)
    # the same deterministic solver on the explicit sum sees the same local problems
    l1, l2 = [], []
    W = np.linalg.eigvalsh((H + H.conj().T) / 2)

    def det(log):
        def f(op, v0=None):
            op = np.asarray(op)
            z = op.dot(v0) + 2. * v0        # deterministic, gauge covariant
            z = z / np.linalg.norm(z)
            val = np.vdot(z, op.dot(z))
            log.append(val)
            return np.array([val]), z[:, None]
        return f
    va, xa = env.mp.eig_sum(mpas, sweeps, var_sites=vs, startvec=s, eigs=det(l1))
    vb, xb = env.mp.eig(env.mp.sumup(mpos), sweeps, var_sites=vs, startvec=s, eigs=det(l2))
    env.eq(np.array(l1), np.array(l2), 'same local problems as on the explicit sum', scale=sc, tol=1e-6)
    env.eq(va, vb, 'same value as on the explicit sum', scale=sc, tol=1e-6)
    env.eq(vec(env, xa), vec(env, xb), 'same vector as on the explicit sum', tol=1e-6)


@clause('C14', ['linalg.eig', 'linalg.eig_sum'], sym=False, weight=.7)
def default_solver(env):
    """Default solver: expectation value of largest magnitude; argument checks"""
    np = env.np
    N = env.randint('N', 2, 4)
    dims = [2] * N
    mpo = hermitian_mpo(env, 'H', dims)
    H = dense_op(env, mpo)
    env.assume(abs(H).max() > 1e-3)
    w = np.linalg.eigvalsh(H)
    sc = max(1., float(abs(w).max()))
    how = env.choose('how', ['eig', 'eig_sum'])
    f = (lambda **k: env.mp.eig(mpo, **k)) if how == 'eig' else (lambda **k: env.mp.eig_sum([mpo], **k))
    kw = dict(num_sweeps=1, startvec_rank=4, randstate=np.random.RandomState(env.randint('rs', 0, 99)))
    if N == 2:
        kw['var_sites'] = 1
    val, v = f(**kw)
    x = vec(env, v)
    env.eq(np.vdot(x, H.dot(x)), val, 'expectation value', scale=sc, tol=1e-4)
    env.check(abs(val) <= sc + 1e-6 * sc, 'bounded by the spectral norm')
    env.raises((AssertionError, ValueError), lambda: f(num_sweeps=1, startvec_rank=2, var_sites=N),
               'too many varied sites')
    env.raises((AssertionError, ValueError), lambda: f(num_sweeps=1, var_sites=1), 'rank required')
    env.raises((AssertionError, ValueError), lambda: f(num_sweeps=1, var_sites=1, startvec_rank=1),
               'rank one start vectors are rejected')
