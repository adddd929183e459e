from ..registry import clause
from .common import basic, matrix
from .c15 import outer


def full_rank(shapes):
    res, N = [], len(shapes)
    def size(x):
        r = 1
        for s in x:
            for d in s:
                r *= d
        return r
    return [min(size(shapes[:k]), size(shapes[k:])) for k in range(1, N)]


def spec(env):
    """(sites, ldim argument, shapes)"""
    N = env.choose('N', [1, 2, 3, 4, 5])
    style = env.choose('ldim', ['scalar', 'legs', 'full'])
    if style == 'scalar':
        d = env.choose('d', [1, 2, 3])
        return N, d, [(d,)] * N
    if style == 'legs':
        s = tuple(int(x) for x in env.rng.randint(1, 4, size=env.rng.randint(1, 3)))
        env.assume(env.np.prod(s) ** N <= 3000)
        return N, env.choose('t', [list, tuple])(s), [s] * N
    sh = env.shapes('shapes', N, legs=[int(x) for x in env.rng.randint(1, 3, size=N)], maxsize=3000)
    return N, env.choose('t', [list, tuple])(sh), [tuple(s) for s in sh]


def ranks(env, N, shapes):
    style = env.choose('rank', ['scalar', 'seq'])
    r = [int(env.rng.randint(1, 7))] * (N - 1) if style == 'scalar' else \
        [int(x) for x in env.rng.randint(1, 7, size=N - 1)]
    arg = int(r[0]) if style == 'scalar' and r else (2 if style == 'scalar' else env.choose('rt', [list, tuple])(r))
    force = env.choose('force', [True, False])
    want = r if force else [min(a, b) for a, b in zip(r, full_rank(shapes))]
    return arg, force, want


def gstate(env):
    s = env.np.random.get_state()
    return (s[0], s[1].tolist(), s[2], s[3], s[4])


@clause('C19', ['factory.zero', 'factory.eye', 'factory.diagonal_mpa', 'factory._generate'], sym=False,
        weight=1.5)
def deterministic(env):
    """zero, eye, diagonal_mpa"""
    np, f = env.np, env.mp.factory
    what = env.choose('what', ['zero', 'eye', 'diag'])
    if what == 'zero':
        N, ldim, sh = spec(env)
        r, force, want = ranks(env, N, sh)
        m = f.zero(N, ldim, r, force) if env.bit('pos') else f.zero(N, ldim, rank=r, force_rank=force)
        basic(env, m, sh, 'zero')
        env.same(m.ranks, tuple(want), 'ranks')
        env.check((env.dense(m) == 0).all(), 'all zero')
        env.honest(m)
    elif what == 'eye':
        N = env.choose('N', [1, 2, 3, 4])
        if env.choose('scalar', [True, False]):
            d = env.choose('d', [1, 2, 3])
            arg, ds = d, [d] * N
        else:
            ds = [int(x) for x in env.rng.randint(1, 4, size=N)]
            arg = env.choose('t', [list, tuple, iter])(ds)
        m = f.eye(N, arg)
        basic(env, m, [(d, d) for d in ds], 'eye')
        env.same(m.ranks, (1,) * (N - 1), 'ranks')
        env.eq(env.dense(m), outer(env, [np.eye(d) for d in ds]), 'identity', tol=0.)
        env.honest(m)
        bad = [2] * (N + 1)
        env.raises(AssertionError, lambda: f.eye(N, bad), 'number of dimensions')
    else:
        N = env.choose('N', [1, 2, 3, 4])
        n = env.choose('n', [1, 2, 3])
        e = env.tensor('entries', (n,), env.dtype('dt', 'dzi'))
        m = f.diagonal_mpa(e, N)
        basic(env, m, [(n,)] * N, 'diagonal')
        env.same(m.ranks, (n,) * (N - 1), 'ranks')
        ref = np.zeros((n,) * N, e.dtype)
        for i in range(n):
            ref[(i,) * N] = e[i]
        env.eq(env.dense(m), ref, 'diagonal array', tol=1e-14)
        env.honest(m)
        env.raises(NotImplementedError, lambda: f.diagonal_mpa(np.eye(2), N), 'two legs')


def psd(env, M, label):
    env.check(env.np.linalg.eigvalsh((M + M.conj().T) / 2).min() >= -1e-9, label)


@clause('C19', ['factory.random_mpa', 'factory.random_mps', 'factory.random_mpo', 'factory.random_mpdo',
                'factory.random_local_ham', 'factory._generate', 'factory._random_op',
                'factory._unitary_haar'], sym=False, weight=4)
def random_chains(env):
    """Shape, rank, norm, symmetry, reproducibility, global random state untouched"""
    np, f = env.np, env.mp.factory
    what = env.choose('what', ['mpa', 'mps', 'mpo', 'mpdo', 'ham'])
    seed = env.randint('seed', 0, 10 ** 6)
    N, ldim, sh = spec(env)
    args, kw = None, {}
    if what in ('mpo', 'mpdo', 'ham'):
        N = env.choose('N2', [1, 2, 3, 4])
        d = env.choose('d2', [1, 2, 3] if N < 4 else [1, 2])
        sh = [(d, d)] * N
    r, force, want = ranks(env, N, sh)
    if what == 'mpa':
        kw = dict(normalized=env.choose('normalized', [True, False]), force_rank=force,
                  dtype=env.choose('dtype', [np.float_, np.complex_]))
        make = lambda rs: f.random_mpa(N, ldim, r, randstate=rs, **kw)
    elif what == 'mps':
        make = lambda rs: f.random_mps(N, ldim, r, randstate=rs, force_rank=force)
    elif what == 'mpo':
        kw = dict(hermitian=env.choose('hermitian', [True, False]),
                  normalized=env.choose('normalized', [True, False]), force_rank=force)
        make = lambda rs: f.random_mpo(N, d, r, randstate=rs, **kw)
    elif what == 'mpdo':
        rr = env.choose('rr', [1, 2, 3, 4])
        want = [rr] * (N - 1)
        make = lambda rs: f.random_mpdo(N, d, rr, randstate=rs)
    else:
        il = env.choose('intlen', list(range(1, min(N, 3) + 1)))
        want = None
        make = lambda rs: f.random_local_ham(N, ldim=d, intlen=il, randstate=rs)
    g0 = gstate(env)
    rs = np.random.RandomState(seed)
    m = make(rs)
    env.check(gstate(env) == g0, 'global random state untouched')
    np.random.seed(1 + seed % 1000)
    rs2 = np.random.RandomState(seed)
    m2 = make(rs2)
    for a, b in zip(m.lt, m2.lt):
        env.bitwise(np.array(a), np.array(b), 'equal random states give equal results')
    env.check(rs.randn() == rs2.randn(), 'same amount of randomness')
    m3 = make(np.random.RandomState(seed + 1))
    D = env.dense(m)
    if D.size > 1 and d_gt1(sh) and not (what == 'mpdo' and N * sh[0][0] == 1):
        env.check(abs(D - env.dense(m3)).max() > 1e-12, 'random')
    # continued draws from one random state differ
    m4 = make(rs)
    if D.size > 1 and d_gt1(sh):
        env.check(abs(D - env.dense(m4)).max() > 1e-12, 'consecutive draws differ')
    basic(env, m, sh, what)
    if want is not None:
        env.same(m.ranks, tuple(want), 'ranks')
    env.honest(m)
    nrm = np.sqrt((abs(D) ** 2).sum())
    if what == 'mps' or kw.get('normalized'):
        env.eq(nrm, 1., 'normalized')
    if what == 'mpa':
        env.check(m.dtype == kw['dtype'], 'dtype')
    if what == 'mps':
        env.check(m.dtype == np.complex_, 'dtype')
    if what in ('mpo', 'mpdo', 'ham'):
        M = matrix(env, D)
        if what != 'mpo' or kw['hermitian']:
            env.eq(M, M.conj().T, 'Hermitian')
    if what == 'mpdo':
        env.eq(np.trace(M), 1., 'unit trace')
        psd(env, M, 'positive semidefinite')
    if what == 'ham' and d > 1:
        # sum of terms on windows of il sites: project out everything else
        env.check(il == N or local_part_only(env, D, N, d, il), 'sum of local terms')


def d_gt1(sh):
    return any(d > 1 for s in sh for d in s)


def local_part_only(env, D, N, d, il):
    """The component acting non-trivially on any set of sites wider than il vanishes"""
    np = env.np
    import itertools
    # projectors on identity / traceless part of each site
    def part(A, site, traceless):
        ax = (2 * site, 2 * site + 1)
        tr = np.trace(A, axis1=ax[0], axis2=ax[1]) / d
        t = np.multiply.outer(tr, np.eye(d))
        t = np.moveaxis(t, (-2, -1), ax)
        return A - t if traceless else t
    for a in range(N):
        for b in range(a + il, N):
            # traceless on a and b (distance >= il): must vanish
            if abs(part(part(D, a, True), b, True)).max() > 1e-8:
                return False
    return True


def sym_ldim(env, N):
    """Argument for the local dimensions and the resulting shapes"""
    style = env.choose('ldim', ['scalar', 'legs', 'full'])
    if style == 'scalar':
        d = env.dim('d', 1, 3)
        return d, [(d,)] * N
    if style == 'legs':
        s = tuple(env.dim('d%d' % k, 1, 3) for k in range(env.choose('legs', [1, 2])))
        return env.choose('t', [list, tuple])(s), [s] * N
    sh = [tuple(env.dim('d%d.%d' % (k, j), 1, 3) for j in range(env.choose('legs%d' % k, [1, 2])))
          for k in range(N)]
    return env.choose('t', [list, tuple])(sh), sh


def sym_ranks(env, N, shapes):
    style = env.choose('rank', ['scalar', 'seq'])
    if style == 'scalar':
        r = env.dim('D', 1, 5)
        arg, r = r, [r] * (N - 1)
    else:
        r = [env.dim('D%d' % k, 1, 5) for k in range(N - 1)]
        arg = env.choose('rt', [list, tuple])(r)
    force = env.bit('force')
    return arg, force, r if force else [min(a, b) for a, b in zip(r, full_rank(shapes))]


@clause('C19', ['factory.zero', 'factory.eye', 'factory.diagonal_mpa', 'factory._generate',
                'mparray.MPArray.from_kron', 'mparray.full_rank'], weight=1)
def promised_arrays(env):
    """zero, eye, diagonal_mpa for arbitrary dimensions, ranks and entries"""
    np, f = env.np, env.mp.factory
    what = env.choose('what', ['zero', 'eye', 'diag'])
    N = env.sites(1, 5)
    if what == 'zero':
        ldim, sh = sym_ldim(env, N)
        r, force, want = sym_ranks(env, N, sh)
        m = f.zero(N, ldim, r, force)
        basic(env, m, sh, 'zero')
        env.same(m.ranks, tuple(want), 'ranks')
        env.eq(env.dense(m), np.zeros([d for s in sh for d in s]), 'all zero')
    elif what == 'eye':
        if env.bit('scalar'):
            d = env.dim('d', 1, 3)
            arg, ds = d, [d] * N
        else:
            ds = [env.dim('d%d' % k, 1, 3) for k in range(N)]
            arg = env.choose('t', [list, tuple, iter])(ds)
        m = f.eye(N, arg)
        basic(env, m, [(d, d) for d in ds], 'eye')
        env.same(m.ranks, (1,) * (N - 1), 'ranks')
        ref = np.eye(ds[0])
        for d in ds[1:]:
            ref = np.tensordot(ref, np.eye(d), 0)
        env.eq(env.dense(m), ref, 'identity')
    else:
        n = env.dim('n', 1, 3)
        e = env.tensor('entries', (n,), env.dtype('dt'))
        m = f.diagonal_mpa(e, N)
        basic(env, m, [(n,)] * N, 'diagonal')
        env.same(m.ranks, (n,) * (N - 1), 'ranks')
        ref = e
        for k in range(N - 1):      # ref[i, ..., i, j] = delta(i, j) e[i]
            ref = np.einsum(*([ref, list(range(k + 1)), np.eye(n), [k, k + 1], list(range(k + 2))]))
        env.eq(env.dense(m), ref, 'diagonal array')
    env.honest(m)


@clause('C19', ['factory.random_mpa', 'factory.random_mps', 'factory.random_mpo', 'factory.random_mpdo',
                'factory.random_local_ham', 'factory._generate', 'factory._random_op',
                'factory._unitary_haar'], weight=1.5)
def promised_random(env):
    """Shape, rank, norm, symmetry and reproducibility for arbitrary drawn numbers"""
    np, f = env.np, env.mp.factory
    what = env.choose('what', ['mpa', 'mps', 'mpo', 'ham', 'mpdo'])
    N = env.choose('N', [1, 2, 3, 4], sym=[1, 2] if what in ('mpo', 'mpdo') else [1, 2, 3])
    kw = {}
    if what in ('mpa', 'mps'):
        ldim, sh = sym_ldim(env, N)
    else:
        d = env.dim('d', 1, 3)
        sh = [(d, d)] * N
    if what in ('mpa', 'mps', 'mpo'):
        r, force, want = sym_ranks(env, N, sh)
        kw['force_rank'] = force
    if what == 'mpa':
        kw['normalized'] = env.bit('normalized')
        kw['dtype'] = env.choose('dtype', [np.float_, np.complex_])
        make = lambda rs: f.random_mpa(N, ldim, r, randstate=rs, **kw)
    elif what == 'mps':
        make = lambda rs: f.random_mps(N, ldim, r, randstate=rs, **kw)
    elif what == 'mpo':
        kw['hermitian'] = env.bit('hermitian')
        kw['normalized'] = env.bit('normalized')
        make = lambda rs: f.random_mpo(N, d, r, randstate=rs, **kw)
    elif what == 'mpdo':
        rr = env.choose('rr', [1, 2, 3], sym=[1, 2] if N == 1 else [1])
        want = [rr] * (N - 1)
        make = lambda rs: f.random_mpdo(N, d, rr, randstate=rs)
    else:
        il = env.choose('intlen', list(range(1, min(N, 2) + 1)))
        want = None
        make = lambda rs: f.random_local_ham(N, ldim=d, intlen=il, randstate=rs)
    rs = env.randstate('rs')
    m = make(rs)
    env.no_global_random()
    basic(env, m, sh, what)
    if want is not None:
        env.same(m.ranks, tuple(want), 'ranks')
    env.honest(m)
    D = env.dense(m)
    m2 = make(env.randstate('rs', same=rs))
    env.no_global_random()
    env.eq(env.dense(m2), D, 'equal random states give equal results')
    if what == 'mps' or kw.get('normalized'):
        env.eq(np.vdot(D, D), 1., 'normalized')
    if what == 'mpa':
        env.check(m.dtype == kw['dtype'], 'dtype')
    if what in ('mpo', 'mpdo', 'ham'):
        M = matrix(env, D)
        if what != 'mpo' or kw['hermitian']:
            env.eq(M, M.conj().T, 'Hermitian')
    if what == 'mpdo':
        env.eq(np.trace(M), 1., 'unit trace')
    if what == 'ham':
        for a in range(N):
            for b in range(a + il, N):
                # the part which is traceless on both sites vanishes
                X = traceless(np, traceless(np, D, a, d), b, d)
                env.eq(X, np.zeros([d] * (2 * N)), 'sum of local terms', scale=1.)


def traceless(np, A, site, d):
    """d * (part of A which is traceless on the site)"""
    i, j = 2 * site, 2 * site + 1
    t = np.tensordot(np.trace(A, axis1=i, axis2=j), np.eye(d), 0)
    return A * d - np.moveaxis(t, (-2, -1), (i, j))
