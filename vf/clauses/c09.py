from ..registry import clause
from .common import basic
from . import history


@clause('C09', ['mparray.MPArray._compression_var', 'mparray.MPArray._adapt_to',
                'mparray._adapt_to_add_l', 'mparray._adapt_to_add_r',
                'mparray._adapt_to_new_lten'], sym=False, weight=4)
def var(env):
    """Projection identity, rank bound, shape; start and original unmodified"""
    np = env.np
    N = env.sites(1, 5)
    sh = env.shapes('shape', N, uniform_legs=env.bit('u', .7), maxsize=400)
    a = env.mpa('A', sh, dtype=env.dtype('dt'), mixed=env.bit('mixed', .15))
    d = env.dense(a)
    env.assume(abs(d).max() > 1e-3)
    vs = env.randint('var_sites', 1, min(N, 4))
    sweeps = env.choose('sweeps', [1, 1, 2, 3])
    inplace = env.bit('inplace', .3)
    use_start = N > 1 and env.bit('startmpa')
    kw = dict(num_sweeps=sweeps, var_sites=vs)
    if not env.bit('vs given') and N >= 2:
        vs = 2
        del kw['var_sites']
    start = None
    if use_start:
        start = env.mpa('S', sh, dtype=env.dtype('dtS'))
        env.assume(abs(env.dense(start)).max() > 1e-3)
        kw['startmpa'] = start
        rank = max(start.ranks)
        ds = env.dense(start)
        sr = start.ranks
        if env.bit('close', .2) and N > 1:
            # start vector close to (a compression of) the original
            start, _ = a.compression(rank=env.choose('crank', [1, 2]))
            kw['startmpa'] = start
            ds, sr, rank = env.dense(start), start.ranks, max(start.ranks)
    else:
        rank = env.randint('rank', 1, 5)
        kw['rank'] = rank
        if env.bit('rs', .7):
            kw['randstate'] = env.np.random.RandomState(env.randint('seed', 0, 1000))
    lossless = N == 1 or rank > max(a.ranks)
    frames = [a] + ([start] if start is not None else [])
    if inplace:
        frames = frames[1:]
    with env.unchanged(*frames):
        if inplace:
            ov = a.compress('var', **kw)
            c = a
        else:
            c, ov = a.compression('var', **kw)
            env.check(c is not a, 'new object')
    env.wellformed(c)
    env.same(c.shape, tuple(sh), 'original shape')
    dc = env.dense(c)
    sc = max(1., float(np.linalg.norm(d)) ** 2)
    env.eq(ov, np.vdot(dc, dc), 'overlap is the squared norm', scale=sc)
    env.eq(np.vdot(d, dc), ov, 'overlap is the inner product with the original', scale=sc)
    env.honest(c)
    if lossless:
        env.eq(dc, d, 'lossless if the rank exceeds all ranks')
        return
    env.check(max(c.ranks) <= rank, 'rank bound', '%r > %d' % (c.ranks, rank))
    if use_start and vs <= 2:
        e0 = float(np.linalg.norm((d - ds).ravel()))
        e1 = float(np.linalg.norm((d - dc).ravel()))
        env.check(e1 <= e0 * (1 + 1e-9) + 1e-8 * sc ** .5, 'not farther than the start array',
                  '%g > %g' % (e1, e0))
    # optimality of the last local step: the error is orthogonal to the tangent space of the
    # first var_sites sites (weak form, first site)
    if vs == 1:
        l, r = c.canonical_form
        env.check(r == 1 or l == N - 1 or l >= 0, 'form')


@clause('C09', ['mparray.MPArray._compression_var', 'mparray.MPArray.compress', 'mparray.MPArray.compression',
                'mparray.MPArray._adapt_to', 'mparray._adapt_to_add_l', 'mparray._adapt_to_add_r',
                'mparray._adapt_to_new_lten', 'factory.random_mpa', '_named_ndarray.named_ndarray.*'], weight=1.5)
def projection(env):
    """Overlap identities, rank and shape for any start array, also a random one; frames"""
    np = env.np
    N = env.sites(1, 4)
    sh = env.shapes('shape', N, maxsize=200)
    vs = env.randint('vs', 1, min(N, 3))
    a = env.mpa('A', sh, dtype=env.dtype('dt'), form=env.choose('form', [None, (0, 1), (N - 1, N)][:1 if vs > 2 else 3]))
    d = env.dense(a)
    kw = dict(num_sweeps=env.choose('sweeps', [1, 2], sym=[1]), var_sites=vs)
    frames = [a]
    if env.bit('startmpa') and N > 1:
        start = env.mpa('S', sh, dtype=env.dtype('dtS'), form=None)
        kw['startmpa'] = start
        frames.append(start)
        rank = None
    else:
        rank = env.dim('rank', 1, 4)
        kw['rank'] = rank
        kw['randstate'] = env.randstate('rs')
    if env.real_only():
        env.assume(abs(d).max() > 1e-3)
        if rank is None:
            env.assume(abs(env.dense(start)).max() > 1e-3)
    inplace = env.bit('inplace')
    if inplace:
        frames = frames[1:]
    with env.unchanged(*frames):
        if inplace:
            c, ov = a, a.compress('var', **kw)
        else:
            c, ov = a.compression('var', **kw)
            env.check(c is not a, 'new object')
    if rank is not None:
        env.no_global_random()
    env.wellformed(c)
    env.same(c.shape, tuple(sh), 'original shape')
    env.honest(c)
    bound = rank if rank is not None else max(start.ranks)
    if N > 1 and not bound > max(a.ranks if not inplace else [1]):
        for r in c.ranks:
            env.check(r <= bound, 'rank bound')
    dc = env.dense(c)
    sc = 1. if env.symbolic else max(1., float(np.linalg.norm(d)) ** 2)
    env.eq(ov, np.vdot(dc, dc), 'overlap is the squared norm', scale=sc)
    env.eq(np.vdot(d, dc), ov, 'overlap is the inner product with the original', scale=sc)


@clause('C09', ['mparray.MPArray._adapt_to'], sym=False, weight=1.5)
def local_optimum(env):
    """After single-site sweeps the first local tensor is optimal given the others"""
    np = env.np
    N = env.sites(2, 5)
    sh = env.shapes('shape', N, legs=1, lo=2, maxsize=300)
    a = env.mpa('A', sh, dtype=env.dtype('dt'))
    d = env.dense(a)
    env.assume(abs(d).max() > 1e-3)
    start = env.mpa('S', sh, ranks=[env.randint('r', 1, 3)] * (N - 1), dtype=env.dtype('dtS'))
    env.assume(abs(env.dense(start)).max() > 1e-3 and max(start.ranks) <= max(a.ranks))
    c, ov = a.compression('var', num_sweeps=env.choose('s', [1, 2]), startmpa=start, var_sites=1)
    lt = list(c.lt)
    env_r = env.dense(lt[1:], virtual=True)[..., 0]      # (D, rest)
    E = env_r.reshape((env_r.shape[0], -1))
    # columns: all arrays reachable by changing site 0 only
    X = d.reshape((sh[0][0], -1))
    # best approximation of rows of X in the row space of E
    q, _ = np.linalg.qr(E.T)
    env.assume(np.linalg.matrix_rank(E) == E.shape[0])
    best = np.dot(np.dot(X, q.conj()), q.T)
    env.eq(env.dense(c).reshape(X.shape), best, 'optimal first tensor',
           scale=max(1., float(np.linalg.norm(d))))


@clause('C09', ['mparray.MPArray._compression_var'], sym=False, weight=.5)
def reproducible(env):
    """Same random state, same result; missing arguments are rejected"""
    np = env.np
    N = env.sites(2, 4)
    sh = env.shapes('shape', N, legs=1, lo=2, maxsize=100)
    a = env.mpa('A', sh, ranks=[4] * (N - 1), dtype=env.dtype('dt'))
    s = env.randint('seed', 0, 1000)
    st = np.random.get_state()[1].copy()
    r = [a.compression('var', rank=2, num_sweeps=1, randstate=np.random.RandomState(s), var_sites=1)
         for _ in range(2)]
    env.eq(env.dense(r[0][0]), env.dense(r[1][0]), 'reproducible')
    env.check((np.random.get_state()[1] == st).all(), 'global random state untouched')
    env.raises((ValueError, TypeError), lambda: a.compression('var', num_sweeps=1), 'rank required')
