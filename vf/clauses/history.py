"""Histories of public operations with ghost state (the represented arrays).

Ghost state: for every live chain its represented dense array.  Every step
checks that (a) chains not modified by the step represent the same array as
before (b) the reported canonical form of every live chain is truthful.
"""
import io
import os
import tempfile

MAXSIZE, MAXRANK, MAXLEGS, MAXN = 2000, 14, 12, 6


def small(env, m):
    if env.symbolic:
        return len(m) <= MAXN and sum(m.ndims) <= MAXLEGS
    n = 1.
    for s in m.shape:
        for d in s:
            n *= d
    return n <= MAXSIZE and len(m) <= MAXN and sum(m.ndims) <= MAXLEGS \
        and (len(m) == 1 or max(m.ranks) <= MAXRANK)


def scale(env, x):
    return 1. if env.symbolic else max(1., float(abs(x).max()))


def iszero(env, a):
    """The represented array vanishes (a precondition in the symbolic environment: it does not)"""
    return not env.symbolic and abs(env.dense(a)).max() < 1e-10


class Hist(object):
    def __init__(self, env):
        self.env, self.live, self.ghost, self.trace = env, [], [], []

    def add(self, m, ghost=None):
        env = self.env
        env.wellformed(m)
        if not small(env, m):
            return
        self.live.append(m)
        self.ghost.append(env.dense(m).copy() if ghost is None else ghost)
        if len(self.live) > 6 and not env.symbolic:
            i = env.rng.randint(len(self.live) - 1)
            del self.live[i], self.ghost[i]

    def pick(self, cond=lambda m: True):
        idx = [i for i, m in enumerate(self.live) if cond(m)]
        if not idx:
            return None
        if self.env.symbolic:
            return self.env.choose('pick', idx)
        return idx[self.env.rng.randint(len(idx))]

    def verify(self, what, changed=(), honest=True, frame=True):
        env = self.env
        for i, m in enumerate(self.live):
            if frame and not any(m is c for c in changed):
                env.eq(env.dense(m), self.ghost[i], 'array represented by chain %d unchanged by %s'
                       % (i, what), scale=scale(env, self.ghost[i]), tol=1e-7)
            if honest:
                env.honest(m, 'canonical form after ' + what)
        for i, m in enumerate(self.live):
            if any(m is c for c in changed):
                self.ghost[i] = env.dense(m).copy()


# every operation: fn(h, env, a) -> (list of new chains, list of chains changed in place)
OPS = {}


def op(name, cond=lambda m: True, weight=1):
    def deco(fn):
        OPS[name] = (fn, cond, weight)
        return fn
    return deco


def one(r):
    return [r], []


op('copy')(lambda h, e, a: one(a.copy()))
op('pos')(lambda h, e, a: one(+a))
op('neg')(lambda h, e, a: one(-a))
op('T')(lambda h, e, a: one(a.T))
op('conj')(lambda h, e, a: one(a.conj()))
op('adj')(lambda h, e, a: one(a.adj()))
op('ravel')(lambda h, e, a: one(a.ravel()))
op('reverse')(lambda h, e, a: one(a.reverse()))
op('mul', weight=2)(lambda h, e, a: one(a * e.scalar('c', e.dtype('ct'))))
op('div')(lambda h, e, a: one(a / e.scalar('c', e.dtype('ct'))))
op('prune')(lambda h, e, a: one(e.mp.prune(a, singletons=e.bit('s'))))
op('reshape')(lambda h, e, a: one(a.reshape([tuple(s)[::-1] for s in a.shape])))
op('reshape_prune')(lambda h, e, a: one(a.reshape('prune')))
op('reshape_id')(lambda h, e, a: one(a.reshape(a.shape)))
op('pad', lambda m: len(m) > 1)(lambda h, e, a: one(a.pad_ranks(e.randint('r', 1, 6), force_rank=e.bit('f'))))


@op('transpose', lambda m: len(set(m.ndims)) == 1 and m.ndims[0] > 0)
def _(h, e, a):
    from .common import rand_perm
    return one(a.transpose(rand_perm(e, 'perm', a.ndims[0])))


@op('add', weight=2)
def _(h, e, a):
    i = h.pick(lambda m: m.shape == a.shape)
    b = h.live[i]
    return one(a + b if e.bit('plus') else a - b)


@op('sumup')
def _(h, e, a):
    bs = [m for m in h.live if m.shape == a.shape][:3]
    w = [e.scalar('w', float) for _ in bs]
    return one(e.mp.sumup(bs, weights=w if e.bit('w') else None))


@op('chain')
def _(h, e, a):
    b = h.live[h.pick()]
    if len(a) + len(b) > MAXN:
        return [], []
    return one(e.mp.chain([a, b]))


@op('localouter', lambda m: sum(m.ndims) <= 5)
def _(h, e, a):
    i = h.pick(lambda m: len(m) == len(a) and sum(m.ndims) <= 5)
    return one(e.mp.localouter(a, h.live[i]))


@op('dot', lambda m: min(m.ndims) > 0)
def _(h, e, a):
    i = h.pick(lambda m: len(m) == len(a) and min(m.ndims) > 0 and
               all(x[-1] == y[0] for x, y in zip(a.shape, m.shape)))
    if i is None:
        return one(e.mp.dot(a.conj(), a, axes=(0, 0)))
    return one(e.mp.dot(a, h.live[i]))


@op('partialdot', lambda m: min(m.ndims) > 0 and sum(m.ndims) < 8)
def _(h, e, a):
    k = e.randint('start', 0, len(a) - 1)
    sh = [(s[-1], 2) for s in a.shape[k:k + 2]]
    b = e.mpa('pd', sh)
    return one(e.mp.partialdot(a, b, k))


@op('group', lambda m: len(m) % 2 == 0)
def _(h, e, a):
    return one(a.group_sites(2))


op('group1')(lambda h, e, a: one(a.group_sites(1)))


@op('split_sites', lambda m: all(n % 2 == 0 and n > 0 for n in m.ndims) and len(m) <= 3)
def _(h, e, a):
    return one(a.split_sites(2))


op('split_sites1', lambda m: True)(lambda h, e, a: one(a.split_sites(1)))


@op('vleg2leg', lambda m: len(m) > 1, weight=2)
def _(h, e, a):
    pos = e.randint('pos', 0, len(a) - 2)
    r = a.vleg2leg(pos)
    return [r, r.leg2vleg(pos)], []


@op('leg2vleg', lambda m: any(x[-1:] == y[:1] != () and r == 1 for x, y, r in
                              zip(m.shape[:-1], m.shape[1:], m.ranks)))
def _(h, e, a):
    ps = [i for i in range(len(a) - 1) if a.shape[i][-1:] == a.shape[i + 1][:1] != ()
          and a.ranks[i] == 1]
    return one(a.leg2vleg(e.choose('ps', ps)))


@op('split', weight=2)
def _(h, e, a):
    l, r = a.split(e.randint('pos', -1, len(a) - 1))
    return [x for x in (l, r) if x is not None], []


@op('get', lambda m: min(m.ndims) > 0)
def _(h, e, a):
    return one(a.get([e.randint('gi', 0, s[0] - 1) if e.bit('i') else slice(None) for s in a.shape]))


@op('axis_iter', lambda m: min(m.ndims) > 0)
def _(h, e, a):
    return one(next(iter(a.axis_iter(e.choose('ax', [0, -1])))))


@op('diag', lambda m: min(m.ndims) > 1 and len(set(s[0] for s in m.shape)) == 1
    and len(set(m.ndims)) == 1)
def _(h, e, a):
    return list(e.mp.diag(a))[:2], []


@op('sum', lambda m: sum(m.ndims) > 0)
def _(h, e, a):
    if e.bit('persite'):
        r = a.sum([(0,) if len(s) and e.bit('s') else () for s in a.shape])
    else:
        r = a.sum(())
    return ([r] if isinstance(r, e.mp.MPArray) else []), []


@op('partialtrace', lambda m: any(len(s) >= 2 and s[0] == s[1] for s in m.shape))
def _(h, e, a):
    ax = [(0, 1) if len(s) >= 2 and s[0] == s[1] and e.bit('t') else None for s in a.shape]
    return one(e.mp.partialtrace(a, ax))


@op('inject', lambda m: len(m) < MAXN and min(m.ndims) > 0)
def _(h, e, a):
    pos = e.randint('pos', 0, len(a))
    if e.bit('ten'):
        return one(e.mp.inject(a, pos, 1, e.tensor('inj', (2,))))
    return one(e.mp.inject(a, pos, 1))


@op('embed', lambda m: len(m) < 4 and len(m.shape[0]) == 2 and m.shape[0][0] == m.shape[0][1])
def _(h, e, a):
    return one(e.mp.embed_slice(len(a) + 1, slice(1, 1 + len(a)), a))


@op('local_sum', lambda m: len(m) < 3 and len(m.shape[0]) == 2 and m.shape[0][0] == m.shape[0][1]
    and len(set(m.shape)) == 1)
def _(h, e, a):
    return one(e.mp.local_sum([a, 2. * a, a.T]))


@op('compression', weight=2)
def _(h, e, a):
    kw = dict(method='svd', rank=e.choose('rank', [None, 1, 2, 4]),
              relerr=e.choose('relerr', [None, None, 0.1, 0.]),
              direction=e.choose('dir', [None, 'left', 'right']))
    if iszero(e, a):
        kw['relerr'] = None         # relative errors are undefined for zero arrays
    r, ov = a.compression(**kw)
    return one(r)


@op('compression_var', lambda m: len(m) > 1)
def _(h, e, a):
    vs = e.randint('vs', 1, min(3, len(a)))
    if e.bit('start'):
        s = e.mpa('start', a.shape, dtype=a.dtype)
        r, ov = a.compression('var', startmpa=s, num_sweeps=1, var_sites=vs)
        return [r, s], []
    r, ov = a.compression('var', rank=e.randint('rank', 1, 3), num_sweeps=1, var_sites=vs,
                          randstate=e.rng)
    return one(r)


@op('dumpload')
def _(h, e, a):
    d = tempfile.mkdtemp(prefix='vf_')
    fn = os.path.join(d, 'x.h5')
    try:
        a.dump(fn)
        r = type(a).load(fn)
    finally:
        if os.path.exists(fn):
            os.remove(fn)
        os.rmdir(d)
    return one(r)


@op('from_array')
def _(h, e, a):
    nd = list(a.ndims)
    if sum(nd) == 0 or nd[-1] == 0:
        return [], []
    return one(e.mp.MPArray.from_array(a.to_array(), nd))


@op('special_sumup', lambda m: min(m.ndims) > 0)
def _(h, e, a):
    ms = [e.mpa('p%d' % i, a.shape, ranks=[1] * (len(a) - 1), form=None) for i in range(3)]
    r = e.mp.special.sumup(ms, rank=e.randint('rank', 1, 4))
    return [r] + ms[:1], []


@op('factory', weight=.5)
def _(h, e, a):
    N = e.randint('N', 1, 4)
    f = e.mp.factory
    k = e.choose('which', ['eye', 'zero', 'diag', 'mpa', 'mps', 'mpo', 'mpdo', 'ham'])
    if k == 'eye':
        r = f.eye(N, 2)
    elif k == 'zero':
        r = f.zero(N, 2, 2)
    elif k == 'diag':
        r = f.diagonal_mpa(e.tensor('ent', (2,), float), N)
    elif k == 'mpa':
        r = f.random_mpa(N, (2, 2), 3, randstate=e.rng, normalized=e.bit('n'))
    elif k == 'mps':
        r = f.random_mps(N, 2, 3, randstate=e.rng)
    elif k == 'mpo':
        r = f.random_mpo(N, 2, 2, randstate=e.rng, hermitian=e.bit('h'))
    elif k == 'mpdo':
        r = f.random_mpdo(N, 2, 2, randstate=e.rng)
    else:
        r = f.random_local_ham(max(N, 2), 2, 2, randstate=e.rng)
    return one(r)


@op('states', lambda m: set(m.ndims) <= {1, 2})
def _(h, e, a):
    mp = e.mp
    if set(a.ndims) == {1}:
        r = [mp.mps_to_pmps(a), mp.mps_to_mpo(a)]
    elif set(a.ndims) == {2}:
        r = [mp.pmps_to_mpo(a)]
        if len(a) > 1:
            r += list(mp.reductions_pmps(a, 1))[:1]
        if all(s[0] == s[1] for s in a.shape):
            r += list(mp.reductions_mpo(a, 1))[:1]
    else:
        r = []
    return r, []


# -- in-place operations ------------------------------------------------------
@op('imul', weight=3)
def _(h, e, a):
    c = e.scalar('c', e.dtype('ct'))
    if e.bit('div'):
        a /= c
    else:
        a *= c
    return [], [a]


@op('canonicalize', weight=4)
def _(h, e, a):
    n = len(a)
    l = e.choose('left', [None, 'afull', 0] + list(range(n)))
    r = e.choose('right', [None, 'afull'] + list(range(1, n + 1)))
    li = {None: 0, 'afull': n - 1}.get(l, l)
    ri = {None: n, 'afull': 1}.get(r, r)
    if li < ri:
        a.canonicalize(left=l, right=r)
    return [], []       # must not change the represented array


@op('norm')
def _(h, e, a):
    e.mp.norm(a)
    return [], []


@op('normdist')
def _(h, e, a):
    i = h.pick(lambda m: m.shape == a.shape)
    e.mp.normdist(a, h.live[i])
    return [], []


@op('singularvals')
def _(h, e, a):
    if e.bit('partial'):
        k = e.randint('k', 0, len(a))
        for i, _s in enumerate(a.singularvals()):
            if i >= k:
                break
    else:
        list(a.singularvals())
    return [], []


@op('compress', weight=2)
def _(h, e, a):
    zero = iszero(e, a)
    a.compress('svd', rank=e.choose('rank', [None, 1, 2, 4]),
               relerr=None if zero else e.choose('relerr', [None, None, 0.1]),
               direction=e.choose('dir', [None, 'left', 'right']))
    return [], [a]


@op('compress_nocanon', lambda m: len(m) > 1)
def _(h, e, a):
    a.compress('svd', rank=e.choose('rank', [None, 2, 4]), canonicalize=False,
               direction=e.choose('dir', [None, 'left', 'right']))
    return [], [a]


@op('compress_var', lambda m: len(m) > 1)
def _(h, e, a):
    a.compress('var', rank=e.randint('rank', 1, 3), num_sweeps=1, randstate=e.rng,
               var_sites=e.randint('vs', 1, min(2, len(a))))
    return [], [a]


# operations which are outside of the symbolic engine (random numbers, files, iterative solvers)
REAL_ONLY = ('factory', 'dumpload', 'special_sumup', 'compression_var', 'compress_var')


def names(env):
    return [n for n in sorted(OPS) if not env.symbolic or n not in REAL_ONLY]


def normalized(e, shape, which):
    np = e.np
    if e.symbolic:
        if which is None:
            return e.tensor('new', shape)
        return e.isometry('new', shape, complex, which)
    if which == 'left':
        m = int(np.prod(shape[:-1]))
        if m < shape[-1]:
            return None
        q, _ = np.linalg.qr(e.tensor('new', (m, shape[-1]), zero=0))
        return q.reshape(shape)
    if which == 'right':
        m = int(np.prod(shape[1:]))
        if m < shape[0]:
            return None
        q, _ = np.linalg.qr(e.tensor('new', (m, shape[0]), zero=0))
        return q.T.reshape(shape)
    return e.tensor('new', shape)


@op('update', weight=4)
def _(h, e, a):
    n = len(a)
    k = e.randint('site', -n, n - 1)
    which = e.choose('normalization', [None, 'left', 'right', 'setitem'])
    shape = a.lt[k].shape
    t = normalized(e, shape, None if which == 'setitem' else which)
    if t is None:
        return [], []
    if which == 'setitem':
        a.lt[k] = t
    else:
        a.lt.update(k, t, canonicalization=which)
    return [], [a]


@op('update_slice', weight=3)
def _(h, e, a):
    n = len(a)
    i = e.randint('start', 0, n - 1)
    j = e.randint('stop', i + 1, n)
    lt = list(a.lt)
    old = [t.shape for t in lt[i:j]]
    bonds = [old[0][0]] + [e.randint('D', 1, 3) for _ in range(j - i - 1)] + [old[-1][-1]]
    shapes = [(bonds[k],) + tuple(s[1:-1]) + (bonds[k + 1],) for k, s in enumerate(old)]
    mode = e.choose('mode', ['setitem', 'single', 'list'])
    if mode == 'single':
        w = e.choose('w', [None, 'left', 'right'])
        ws = [w] * len(shapes)
    elif mode == 'list':
        ws = [e.choose('w', [None, 'left', 'right']) for _ in shapes]
    else:
        ws = [None] * len(shapes)
    ts = [normalized(e, s, w) for s, w in zip(shapes, ws)]
    if any(t is None for t in ts):
        return [], []
    sl = slice(i, j)
    if mode == 'setitem':
        a.lt[sl] = ts
    elif mode == 'single':
        a.lt.update(sl, ts, canonicalization=w)
    else:
        a.lt.update(sl, ts if e.bit('l') else iter(ts), canonicalization=ws)
    return [], [a]


def run(env, steps, honest, frame, start=None):
    h = Hist(env)
    for i in range(2):
        N = env.randint('N', 1, 5)
        sh = env.shapes('shape', N, legs=env.choose('legs', [None, 1, 2]), maxsize=300,
                        uniform_legs=env.bit('u'), hi=2 if env.bit('small') else 3)
        if i == 1 and env.bit('same'):
            sh = h.live[0].shape if h.live else sh
        h.add(env.mpa('A', sh, dtype=env.dtype('dt'), mixed=env.bit('mixed', .2)))
    env.assume(h.live)
    ops = names(env)
    w = env.np.array([OPS[n][2] for n in ops], float)
    w /= w.sum()
    for s in range(steps):
        name = ops[int(env.rng.choice(len(ops), p=w))]
        fn, cond, _ = OPS[name]
        i = h.pick(cond)
        if i is None:
            continue
        env._note('step', (name, i))
        a = h.live[i]
        new, changed = fn(h, env, a)
        h.verify(name, changed, honest=honest, frame=frame)
        for m in new:
            if honest:
                env.wellformed(m, 'result of ' + name)
                env.honest(m, 'canonical form of the result of ' + name)
            h.add(m)
        # keep numbers in a sane range
        for j, m in reversed(list(enumerate(h.live))):
            mx = abs(h.ghost[j]).max() if h.ghost[j].size else 0.
            if not mx < 1e6 or (0 < mx < 1e-6):
                del h.live[j], h.ghost[j]
        if not h.live:
            return
