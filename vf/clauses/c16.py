from ..registry import clause
from . import qstate as q


class OtherRandomness(Exception):
    pass


class ScriptedRng(object):
    """Random source which follows a script and records the probabilities"""
    def __init__(self, np, script):
        self.np, self.script, self.probs = np, list(script), []

    def _one(self, n, p):
        p = [1. / n] * n if p is None else [float(x) for x in p]
        assert len(p) == n
        assert abs(sum(p) - 1) < 1e-8 and min(p) >= 0
        i = len(self.probs)
        if i >= len(self.script):
            self.script.append(max(j for j in range(n) if p[j] > 0))
        self.probs.append(p)
        return self.script[i]

    def choice(self, a, size=None, replace=True, p=None):
        arr = None
        if not isinstance(a, (int, self.np.integer)):
            arr = self.np.asarray(a)
            a = len(arr)
        if not replace:
            raise OtherRandomness()
        if size is None:
            i = self._one(int(a), p)
            return i if arr is None else arr[i]
        n = int(self.np.prod(size))
        r = self.np.array([self._one(int(a), p) for _ in range(n)], dtype=int).reshape(size)
        return r if arr is None else arr[r]

    def __getattr__(self, name):
        raise OtherRandomness(name)


def distribution(env, draw):
    """Exact distribution of draw(rng) -> hashable; None if other randomness is used"""
    dist = {}
    script = []
    while True:
        rng = ScriptedRng(env.np, script)
        try:
            out = draw(rng)
        except OtherRandomness:
            return None
        pr = 1.0
        for c, p in zip(rng.script, rng.probs):
            pr *= p[c]
        dist[out] = dist.get(out, 0.) + pr
        # next script: depth first, choices with decreasing index
        s = rng.script[:len(rng.probs)]
        while s:
            p = rng.probs[len(s) - 1]
            nxt = [j for j in range(s[-1]) if p[j] > 0]
            if nxt:
                s = s[:-1] + [max(nxt)]
                break
            s = s[:-1]
        if not s:
            return dist
        script = s


@clause('C16', ['povm.mppovm.MPPovm.sample', 'povm.mppovm.MPPovm._sample_cond',
                'povm.mppovm.MPPovm._sample_cond_single', 'povm.mppovm.MPPovm._sample_direct'],
        sym=False, weight=2)
def exact_sampling(env):
    """Every outcome is drawn with exactly its probability (all paths of the random source)"""
    np = env.np
    N, hd, k, kind, M, E, rho, dm = q.case(env, Nmax=3, need_out=True)
    env.assume(np.prod(k) <= 18)
    mode = env.choose('mode', {'mps': ['mps', 'auto'], 'pmps': ['pmps'], 'mpdo': ['mpdo', 'auto']}[kind])
    ns = [x for x in k if x > 1]
    method = env.choose('method', ['cond', 'cond', 'direct'])
    group = env.choose('group', [1, 1, 2, 3, 5])
    pos = env.choose('which', [0, 1, 2])
    ref = q.squeeze(env, q.born(env, E, dm, N).real, k)

    def draw(rng):
        s = M.sample(rng, rho, 1, method, group, mode)
        env.same(s.shape, (1, len(ns)), 'one column per site with several outcomes')
        return tuple(int(x) for x in s[0])
    with env.unchanged(M, rho):
        dist = distribution(env, draw)
    if dist is None:
        return statistics(env, M, rho, method, group, mode, ref)
    p = np.zeros(ref.shape)
    for o, x in dist.items():
        env.check(all(0 <= i < d for i, d in zip(o, ns)), 'valid outcome', repr(o))
        p[o] = x
    env.eq(p, ref, 'distribution of samples', tol=1e-7)


@clause('C16', ['povm.mppovm.MPPovm.sample', 'povm.mppovm.MPPovm._sample_cond',
                'povm.mppovm.MPPovm._sample_cond_single', 'povm.mppovm.MPPovm._sample_direct'], weight=.2)
def drawn_probability(env):
    """For every sequence of draws the product of their probabilities is the probability of the
    returned outcomes, for arbitrary dimensions, ranks and entries"""
    if env.real_only():
        return exact_sampling(env)
    N = env.choose('N', [1, 2, 3])
    k = q.outs(env, N)
    env.assume(any(x > 1 for x in k))
    kind = env.choose('state', ['mpdo'] if N > 1 else ['mpdo', 'mps', 'pmps'])
    hd = q.dims(env, N)
    M, E = q.povm(env, 'povm', hd, k)
    rho, dm = q.state(env, kind, hd)
    n = env.choose('n', [1, 2])
    method = env.choose('method', ['cond', 'direct'])
    group = env.choose('group', [1, 2, 3][:max(1, sum(x > 1 for x in k))] if method == 'cond' else [1])
    ref = q.squeeze(env, q.born(env, E, dm, N), k)
    env.assume_equal(ref.sum(), 1.)
    rng = env.choices()
    with q.valid_pmf(env):
        s = M.sample(rng, rho, n, method, group, kind)
    ns = tuple(x for x in k if x > 1)
    env.same(s.shape, (n, len(ns)), 'one column per site with several outcomes')
    want, have = 1., 1.
    for row in s:
        want = want * ref[tuple(row)]
    for p in rng.p:
        have = have * p
    env.eq(have, want, 'probability of the returned outcomes')
    env.same(sorted(repr(x) for row in s for x in row), sorted(repr(x) for d in rng.digits for x in d),
             'every draw ends up in the output')


def statistics(env, M, rho, method, group, mode, ref, n=400):
    np = env.np
    rng = np.random.RandomState(env.rng.randint(2 ** 31 - 1))
    s = M.sample(rng, rho, n, method, group, mode)
    env.same(s.shape, (n, ref.ndim), 'shape of samples')
    cnt = np.zeros(ref.shape)
    for o in s:
        cnt[tuple(int(x) for x in o)] += 1
    bound = 8 * np.sqrt(n * np.clip(ref * (1 - ref), 0, None)) + 8
    env.check((abs(cnt - n * ref) <= bound).all(), 'frequencies of outcomes',
              'counts %r expected %r' % (cnt.ravel().tolist(), (n * ref).ravel().tolist()))
    env.check((cnt[ref < 1e-12] == 0).all(), 'impossible outcomes never drawn')


@clause('C16', ['povm.mppovm.MPPovm.sample', 'povm.mppovm.MPPovm._sample_cond',
                'povm.mppovm.MPPovm._sample_direct', 'povm.mppovm.MPPovmList.sample'],
        sym=False, weight=.4)
def sample_statistics(env):
    """Samples from a real random source; independent samples; packed output; lists"""
    np = env.np
    N, hd, k, kind, M, E, rho, dm = q.case(env, Nmax=3, need_out=True)
    ref = q.squeeze(env, q.born(env, E, dm, N).real, k)
    method = env.choose('method', ['cond', 'direct'])
    group = env.choose('group', [1, 2])
    statistics(env, M, rho, method, group, kind, ref, 150 if method == 'cond' else 4000)
    seed = int(env.rng.randint(10 ** 6))
    a = M.sample(np.random.RandomState(seed), rho, 20, method, group, kind)
    b = M.sample(np.random.RandomState(seed), rho, 20, method, group, kind, pack=True)
    L = env.mp.povm.MPPovmList([M, M])
    r = np.random.RandomState(seed)
    c = list(L.sample(r, rho, 20, method, group, kind))
    env.same(len(c), 2, 'one array per POVM')
    env.bitwise(a, c[0], 'sampling from a list')
    env.same(a.tolist(), M.unpack_samples(b).tolist(), 'packed samples')
    env.check(a.dtype == np.uint8, 'dtype')


def index(o, dims):
    r = 0
    for i, d in zip(o, dims):
        r = r * d + int(i)
    return r


@clause('C16', ['povm.mppovm.MPPovm.pack_samples', 'povm.mppovm.MPPovm.unpack_samples',
                'povm.mppovm.MPPovm.est_pmf', 'povm.mppovm.MPPovmList.pack_samples',
                'povm.mppovm.MPPovmList.unpack_samples', 'povm.mppovm.MPPovmList.est_pmf'],
        sym=False, weight=3)
def packing(env):
    """Packing in row-major order, inverse of unpacking; empirical distribution"""
    np, rng = env.np, env.rng
    huge = env.choose('huge', [False] * 4 + [True])
    N = env.randint('N', 5, 25) if huge else env.choose('N', [1, 2, 3, 4])
    big = env.choose('big', [False] * 5 + [True])
    k = [int(x) for x in rng.choice([1, 2, 3, 5, 255] if big else [1, 2, 3, 4], size=N)]
    env.assume(max(k) > 1 and np.prod(k, dtype=float) < (2. ** 62 if huge else 2e5))
    ns = [x for x in k if x > 1]
    MP = env.mp.povm.MPPovm
    def loc(x):
        e = np.zeros((x, 1, 1))
        e[:, 0, 0] = 1. / x
        return e
    M = MP.from_kron([loc(x) for x in k])
    n = env.choose('n', [1, 2, 7, 40])
    s = np.array([[rng.randint(d) for d in ns] for _ in range(n)],
                 dtype=env.choose('dt', [np.uint8, np.int64]))
    if env.bit('extreme', .2):
        s[0] = [d - 1 for d in ns]
    before = s.copy()
    ref = [index(o, ns) for o in s]
    dt = env.choose('pdt', [None, True, np.int64, np.uint64] + ([] if huge else [np.uint32]))
    p = M.pack_samples(s) if dt is None else M.pack_samples(s, dtype=dt)
    env.same([int(x) for x in p], ref, 'row-major index')
    if dt not in (None, True):
        env.check(p.dtype == dt, 'requested dtype')
    u = M.unpack_samples(p.astype(int))
    env.same(u.tolist(), s.tolist(), 'unpack inverts pack')
    env.check(u.dtype == np.uint8, 'dtype of unpacked samples')
    env.same(M.pack_samples(u).tolist(), ref, 'pack inverts unpack')
    if huge:
        return
    cnt = np.zeros(ns, int)
    for o in s:
        cnt[tuple(int(x) for x in o)] += 1
    packed = env.choose('packed', [True, False])
    arg = p.astype(int) if packed else s
    r = M.est_pmf(arg)
    env.eq(r, cnt / float(n), 'relative frequencies', tol=1e-14)
    r = M.est_pmf(arg, normalize=False)
    env.check(r.dtype.kind in 'iu', 'counts are integers')
    env.same(r.tolist(), cnt.tolist(), 'outcome counts')
    L = env.mp.povm.MPPovmList([M, M])
    env.same([x.tolist() for x in L.pack_samples([s, s[::-1]])], [ref, ref[::-1]], 'list pack')
    env.same([x.tolist() for x in L.unpack_samples([p.astype(int)] * 2)], [s.tolist()] * 2, 'list unpack')
    e = list(L.est_pmf([s, s]))
    env.eq(e[1], cnt / float(n), 'list est_pmf', tol=1e-14)
    e = list(L.est_pmf([s, s], False))
    env.same(e[0].tolist(), cnt.tolist(), 'list est_pmf counts')
    env.bitwise(s, before, 'samples unchanged')
    if big and np.prod(ns) > 256:
        s[0] = [d - 1 for d in ns]
        env.raises(AssertionError, lambda: M.pack_samples(s, dtype=np.uint8), 'overflow rejected')


@clause('C16', ['povm.mppovm.MPPovm.pack_samples', 'povm.mppovm.MPPovm.unpack_samples',
                'povm.mppovm.MPPovm.est_pmf', 'povm.mppovm.MPPovmList.pack_samples',
                'povm.mppovm.MPPovmList.unpack_samples', 'povm.mppovm.MPPovmList.est_pmf'], weight=.5)
def packing_any(env):
    """Packing and counting for arbitrary numbers of outcomes and arbitrary samples"""
    np = env.np
    N = env.choose('N', [1, 2, 3])
    k = q.outs(env, N, maxk=60)
    env.assume(any(x > 1 for x in k))
    M = env.mpa('M', [(x, 1, 1) for x in k], ranks=[1] * (N - 1), form=None, cls=env.mp.povm.MPPovm)
    n = env.choose('n', [1, 2, 3])
    ns = [x for x in k if x > 1]
    s = env.outcomes('s', n, ns)
    ref = []
    for row in s:
        r = 0
        for i, d in zip(row, ns):
            r = r * d + (i if not env.real_only() else int(i))
        ref.append(r)
    what = env.choose('what', ['pack', 'list'])
    L = env.mp.povm.MPPovmList([M, M])
    p = M.pack_samples(s) if what == 'pack' else list(L.pack_samples([s, s]))[1]
    env.same(list(p), ref, 'row-major index')
    u = M.unpack_samples(p) if what == 'pack' else list(L.unpack_samples([p, p]))[0]
    env.same(u.shape, (n, len(ns)), 'shape of unpacked samples')
    env.same([list(x) for x in u], [list(x) for x in s], 'unpack inverts pack')
    arg = env.choose('arg', [p, s]) if env.real_only() else (p, s)[env.choose('packed', [0, 1])]
    norm = env.bit('normalize')
    e = M.est_pmf(arg, norm) if what == 'pack' else list(L.est_pmf([arg, arg], norm))[1]
    cnt = None
    for row in s:
        x = None
        for i, d in zip(row, ns):
            y = np.eye(d)[i]
            x = y if x is None else np.tensordot(x, y, 0)
        cnt = x if cnt is None else cnt + x
    env.eq(e, cnt / n if norm else cnt, 'counts of the outcomes')
