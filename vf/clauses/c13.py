from ..registry import clause
from .common import basic, contract


def dm_of_pmps(env, d, N):
    """Dense PMPS (s1 a1 s2 a2 ...) -> density matrix legs (s1 s1' s2 s2' ...)"""
    l1, l2, out = [], [], []
    for k in range(N):
        l1 += [3 * k, 3 * k + 1]
        l2 += [3 * k + 2, 3 * k + 1]
        out += [3 * k, 3 * k + 2]
    return contract(env, [d, d.conj()], [l1, l2], out)


def dm_of_mps(env, d, N):
    return contract(env, [d, d.conj()], [[2 * k for k in range(N)], [2 * k + 1 for k in range(N)]],
                    list(range(2 * N)))


def ptrace(env, dm, N, keep):
    lab, out = [], []
    for k in range(N):
        if k in keep:
            lab += [2 * k, 2 * k + 1]
        else:
            lab += [2 * k, 2 * k]
    for k in keep:
        out += [2 * k, 2 * k + 1]
    return contract(env, [dm], [lab], out)


def state(env, kind, hi=4, maxsize=300, lo=1):
    """(N, chain, dense density matrix in local form, system dims)"""
    N = env.sites(lo, hi)
    env.assume(N <= hi)
    dims = [s[0] for s in env.shapes('sys', N, legs=1, maxsize=24, hi=3)]
    form = 'any'
    if kind == 'mps':
        m = env.mpa('psi', [(d,) for d in dims], dtype=env.dtype('dt'), form=form)
        dm = dm_of_mps(env, env.dense(m), N)
    elif kind == 'pmps':
        anc = [s[0] for s in env.shapes('anc', N, legs=1, maxsize=24, hi=3)]
        m = env.mpa('psi', list(zip(dims, anc)), dtype=env.dtype('dt'), form=form)
        dm = dm_of_pmps(env, env.dense(m), N)
    else:
        m = env.mpa('rho', [(d, d) for d in dims], dtype=env.dtype('dt'), form=form)
        dm = env.dense(m)
    return N, m, dm, dims


@clause('C13', ['mpsmpo.pmps_to_mpo', 'mpsmpo.mps_to_pmps', 'mpsmpo.mps_to_mpo', 'mpsmpo.pmps_to_mps',
                'mpsmpo.pmps_dm_to_array'], weight=2)
def conversions(env):
    """All conversions represent the same state"""
    kind = env.choose('kind', ['mps', 'pmps'])
    N, m, dm, dims = state(env, kind)
    mp = env.mp
    sq = [(d, d) for d in dims]
    with env.unchanged(m):
        if kind == 'mps':
            p = mp.mps_to_pmps(m)
            basic(env, p, [(d, 1) for d in dims], 'mps_to_pmps')
            env.eq(dm_of_pmps(env, env.dense(p), N), dm, 'mps_to_pmps')
            env.honest(p)
            o = mp.mps_to_mpo(m)
            basic(env, o, sq, 'mps_to_mpo')
            env.eq(env.dense(o), dm, 'mps_to_mpo')
            b = mp.pmps_to_mps(p)
            basic(env, b, [(d,) for d in dims], 'pmps_to_mps')
            env.eq(env.dense(b), env.dense(m), 'pmps_to_mps inverts mps_to_pmps')
            env.honest(b)
        else:
            p = m
            o = mp.pmps_to_mpo(m)
            basic(env, o, sq, 'pmps_to_mpo')
            env.eq(env.dense(o), dm, 'pmps_to_mpo')
            if any(s[1] != 1 for s in m.shape):
                env.raises(AssertionError, lambda: mp.pmps_to_mps(m), 'ancillas required to be trivial')
        if not env.symbolic:
            arr = mp.mpsmpo.pmps_dm_to_array(p)
            shp = [d for d in dims for _ in (0, 1) if d > 1]
            env.eq(arr, dm.reshape(shp), 'pmps_dm_to_array')
            big = [d for d in dims if d > 1]
            if big and len(set(big)) == 1:
                g = mp.mpsmpo.pmps_dm_to_array(p, global_=True)
                n = len(big)
                env.eq(g, env.np.transpose(dm.reshape(shp), [2 * i for i in range(n)] +
                                           [2 * i + 1 for i in range(n)]), 'global form')


def windows(env, N):
    """(kwargs, list of (start, stop)) in various call styles and orders"""
    style = env.choose('style', ['width', 'width+start', 'start+stop'])
    if style == 'width':
        w = env.choose('w', list(range(1, N + 1)))
        return dict(width=w), [(s, s + w) for s in range(N - w + 1)]
    k = env.choose('k', [1, 2, 3, 4])
    if style == 'width+start':
        w = env.choose('w', list(range(1, N + 1)))
        st = [env.choose('s%d' % i, list(range(N - w + 1))) for i in range(k)]
        t = env.choose('t', [list, tuple, iter])
        return dict(width=w, startsites=t(st)), [(s, s + w) for s in st]
    st = [env.choose('s%d' % i, list(range(N))) for i in range(k)]
    sp = [env.choose('e%d' % i, list(range(s + 1, N + 1))) for i, s in enumerate(st)]
    return dict(startsites=st, stopsites=sp), list(zip(st, sp))


@clause('C13', ['mpsmpo.reductions_mpo', 'mpsmpo.reductions_pmps', 'mpsmpo.reductions_mps_as_pmps',
                'mpsmpo.reductions_mps_as_mpo', 'mpsmpo.reductions', 'mpsmpo._check_reductions_args'],
        weight=4)
def reductions(env):
    """Reduced states on windows in the requested order; lazily consumed; input state unchanged"""
    kind = env.choose('kind', ['mps', 'pmps', 'mpdo'])
    N, m, dm, dims = state(env, kind)
    mp = env.mp
    kw, wins = windows(env, N)
    fun = env.choose('fun', ['direct', 'generic'])
    how = None
    frame = [m]
    if fun == 'generic':
        it, out = mp.reductions(m, kind, **kw)
    elif kind == 'mps':
        out = env.choose('as', ['pmps', 'mpdo'])
        it = mp.reductions_mps_as_pmps(m, **kw) if out == 'pmps' else mp.reductions_mps_as_mpo(m, **kw)
    elif kind == 'pmps':
        it, out = mp.reductions_pmps(m, **kw), 'pmps'
    else:
        it, out = mp.reductions_mpo(m, **kw), 'mpdo'
    env.same(out, 'mpdo' if kind == 'mpdo' else out, 'representation')
    before = env.dense(m)
    eager = env.choose('eager', [True, False])
    if eager:
        it = list(it)
        env.same(len(it), len(wins), 'number of reductions')
    else:
        it = iter(it)
    for i, (s, e) in enumerate(wins):
        red = it[i] if eager else next(it)
        keep = list(range(s, e))
        ref = ptrace(env, dm, N, keep)
        env.wellformed(red)
        env.same(len(red), e - s, 'support')
        dr = env.dense(red)
        if out == 'pmps':
            env.same(tuple(x[0] for x in red.shape), tuple(dims[s:e]), 'system dimensions')
            dr = dm_of_pmps(env, dr, e - s)
        env.eq(dr, ref, 'reduced state on %r' % (keep,))
        env.honest(red)
        env.eq(env.dense(m), before, 'state of the input unchanged')
        env.honest(m)
    if not eager:
        env.check(next(it, None) is None, 'no further reductions')


@clause('C13', ['mpsmpo.pmps_reduction'], weight=2)
def pmps_reduction(env):
    """Reduced state of a PMPS on any set of sites"""
    N, m, dm, dims = state(env, 'pmps')
    sup = env.choose('support', [[k for k in range(N) if b >> k & 1] for b in range(1, 2 ** N)])
    t = env.choose('type', [list, tuple, set])
    arg = t(sup)
    if t is list and not env.symbolic and env.bit('shuffle', .3):
        arg = [arg[i] for i in env.rng.permutation(len(arg))]
    with env.unchanged(m):
        r = env.mp.pmps_reduction(m, arg)
    env.wellformed(r)
    lo, hi = sup[0], sup[-1] + 1
    env.same(len(r), hi - lo, 'sites at the ends are removed')
    env.same(tuple(s[0] for s in r.shape),
             tuple(dims[k] if k in sup else 1 for k in range(lo, hi)), 'system dimensions')
    d = dm_of_pmps(env, env.dense(r), hi - lo)
    ref = ptrace(env, dm, N, sup)
    env.eq(d.reshape(ref.shape), ref, 'reduced state')
    env.honest(r)
    env.honest(m)


@clause('C13', ['mpsmpo._check_reductions_args', 'mpsmpo.reductions'], weight=.2)
def rejects(env):
    N, m, dm, dims = state(env, 'mpdo')
    env.raises(ValueError, lambda: env.mp.reductions(m, 'nonsense', width=1), 'unknown mode')
    env.raises(AssertionError, lambda: list(env.mp.reductions_mpo(m)), 'width required')
