from ..registry import clause
from .common import basic, site_legs_n, contract

DT = 'dzdzf'


def make_pair(env, N, shared_axes=True):
    """Shapes of two chains with contractible legs: returns sa, sb, axes"""
    na, nb = env.choose('legsA', [1, 2, 3]), env.choose('legsB', [1, 2, 3])
    kmax = min(na, nb, 2)
    k = env.choose('contracted', list(range(1, kmax + 1)) + ([0] if env.choose('zero', [False] * 5 + [True]) else []))
    from .common import rand_perm
    axa = list(rand_perm(env, 'axA', na))[:k]
    axb = list(rand_perm(env, 'axB', nb))[:k]
    sa = env.shapes('sA', N, legs=na, maxsize=300)
    sb0 = env.shapes('sB', N, legs=nb, maxsize=300)
    sb = []
    for s, t in zip(sa, sb0):
        t = list(t)
        for x, y in zip(axa, axb):
            t[y] = s[x]
        sb.append(tuple(t))
    # user facing axes: possibly negative
    ua = [x - na if env.choose('neg', [False, True]) else x for x in axa]
    ub = [x - nb if env.choose('neg', [False, True]) else x for x in axb]
    if k == 1 and env.choose('plain', [True, False]):
        axes = (ua[0], ub[0])
    else:
        t = env.choose('axtype', [tuple, list])
        axes = (t(ua), t(ub))
    return sa, sb, axa, axb, axes


def ref_dot(env, da, sa, axa, db, sb, axb, start=0):
    """Dense site-wise contraction; b starts at site start of a"""
    la, lb = site_legs_n([len(s) for s in sa]), site_legs_n([len(s) for s in sb])
    laba = list(range(da.ndim))
    labb = [1000 + i for i in range(db.ndim)]
    out = []
    for k in range(len(sa)):
        if start <= k < start + len(sb):
            bl = lb[k - start]
            for x, y in zip(axa, axb):
                labb[bl[y]] = laba[la[k][x]]
            out += [laba[i] for j, i in enumerate(la[k]) if j not in axa]
            out += [labb[i] for j, i in enumerate(bl) if j not in axb]
        else:
            out += [laba[i] for i in la[k]]
    return contract(env, [da, db], [laba, labb], out)


@clause('C03', ['mparray.dot', 'mparray._local_dot'], weight=2)
def dot(env):
    """dot over arbitrary legs"""
    N = env.sites(1, 4)
    sa, sb, axa, axb, axes = make_pair(env, N)
    a = env.mpa('A', sa, dtype=env.dtype('dtA', DT))
    b = env.mpa('B', sb, dtype=env.dtype('dtB', DT))
    da, db = env.dense(a), env.dense(b)
    with env.unchanged(a, b):
        if axes == (-1, 0) and env.choose('default axes', [True, False]):
            r = env.mp.dot(a, b)
        else:
            r = env.mp.dot(a, b, axes=axes)
    shapes = [tuple(d for j, d in enumerate(s) if j not in axa) +
              tuple(d for j, d in enumerate(t) if j not in axb) for s, t in zip(sa, sb)]
    basic(env, r, shapes, 'dot')
    env.eq(env.dense(r), ref_dot(env, da, sa, axa, db, sb, axb), 'site-wise contraction')
    env.honest(r)


@clause('C03', ['mparray.partialdot', 'mparray._local_dot'], weight=2)
def partialdot(env):
    """partialdot: shorter chain starts at start_at, order of factors kept"""
    N = env.sites(1, 4)
    M = env.choose('M', list(range(1, N + 1)))
    start = env.choose('start', list(range(0, N - M + 1)))
    sa, sb, axa, axb, axes = make_pair(env, N)
    first = True if M == N else env.choose('longer first', [True, False])
    dt = 'dz'
    if first:
        sb = sb[start:start + M]
        a, b = env.mpa('A', sa, dtype=env.dtype('dtA', dt)), env.mpa('B', sb, dtype=env.dtype('dtB', dt))
    else:
        sa = sa[start:start + M]
        a, b = env.mpa('A', sa, dtype=env.dtype('dtA', dt)), env.mpa('B', sb, dtype=env.dtype('dtB', dt))
    da, db = env.dense(a), env.dense(b)
    with env.unchanged(a, b):
        r = env.mp.partialdot(a, b, start, axes=axes)
    if first:
        ref = ref_dot(env, da, sa, axa, db, sb, axb, start)
    else:
        la, lb = site_legs_n([len(s) for s in sa]), site_legs_n([len(s) for s in sb])
        laba, labb = list(range(da.ndim)), [1000 + i for i in range(db.ndim)]
        out = []
        for k in range(N):
            if start <= k < start + M:
                al = la[k - start]
                for x, y in zip(axa, axb):
                    laba[al[x]] = labb[lb[k][y]]
                out += [laba[i] for j, i in enumerate(al) if j not in axa]
                out += [labb[i] for j, i in enumerate(lb[k]) if j not in axb]
            else:
                out += [labb[i] for i in lb[k]]
        ref = contract(env, [da, db], [laba, labb], out)
    env.wellformed(r)
    env.same(len(r), N, 'length of the longer chain')
    env.eq(env.dense(r), ref, 'partial contraction')
    env.honest(r)


@clause('C03', ['mparray.localouter', 'mparray._local_dot'])
def localouter(env):
    """localouter: legs of a then of b at every site"""
    N = env.sites(1, 4)
    sa = env.shapes('sA', N, uniform_legs=env.choose('u', [True, False]), maxsize=200)
    sb = env.shapes('sB', N, uniform_legs=env.choose('v', [True, False]), maxsize=50)
    env.assume(sum(map(len, sa)) + sum(map(len, sb)) <= 20)
    a = env.mpa('A', sa, dtype=env.dtype('dtA', DT))
    b = env.mpa('B', sb, dtype=env.dtype('dtB', DT))
    da, db = env.dense(a), env.dense(b)
    with env.unchanged(a, b):
        r = env.mp.localouter(a, b)
    basic(env, r, [tuple(s) + tuple(t) for s, t in zip(sa, sb)], 'localouter')
    env.eq(env.dense(r), ref_dot(env, da, sa, [], db, sb, []), 'outer product')
    env.honest(r)


@clause('C03', ['mparray.inner', 'mparray._local_dot', 'mparray._local_ravel'])
def inner(env):
    """inner(a, b) = sum conj(a) b"""
    N = env.sites(1, 6)
    sh = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]), maxsize=1000)
    a = env.mpa('A', sh, dtype=env.dtype('dtA', DT))
    b = env.mpa('B', sh, dtype=env.dtype('dtB', DT))
    da, db = env.dense(a), env.dense(b)
    with env.unchanged(a, b):
        r = env.mp.inner(a, b)
    l = list(range(da.ndim))
    env.eq(r, contract(env, [da.conj(), db], [l, l], []), 'inner product')


@clause('C03', ['mparray.sandwich', 'linalg._eig_leftvec_add'])
def sandwich(env):
    """<mps2|mpo|mps>, legs (out, in) of the operator"""
    N = env.sites(1, 5)
    so = env.shapes('sO', N, legs=2, maxsize=500)
    two = env.choose('two states', [True, False])
    if not two:
        so = [(s[0], s[0]) for s in so]
    o = env.mpa('O', so, dtype=env.dtype('dtO', DT))
    s1 = env.mpa('S', [(s[1],) for s in so], dtype=env.dtype('dtS', DT))
    s2 = env.mpa('T', [(s[0],) for s in so], dtype=env.dtype('dtT', DT)) if two else s1
    do, d1, d2 = env.dense(o), env.dense(s1), env.dense(s2)
    with env.unchanged(o, s1, s2):
        r = env.mp.sandwich(o, s1, s2) if two else env.mp.sandwich(o, s1)
    lo = list(range(2 * N))
    ref = contract(env, [d2.conj(), do, d1], [lo[0::2], lo, lo[1::2]], [])
    env.eq(r, ref, 'expectation value', scale=1. if env.symbolic else max(1., float(abs(do).sum())))


@clause('C03', ['special.inner_prod_mps'])
def inner_product_state(env):
    """Fast inner product with a product state"""
    N = env.sites(1, 6)
    sh = env.shapes('shape', N, legs=1, maxsize=1000)
    a = env.mpa('A', sh, ranks=[1] * (N - 1), dtype=env.dtype('dtA', DT), form=None)
    b = env.mpa('B', sh, dtype=env.dtype('dtB', DT))
    da, db = env.dense(a), env.dense(b)
    with env.unchanged(a, b):
        r = env.mp.special.inner_prod_mps(a, b)
    l = list(range(da.ndim))
    env.eq(r, contract(env, [da.conj(), db], [l, l], []), 'inner product')
    if not env.symbolic and N > 1 and env.choose('rej', [True, False]):
        c = env.mpa('C', sh, ranks=[2] * (N - 1), form=None)
        env.raises(AssertionError, lambda: env.mp.special.inner_prod_mps(c, b), 'rank > 1 rejected')


@clause('C03', ['mparray.dot', 'mparray.inner', 'mparray.localouter'], weight=.3)
def rejects(env):
    """Incompatible lengths are rejected"""
    N, M = env.sites(1, 4), env.choose('M', [1, 2, 3, 4, 5])
    env.assume(N != M)
    d = env.dim('d')
    a, b = env.mpa('A', [(d, d)] * N), env.mpa('B', [(d, d)] * M)
    op = env.choose('op', ['dot', 'inner', 'localouter'])
    env.raises((AssertionError, ValueError), lambda: getattr(env.mp, op)(a, b), 'length mismatch rejected')
