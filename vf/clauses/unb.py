"""Contracts for chains of any length (see vf/sym/unb.py)."""
from ..registry import unbounded

M = 'mparray.'


def two(env, legs_b=None, form='any'):
    """Two arbitrary chains with the same legs"""
    N = env.length()
    n, ta, tb, which, sign = env.choose('case', [
        (1, float, complex, 'a', 1), (1, float, complex, 'b', -1), (2, complex, float, 'b', 1),
        (2, complex, float, 'a', -1), (0, complex, complex, 'a', 1), (0, complex, complex, 'b', 1)])
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, ta, form if which == 'a' else None)
    b, B = env.chain('b', N, legs, tb, form if which == 'b' else None)
    return N, legs, a, A, b, B, sign


def one(env, options=(1, 2, 0), equal=None):
    N = env.length()
    n, t = env.choose('case', [(m, t) for m, t in zip(options, [complex, float, complex, complex])])
    legs = env.legs('d', n, equal)
    a, A = env.chain('a', N, legs, t)
    return N, legs, a, A


# -- C02 -----------------------------------------------------------------------

@unbounded('C02', [M + 'MPArray.__add__', M + 'MPArray.__sub__', M + '_local_add'], 'add_sub')
def add_any_length(env):
    """a + b and a - b"""
    part = env.aspect('form')
    N, legs, a, A, b, B, sign = two(env)
    s = a + b if sign == 1 else a - b
    if part == 'form':
        return env.honest(s)
    l = 0 if B.form is None else B.form[0]

    def phi(k):
        p, q = env.prefix(A, k), env.prefix(B, k)
        if k == N:
            return p + sign * q
        # the factor is at the first site which is not left-canonical
        return env.np.concatenate((p, -q if sign == -1 and k > l else q), axis=-1)
    env.induct(s, phi, 'sum')
    env.shape_is(s, legs, 'shape')
    env.same_sites(a, A, 'operand unchanged')
    env.same_sites(b, B, 'operand unchanged')


@unbounded('C02', [M + 'MPArray.__mul__', M + 'MPArray.__rmul__', M + 'MPArray.__imul__', M + 'MPArray.__truediv__',
                   M + 'MPArray.__itruediv__', M + 'MPArray.__neg__', M + 'MPArray.__pos__'], 'scale')
def scale_any_length(env):
    """c * a, a / c, -a, +a and the in-place forms"""
    part = env.aspect('form')
    c = env.scalar('c', complex)
    op, n = env.choose('op', [('mul', 1), ('rmul', 2), ('div', 1), ('neg', 1), ('pos', 1), ('imul', 1), ('imul', 2),
                              ('idiv', 0)])
    N, legs, a, A = one(env, (n,))
    b = a
    if op in ('imul', 'idiv'):
        b = a.copy()
    if op == 'mul':
        s = a * c
    elif op == 'rmul':
        s = c * a
    elif op == 'div':
        s = a / c
    elif op == 'neg':
        s, c = -a, -1
    elif op == 'pos':
        s, c = +a, 1
    elif op == 'imul':
        b *= c
        s = b
    else:
        b /= c
        s = b
    if part == 'form':
        return env.honest(s)
    f = 1 / c if op in ('div', 'idiv') else c
    l = A.form[0]
    env.induct(s, lambda k: env.prefix(A, k) * (f if k > l else 1), 'scaled')
    env.shape_is(s, legs, 'shape')
    env.same_sites(a, A, 'operand unchanged')


@unbounded('C02', [M + 'sumup', M + '_local_add'], 'sum_many')
def sumup_any_length(env):
    """Weighted sums of up to three arrays"""
    part = env.aspect('form')
    N = env.length()
    n, m, ws, form = env.choose('case', [(1, 1, None, None), (2, 1, 'weights', 'any'), (2, 2, None, None),
                                         (3, 1, 'weights', None), (3, 2, None, None)])
    legs = env.legs('d', m)
    cs = [env.chain('a', N, legs, complex if i else float, form if i == 0 else None) for i in range(n)]
    if ws is not None:
        ws = [env.scalar('w%d' % i, complex) for i in range(n)]
    s = env.mp.sumup([x for x, _ in cs], weights=ws) if ws is not None else env.mp.sumup([x for x, _ in cs])
    if part == 'form':
        return env.honest(s)

    def phi(k):
        ps = [env.prefix(c, k) * (1 if ws is None else ws[i]) for i, (_, c) in enumerate(cs)]
        if k == N:
            r = ps[0]
            for p in ps[1:]:
                r = r + p
            return r
        return env.np.concatenate(ps, axis=-1)
    env.induct(s, phi, 'sum')
    env.shape_is(s, legs, 'shape')


# -- C03 -----------------------------------------------------------------------

def bonds(env, x, i, j):
    """Combine the axes i and j to a last axis"""
    n = len(x.shape)
    i, j = i % n, j % n
    x = x.transpose([m for m in range(n) if m not in (i, j)] + [i, j])
    s = x.shape
    return x.reshape(s[:-2] + (s[-2] * s[-1],))


@unbounded('C03', [M + 'dot', M + '_local_dot'], 'dot')
def dot_any_length(env):
    """dot over one or two pairs of legs"""
    part = env.aspect('form')
    N = env.length()
    na, nb, ax = env.choose('case', [(2, 2, (-1, 0)), (2, 1, (-1, 0)), (1, 2, (0, 0)), (2, 2, (0, 1)), (2, 2, ((0, 1), (1, 0))),
                                     (1, 1, (0, 0)), (2, 2, ((0, 1), (0, 1)))])
    la = env.legs('d', na)
    x, y = [((i,) if isinstance(i, int) else i) for i in ax]
    x, y = [i % na for i in x], [i % nb for i in y]
    lb0 = env.legs('e', nb)
    lb = la.of(env, *[(la, x[y.index(j)]) if j in y else (lb0, j) for j in range(nb)])
    a, A = env.chain('a', N, la, complex)
    b, B = env.chain('b', N, lb, float, None)
    s = env.mp.dot(a, b, axes=ax)
    if part == 'form':
        return env.honest(s)

    def phi(k):
        r = env.np.tensordot(env.prefix(A, k), env.prefix(B, k), (x, y))
        return bonds(env, r, na - len(x), -1)
    env.induct(s, phi, 'dot')
    env.same_sites(a, A, 'operand unchanged')
    env.same_sites(b, B, 'operand unchanged')


@unbounded('C03', [M + 'localouter', M + '_local_dot'], 'localouter')
def localouter_any_length(env):
    """localouter: legs of a, then of b on every site"""
    part = env.aspect('form')
    N = env.length()
    la, lb = env.legs('d', env.legcount('a')), env.legs('e', env.legcount('b', (1, 2)))
    a, A = env.chain('a', N, la, complex)
    b, B = env.chain('b', N, lb, complex, None)
    s = env.mp.localouter(a, b)
    if part == 'form':
        return env.honest(s)

    def phi(k):
        r = env.np.tensordot(env.prefix(A, k), env.prefix(B, k), ((), ()))
        return bonds(env, r, la.n, -1)
    env.induct(s, phi, 'outer product')


# -- C04 -----------------------------------------------------------------------

@unbounded('C04', [M + 'MPArray.T', M + 'MPArray.transpose', M + '_local_transpose', M + 'MPArray.conj',
                   M + 'MPArray.adj', M + 'MPArray.reverse', M + 'MPArray.copy'], 'transpose')
def local_rearrangements_any_length(env):
    """T, transpose(axes), conj, adj, copy"""
    part = env.aspect('form')
    N, legs, a, A = one(env, options=(1, 2, 3, 0))
    n = legs.n
    op = env.choose('op', ['T', 'conj', 'adj', 'copy', 'transpose'] + ['axes'] * (n > 1))
    rev = list(range(n))[::-1]
    axes = rev
    conj = op in ('conj', 'adj')
    if op == 'T':
        s = a.T
    elif op == 'conj':
        s, axes = a.conj(), list(range(n))
    elif op == 'adj':
        s = a.adj()
    elif op == 'copy':
        s, axes = a.copy(), list(range(n))
    elif op == 'transpose':
        s = a.transpose()
    else:
        axes = list(env.choose('axes', [(1, 0)] if n == 2 else [(1, 2, 0), (0, 2, 1), (2, 0, 1)]))
        s = a.transpose(tuple(axes))
    if part == 'form':
        return env.honest(s)

    def phi(k):
        p = env.prefix(A, k).transpose(axes + [n])
        return p.conj() if conj else p
    env.induct(s, phi, 'rearranged')
    env.same_sites(a, A, 'operand unchanged')


@unbounded('C04', [M + 'MPArray.reverse'], 'reverse')
def reverse_any_length(env):
    """The order of the sites is reversed, the order of the legs of each site is kept"""
    part = env.aspect('form')
    N, legs, a, A = one(env, options=(1, 2))
    s = a.reverse()
    if part == 'form':
        return env.honest(s)
    n = legs.n
    env.same(len_of(s), N, 'length')
    at = env.sites_of(s)
    env.forall(0, N, lambda k: env.eq(at(k), A.site(N - 1 - k).transpose([n + 1] + list(range(1, n + 1)) + [0]),
                                      'tensor from the mirrored site, bonds exchanged'))
    env.same_sites(a, A, 'operand unchanged')


def len_of(s):
    return type(s).__len__(s)


@unbounded('C04', [M + 'MPArray.reshape', M + 'MPArray.ravel', M + '_local_reshape'], 'reshape')
def reshape_any_length(env):
    """ravel and reshape with the same or with different new shapes of the sites"""
    part = env.aspect('form')
    N = env.length()
    op = env.choose('op', ['ravel', 'split'])
    legs = env.legs('d', 2)
    a, A = env.chain('a', N, legs, complex)
    if op == 'ravel':
        s = a.ravel()
    else:
        a, A0 = a.ravel(), A
        s = a.reshape(env.site_list(N, lambda i: tuple(legs.dim(i, j) for j in range(2))))
    if part == 'form':
        return env.honest(s)
    at = env.sites_of(s)

    def site(k):
        t = A.site(k)
        if op == 'ravel':
            t = t.reshape((t.shape[0], t.shape[1] * t.shape[2], t.shape[3]))
        env.eq(at(k), t, 'legs of the site in row-major order')
    env.same(len_of(s), N, 'length')
    env.forall(0, N, site)


@unbounded('C04', [M + 'chain'], 'chain')
def chain_any_length(env):
    """Concatenation: the tensors of all arguments in order"""
    part = env.aspect('form')
    N, K = env.length('N'), env.length('K')
    legs = env.legs('d', env.legcount('a', (1, 2)))
    a, A = env.chain('a', N, legs, complex)
    b, B = env.chain('b', K, legs, float)
    s = env.mp.chain([a, b])
    if part == 'form':
        return env.honest(s)
    env.same(len_of(s), N + K, 'length')
    at = env.sites_of(s)
    env.forall(0, N, lambda k: env.eq(at(k), A.site(k), 'first chain'))
    env.forall(0, K, lambda k: env.eq(at(N + k), B.site(k), 'second chain'))


# -- C05 -----------------------------------------------------------------------

@unbounded('C05', [M + 'MPArray.sum'], 'leg_sum')
def sum_any_length(env):
    """Sum over one leg of all sites"""
    part = env.aspect('form')
    N = env.length()
    n = env.choose('a.legs', [2, 3])
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, complex)
    ax = env.choose('axes', [0, 1, -1, (0, 1)] if n == 3 else [0, 1, -1, ()])
    s = a.sum(ax)
    if part == 'form':
        return env.honest(s)
    t = tuple(x % n for x in ((ax,) if isinstance(ax, int) else ax))
    env.induct(s, lambda k: env.prefix(A, k).sum(t) if t else env.prefix(A, k), 'sum over legs')


@unbounded('C05', [M + 'MPArray.get'], 'get')
def get_any_length(env):
    """Fixes the first leg of every site"""
    part = env.aspect('form')
    N = env.length()
    n = env.choose('a.legs', [1, 2])
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, complex)
    ix = env.indices(N, lambda i: legs.dim(i, 0))
    s = a.get(ix)
    if part == 'form':
        return env.honest(s)
    env.same(len_of(s), N, 'length')
    at = env.sites_of(s)
    env.forall(0, N, lambda k: env.eq(at(k), A.site(k)[:, ix[k]], 'element of the first leg'))
    env.same_sites(a, A, 'operand unchanged')


# -- bonds to legs and back, cutting -------------------------------------------------

def cut_chain(env, part='form'):
    """A chain of at least two sites and an arbitrary bond"""
    N = env.length(lo=2)
    n = env.choose('a.legs', [1, 2] if part == 'value' else [1])
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, complex)
    pos = env.index('pos', 0, N - 1)
    return N, legs, a, A, pos


@unbounded('C04', [M + 'MPArray.vleg2leg', M + 'MPArray.leg2vleg'], 'bond_to_legs')
def vleg2leg_any_length(env):
    """The bond becomes the last leg of one and the first leg of the next site"""
    part = env.aspect('form')
    N, legs, a, A, pos = cut_chain(env, part)
    s = a.vleg2leg(pos)
    if part == 'form':
        return env.honest(s)
    at = env.sites_of(s)

    def site(k):
        t = A.site(k)
        if k == pos:
            t = t[..., None]
        elif k == pos + 1:
            t = t[None]
        env.eq(at(k), t, 'tensor')
    env.same(len_of(s), N, 'length')
    env.forall(0, N, site)
    back = s.leg2vleg(pos)
    env.same_sites(back, A, 'bond to legs and back')
    env.same_sites(a, A, 'operand unchanged')


@unbounded('C04', [M + 'MPArray.leg2vleg'], 'bond_to_legs')
def leg2vleg_any_length(env):
    """Form of the inverse operation"""
    N, legs, a, A, pos = cut_chain(env)
    s = a.vleg2leg(pos).leg2vleg(pos)
    env.honest(s)


@unbounded('C04', [M + 'MPArray.split'], 'split')
def split_any_length(env):
    """The chain is cut at an arbitrary bond"""
    part = env.aspect('form')
    N, legs, a, A, pos = cut_chain(env, part)
    l, r = a.split(pos)
    if part == 'form':
        env.side(lambda: env.honest(l, 'left part'))
        return env.honest(r, 'right part')
    env.same((len_of(l), len_of(r)), (pos + 1, N - 1 - pos), 'lengths')
    al, ar = env.sites_of(l), env.sites_of(r)
    env.forall(0, pos + 1, lambda k: env.eq(al(k), A.site(k) if k < pos else A.site(pos)[..., None], 'left part'))
    env.forall(0, N - 1 - pos, lambda k: env.eq(ar(k), A.site(pos + 1 + k) if k > 0 else A.site(pos + 1)[None],
                                                'right part'))
    env.same_sites(a, A, 'operand unchanged')


# -- C01 -----------------------------------------------------------------------

@unbounded('C01', [M + 'MPArray.from_kron', M + 'MPArray.shape', M + 'MPArray.ranks', M + 'MPArray.ndims'], 'kron')
def from_kron_any_length(env):
    """Site k holds factor k with bonds of size one; length, shape, ranks and leg counts"""
    N = env.length()
    n = env.choose('a.legs', [1, 2])
    legs = env.legs('d', n)
    f = env.factors('f', N, legs, complex)
    s = env.mp.MPArray.from_kron(f)
    env.honest(s)
    env.same(len_of(s), N, 'length')
    at = env.sites_of(s)
    env.forall(0, N, lambda k: env.eq(at(k), f[k][None, ..., None], 'factor of the site'))
    env.forall(0, N, lambda k: env.same(tuple(s.shape[k]), tuple(legs.dim(k, j) for j in range(n)), 'shape'))
    env.forall(0, N, lambda k: env.same(s.ndims[k], n, 'number of legs'))
    env.forall(0, N - 1, lambda k: env.same(s.ranks[k], 1, 'rank'))
    env.same((len_of(s.shape), len_of(s.ndims), len_of(s.ranks)), (N, N, N - 1), 'number of entries')


@unbounded('C01', [M + 'MPArray.shape', M + 'MPArray.ranks', M + 'MPArray.ndims', M + 'MPArray.__len__'],
           'dense_of_any')
def reported_any_length(env):
    """Length, site shapes, ranks and numbers of legs of any chain"""
    N = env.length()
    n = env.legcount('a', (1, 2, 0))
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, complex)
    env.same(len_of(a), N, 'length')
    sh, rk, nd = a.shape, a.ranks, a.ndims
    env.same((len_of(sh), len_of(nd), len_of(rk)), (N, N, N - 1), 'number of entries')
    env.forall(0, N, lambda k: env.same(tuple(sh[k]), tuple(legs.dim(k, j) for j in range(n)), 'shape'))
    env.forall(0, N, lambda k: env.same(nd[k], n, 'number of legs'))
    env.forall(0, N - 1, lambda k: env.same(rk[k], A.bond(k + 1), 'rank'))


@unbounded('C01', [M + 'MPArray.to_array', M + '_ltens_to_array'], 'dense_of_any')
def to_array_any_length(env):
    """The dense array is the contraction of all local tensors, legs in the order of the sites"""
    env.forms_used = False
    N = env.length()
    n, t = env.choose('case', [(1, complex), (2, float), (0, complex)])
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, t)
    env.fold(N, lambda j: env.dense_prefix(A, j), 'contraction of the first sites')
    x = a.to_array()
    if N == 1:
        env.eq(x, A.site(0)[0, ..., 0], 'dense array of one site')
    else:
        env.eq(x.arr, env.dense_prefix(A, N).arr[0, :, 0], 'dense array')
    env.same_sites(a, A, 'operand unchanged')


# -- inner products -------------------------------------------------------------

@unbounded('C03', [M + 'inner', M + '_local_dot', M + '_ltens_to_array'], 'inner')
def inner_any_length(env):
    """sum of conj(a) * b over all legs"""
    env.forms_used = False
    N = env.length()
    n, ta, tb = env.choose('case', [(1, complex, complex), (2, complex, float), (0, float, complex)])
    legs = env.legs('d', n)
    a, A = env.chain('a', N, legs, ta)
    b, B = env.chain('b', N, legs, tb, None)
    ax = list(range(n))

    def spec(j):
        r = env.np.tensordot(env.prefix(A, j).conj(), env.prefix(B, j), (ax, ax))
        return r.reshape((1, r.shape[0] * r.shape[1]))
    env.fold(N, spec, 'inner product of the first sites')
    x = env.mp.inner(a, b)
    env.eq(x, env.np.tensordot(env.prefix(A, N).conj(), env.prefix(B, N), (ax, ax))[0, 0], 'inner product')
    env.same_sites(a, A, 'operand unchanged')
    env.same_sites(b, B, 'operand unchanged')


@unbounded('C03', [M + 'sandwich', 'linalg._eig_leftvec_add'], 'sandwich')
def sandwich_any_length(env):
    """<psi2| H |psi>"""
    env.forms_used = False
    N = env.length()
    legs = env.legs('d', 2)
    two = env.choose('second state', [False, True])
    H, h = env.chain('H', N, legs, complex, None)
    v, V = env.chain('v', N, legs.of(env, (legs, 1)), complex, None)
    w, W = v, V
    if two:
        w, W = env.chain('w', N, legs.of(env, (legs, 0)), complex, None)
    else:
        legs.equal = [0, 0]

    def spec(j):
        if j == 0:
            return env.np.ones((1, 1, 1))
        x = env.np.tensordot(env.prefix(V, j), env.prefix(h, j), (0, 1))
        return env.np.tensordot(x, env.prefix(W, j).conj(), (1, 0))
    env.fold(N, spec, 'sandwich of the first sites')
    x = env.mp.sandwich(H, v, w) if two else env.mp.sandwich(H, v)
    y = env.np.tensordot(env.prefix(W, N).conj(), env.prefix(h, N), (0, 0))
    env.eq(x, env.np.tensordot(y, env.prefix(V, N), (1, 0))[0, 0, 0], 'sandwich')
