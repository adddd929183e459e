from ..registry import clause
from .common import basic, site_legs_n, rand_perm, flat

DT = 'dzdzfc'


def any_chain(env, name='A', lo=1, hi=6, legs=None, uni=None, maxsize=3000, kinds=DT):
    N = env.sites(lo, hi)
    if uni is None:
        uni = env.choose('u', [True, False])
    sh = env.shapes('shape', N, legs=legs, uniform_legs=uni, maxsize=maxsize)
    return N, sh, env.mpa(name, sh, dtype=env.dtype('dt', kinds))


@clause('C04', ['mparray.MPArray.T', 'mparray.MPArray.transpose', 'mparray._local_transpose'])
def transpose(env):
    """T, transpose(), transpose(axes)"""
    op = env.choose('op', ['T', 'transpose', 'axes'])
    if op == 'axes':
        n = env.choose('legs', [1, 2, 3])
        N, sh, a = any_chain(env, legs=n, hi=5, uni=True)
        axes = rand_perm(env, 'axes', n)
        perm = [axes] * N
    else:
        N, sh, a = any_chain(env)
        perm = [tuple(range(len(s)))[::-1] for s in sh]
    da = env.dense(a)
    with env.unchanged(a):
        r = a.T if op == 'T' else (a.transpose() if op == 'transpose' else
                                   a.transpose(env.choose('t', [tuple, list])(axes)))
    legs = site_legs_n([len(s) for s in sh])
    order = [l[i] for l, p in zip(legs, perm) for i in p]
    basic(env, r, [tuple(s[i] for i in p) for s, p in zip(sh, perm)], op)
    env.eq(env.dense(r), env.np.transpose(da, order), 'transposed array')
    env.honest(r)


@clause('C04', ['mparray.MPArray.adj', 'mparray.MPArray.conj'])
def conj_adj(env):
    """conj and adj"""
    N, sh, a = any_chain(env)
    da = env.dense(a)
    op = env.choose('op', ['conj', 'adj'])
    with env.unchanged(a):
        r = getattr(a, op)()
    if op == 'conj':
        ref, rs = da.conj(), sh
    else:
        legs = site_legs_n([len(s) for s in sh])
        ref = env.np.transpose(da, [i for l in legs for i in l[::-1]]).conj()
        rs = [tuple(s)[::-1] for s in sh]
    basic(env, r, rs, op)
    env.eq(env.dense(r), ref, op)
    env.honest(r)


def _prod(s):
    n = 1
    for d in s:
        n = n * d
    return n


@clause('C04', ['mparray.MPArray.reshape', 'mparray._local_reshape', 'mparray.MPArray.ravel'])
def reshape(env):
    """reshape / ravel the legs of every site in row-major order"""
    N, sh, a = any_chain(env, hi=5)
    da = env.dense(a)
    op = env.choose('op', ['ravel', 'same', 'persite', 'prune', 'minus', 'ones'])
    if op == 'ravel':
        new = [(_prod(s),) for s in sh]
    elif op == 'prune':
        new = [tuple(d for d in s if d > 1) for s in sh]
    elif op == 'same':
        sh = [sh[0]] * N
        env.assume(env.symbolic or _prod(sh[0]) ** N <= 3000)
        a = env.mpa('A2', sh)
        da = env.dense(a)
        new = [tuple(sh[0])[::-1]] * N
    elif op == 'ones':
        new = [(1,) + tuple(s) + (1,) for s in sh]
    else:
        new = []
        for k, s in enumerate(sh):
            how = env.choose('how%d' % k, ['ravel', 'reverse', 'merge', 'ones'])
            s = tuple(s)
            new.append({'ravel': (_prod(s),), 'reverse': s[::-1], 'ones': s + (1,),
                        'merge': (s[0] * s[1],) + s[2:] if len(s) > 1 else s}[how])
    with env.unchanged(a):
        if op == 'ravel':
            r = a.ravel()
        elif op == 'prune':
            r = a.reshape('prune')
        elif op == 'same':
            env.assume(len(sh[0]) > 0)
            r = a.reshape(new[0])
        elif op == 'minus':
            arg = [tuple(n)[:-1] + (-1,) if len(n) else n for n in new]
            r = a.reshape(arg)
        else:
            r = a.reshape(env.choose('t', [list, tuple, iter])(new))
    env.wellformed(r)
    env.same(r.shape, tuple(tuple(s) for s in new), 'new shapes')
    env.eq(env.dense(r), da.reshape(flat(new)), 'reshaped array')
    env.honest(r)


@clause('C04', ['mparray.MPArray.group_sites', 'mparray.MPArray.split_sites',
                'mparray._extract_factors', 'mparray._ltens_to_array'])
def group_split(env):
    """group_sites then split_sites; both keep the dense array"""
    g = env.choose('group', [1, 2, 3])
    n = env.choose('groups', [1, 2, 3] if g < 3 else [1, 2])
    N = g * n
    p = env.choose('legs', [1, 2, 0] if g * n <= 4 else [1])
    legs = p
    if p and env.choose('different leg counts', [False, True]):
        legs = [q for j in range(n) for q in [env.choose('legs%d' % j, [1, 2, 3] if N <= 4 else [1, 2])] * g]
    sh = env.shapes('shape', N, legs=legs, maxsize=1500)
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    da = env.dense(a)
    with env.unchanged(a):
        r = a.group_sites(g)
    gs = [flat(sh[i:i + g]) for i in range(0, N, g)]
    basic(env, r, gs, 'group_sites')
    env.eq(env.dense(r), da, 'grouping keeps the array')
    env.honest(r)
    if p == 0 and g > 1:
        return
    with env.unchanged(r):
        s = r.split_sites(g)
    basic(env, s, sh, 'split_sites')
    env.eq(env.dense(s), da, 'splitting inverts grouping')
    env.honest(s)


@clause('C04', ['mparray.MPArray.split_sites', 'mparray.MPArray.group_sites'])
def split_group(env):
    """split_sites of any chain, then group_sites; misfits rejected"""
    g = env.choose('group', [1, 2, 3])
    k = env.choose('legs after', [1, 2] if g < 3 else [1])
    N = env.sites(1, 3)
    ks = [k] * N
    if env.choose('different leg counts', [False, True]):
        ks = [env.choose('k%d' % j, [1, 2]) for j in range(N)]
    sh = env.shapes('shape', N, legs=[g * x for x in ks], maxsize=1500, hi=2 if N * g * k > 6 else 3)
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dz'))
    da = env.dense(a)
    with env.unchanged(a):
        r = a.split_sites(g)
    ss = [tuple(s[i * x:(i + 1) * x]) for s, x in zip(sh, ks) for i in range(g)]
    basic(env, r, ss, 'split_sites')
    env.eq(env.dense(r), da, 'splitting keeps the array')
    env.honest(r)
    b = r.group_sites(g)
    basic(env, b, sh, 'group_sites')
    env.eq(env.dense(b), da, 'grouping inverts splitting')
    if any((g * x) % (g + 1) for x in ks):
        env.raises((AssertionError, ValueError), lambda: a.split_sites(g + 1), 'split misfit')
    if N % (g + 1):
        env.raises((AssertionError, ValueError), lambda: a.group_sites(g + 1), 'group misfit')


@clause('C04', ['mparray.MPArray.vleg2leg', 'mparray.MPArray.leg2vleg'])
def bond_to_legs(env):
    """vleg2leg exposes the bond as last/first leg, leg2vleg inverts it"""
    N, sh, a = any_chain(env, lo=2, hi=5, maxsize=500)
    pos = env.choose('pos', list(range(N - 1)))
    da = env.dense(a)
    with env.unchanged(a):
        r = a.vleg2leg(pos)
    lt = list(a.lt)
    D = lt[pos].shape[-1]
    rs = [tuple(s) for s in sh]
    rs[pos] = rs[pos] + (D,)
    rs[pos + 1] = (D,) + rs[pos + 1]
    basic(env, r, rs, 'vleg2leg')
    left = env.dense(lt[:pos + 1], virtual=True)[0]
    right = env.dense(lt[pos + 1:], virtual=True)[..., 0]
    env.eq(env.dense(r), env.np.tensordot(left, right, axes=((), ())), 'product of both halves')
    env.same(r.ranks[pos], 1, 'rank at the opened bond')
    env.honest(r)
    with env.unchanged(r):
        b = r.leg2vleg(pos)
    basic(env, b, sh, 'leg2vleg')
    env.eq(env.dense(b), da, 'leg2vleg inverts vleg2leg')
    env.honest(b)


@clause('C04', ['mparray.MPArray.leg2vleg'])
def legs_to_bond(env):
    """leg2vleg contracts last leg of pos with first leg of pos + 1"""
    N = env.sites(2, 4)
    pos = env.choose('pos', list(range(N - 1)))
    sh = env.shapes('shape', N, legs=env.choose('legs', [0, 1, 2]), maxsize=200)
    D = env.dim('D', 1, 4)
    full = [tuple(s) for s in sh]
    full[pos] += (D,)
    full[pos + 1] = (D,) + full[pos + 1]
    l1 = env.mpa('L', full[:pos + 1], dtype=env.dtype('d1', 'dz'), form=None)
    l2 = env.mpa('R', full[pos + 1:], dtype=env.dtype('d2', 'dz'), form=None)
    a = env.mp.chain([l1, l2])
    with env.unchanged(a):
        r = a.leg2vleg(pos)
    basic(env, r, sh, 'leg2vleg')
    env.eq(env.dense(r), env.np.tensordot(env.dense(l1), env.dense(l2), axes=((-1,), (0,))),
           'contraction of the pair of legs')
    env.honest(r)


@clause('C04', ['mparray.MPArray.split'])
def split(env):
    """split cuts the chain at a bond"""
    N, sh, a = any_chain(env, lo=1, hi=5, maxsize=500)
    pos = env.choose('pos', list(range(-2, N + 2)))
    da = env.dense(a)
    lt = list(a.lt)
    with env.unchanged(a):
        l, r = a.split(pos)
    if pos < 0:
        env.check(l is None, 'no left part')
        basic(env, r, sh, 'right part')
        env.eq(env.dense(r), da, 'right part is everything')
        env.honest(r)
    elif pos >= N - 1:
        env.check(r is None, 'no right part')
        basic(env, l, sh, 'left part')
        env.eq(env.dense(l), da, 'left part is everything')
        env.honest(l)
    else:
        D = lt[pos].shape[-1]
        basic(env, l, [tuple(s) for s in sh[:pos]] + [tuple(sh[pos]) + (D,)], 'left part')
        basic(env, r, [(D,) + tuple(sh[pos + 1])] + [tuple(s) for s in sh[pos + 2:]], 'right part')
        env.eq(env.np.tensordot(env.dense(l), env.dense(r), axes=((-1,), (0,))), da,
               'parts contracted over the new legs')
        env.honest(l)
        env.honest(r)


@clause('C04', ['mparray.MPArray.reverse'])
def reverse(env):
    """reverse mirrors the chain, legs of each site keep their order"""
    N, sh, a = any_chain(env)
    da = env.dense(a)
    with env.unchanged(a):
        r = a.reverse()
    legs = site_legs_n([len(s) for s in sh])
    basic(env, r, sh[::-1], 'reverse')
    env.eq(env.dense(r), env.np.transpose(da, [i for l in legs[::-1] for i in l]), 'mirrored')
    env.honest(r)
    b = r.reverse()
    env.eq(env.dense(b), da, 'reversing twice')
    env.honest(b)


@clause('C04', ['mparray.chain'])
def chain(env):
    """chain concatenates (tensor product)"""
    k = env.choose('k', [1, 2, 3])
    ms, shs = [], []
    for i in range(k):
        n = env.choose('n%d' % i, [1, 2, 3])
        sh = env.shapes('s%d' % i, n, uniform_legs=env.choose('u%d' % i, [True, False]), maxsize=30)
        env.assume(sum(map(len, sh)) <= 8)
        ms.append(env.mpa('M%d' % i, sh, dtype=env.dtype('d%d' % i, 'dz')))
        shs += list(sh)
    ds = [env.dense(m) for m in ms]
    with env.unchanged(*ms):
        r = env.mp.chain(ms if env.choose('l', [True, False]) else iter(ms))
    ref = ds[0]
    for d in ds[1:]:
        ref = env.np.tensordot(ref, d, axes=((), ()))
    basic(env, r, shs, 'chain')
    env.eq(env.dense(r), ref, 'tensor product')
    env.honest(r)
    env.raises(ValueError, lambda: env.mp.chain([]), 'empty list rejected')
