from ..registry import clause
from .common import flat, basic, rand_perm


def check_meta(env, m, shapes, dtype, label):
    basic(env, m, shapes, label)
    lts = list(m.lt)
    env.same(m.ranks, tuple(t.shape[-1] for t in lts[:-1]), label + ': ranks')
    size = 0
    for t in lts:
        n = 1
        for d in t.shape:
            n = n * d
        size = size + n
    env.same(m.size, size, label + ': size')
    if dtype is not None:
        env.same(env.np.dtype(m.dtype), env.np.dtype(dtype), label + ': dtype')
    env.same(m.lt.shape, tuple(t.shape for t in lts), label + ': local tensor shapes')


@clause('C01', ['mparray.MPArray.from_array', 'mparray._extract_factors', 'mparray.MPArray.to_array',
                'mparray._ltens_to_array', 'utils.extmath.matdot'])
def roundtrip_local(env):
    """from_array(A, ndims).to_array() == A, leg counts per site arbitrary"""
    N = env.sites(1, 5)
    uni = env.choose('uniform leg count', [True, False])
    shapes = env.shapes('shape', N, legs=env.choose('legs', [1, 2, 3]) if uni else None,
                        uniform_legs=uni)
    env.assume(N == 1 or len(shapes[-1]) > 0)
    dtype = env.dtype('dtype', 'ddzzfci')
    a = env.tensor('A', flat(shapes), dtype)
    a0 = a.copy()
    nd = [len(s) for s in shapes]
    if uni:
        spec = env.choose('spec', ['int', 'list', 'iter', 'tuple'])
    else:
        spec = env.choose('spec', ['list', 'iter', 'tuple'])
    if N == 1 and uni and env.choose('default', [True, False]):
        m = env.mp.MPArray.from_array(a)
    else:
        arg = {'int': nd[0], 'list': nd, 'iter': iter(nd), 'tuple': tuple(nd)}[spec]
        m = env.mp.MPArray.from_array(a, arg)
    isint = env.np.dtype(dtype).kind == 'i'
    check_meta(env, m, shapes, None if isint else dtype, 'from_array')
    env.eq(env.dense(m), a, 'represented array equals the input')
    env.eq(m.to_array(), a, 'to_array returns the input')
    if not isint:
        env.same(env.np.dtype(m.to_array().dtype), env.np.dtype(dtype), 'dtype of to_array')
    env.eq(a, a0, 'input not modified')
    env.honest(m)


@clause('C01', ['mparray.MPArray.from_array', 'mparray._extract_factors'])
def roundtrip_virtual(env):
    """from_array with existing virtual legs"""
    N = env.sites(1, 4)
    shapes = env.shapes('shape', N, legs=env.choose('legs', [1, 2]))
    dl, dr = env.dim('Dl', 1, 4), env.dim('Dr', 1, 4)
    dtype = env.dtype('dtype')
    a = env.tensor('A', (dl,) + flat(shapes) + (dr,), dtype)
    m = env.mp.MPArray.from_array(a, ndims=len(shapes[0]), has_virtual=True)
    env.same(m.shape, tuple(shapes), 'shape')
    env.same(list(m.lt)[0].shape[0], dl, 'left rank kept')
    env.same(list(m.lt)[-1].shape[-1], dr, 'right rank kept')
    env.eq(env.dense(m, virtual=True), a, 'represented array equals the input')
    env.honest(m)


@clause('C01', ['mparray.MPArray.from_array_global', 'mparray.MPArray.to_array_global',
                'utils.array_transforms.global_to_local', 'utils.array_transforms.local_to_global'])
def roundtrip_global(env):
    """from_array_global(A, p).to_array_global() == A; local form as documented"""
    N = env.sites(1, 4)
    p = env.choose('legs', [1, 2, 3])
    shapes = env.shapes('shape', N, legs=p)
    gshape = tuple(shapes[i][j] for j in range(p) for i in range(N))
    a = env.tensor('A', gshape, env.dtype('dtype'))
    if N == 1 and env.choose('default', [True, False]):
        m = env.mp.MPArray.from_array_global(a)
    else:
        m = env.mp.MPArray.from_array_global(a, p)
    check_meta(env, m, shapes, a.dtype, 'from_array_global')
    env.eq(m.to_array_global(), a, 'to_array_global returns the input')
    loc = env.np.transpose(a, [j * N + i for i in range(N) for j in range(p)])
    env.eq(m.to_array(), loc, 'local form')
    m2 = env.mpa('B', shapes)
    env.eq(m2.to_array(), env.dense(m2), 'to_array of any chain')
    glo = env.np.transpose(env.dense(m2), [i * p + j for j in range(p) for i in range(N)])
    env.eq(m2.to_array_global(), glo, 'to_array_global of any chain')


@clause('C01', ['mparray.MPArray.to_array'])
def dense_of_any(env):
    """to_array and the reported structure of arbitrary chains"""
    N = env.sites(1, 6)
    shapes = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]))
    mixed = env.choose('mixed', [False, False, True])
    dtype = env.dtype('dtype', 'dz' if mixed else 'ddzzfc')
    m = env.mpa('A', shapes, dtype=dtype, mixed=mixed)
    if mixed:
        dtype = env.np.result_type(*[t.dtype for t in m.lt])
    with env.unchanged(m):
        check_meta(env, m, shapes, dtype, 'chain')
        a = m.to_array()
    env.eq(a, env.dense(m), 'to_array')
    env.same(env.np.dtype(a.dtype), env.np.dtype(m.dtype), 'dtype is that of to_array')


@clause('C01', ['mparray.MPArray.from_kron'])
def kron(env):
    """from_kron represents the tensor product of the factors"""
    N = env.sites(1, 5)
    shapes = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]))
    fs = [env.tensor('f%d' % k, s, env.dtype('dt%d' % k)) for k, s in enumerate(shapes)]
    src = env.choose('source', ['list', 'gen'])
    m = env.mp.MPArray.from_kron(fs if src == 'list' else (f for f in fs))
    check_meta(env, m, shapes, env.np.result_type(*[f.dtype for f in fs]), 'from_kron')
    env.same(m.ranks, (1,) * (N - 1), 'ranks are one')
    ref = fs[0]
    for f in fs[1:]:
        ref = env.np.tensordot(ref, f, axes=((), ()))
    env.eq(m.to_array(), ref, 'tensor product')


@clause('C01', ['utils.array_transforms.global_to_local', 'utils.array_transforms.local_to_global'])
def permutations(env):
    """global<->local are the documented, mutually inverse permutations; skipped axes stay"""
    N = env.sites(1, 4)
    p = env.choose('legs', [1, 2, 3])
    ls, rs = env.choose('left_skip', [0, 1, 2]), env.choose('right_skip', [0, 1, 2])
    n = N * p + ls + rs
    env.assume(n <= 16)
    dims = [env.dim('d%d' % i, 1, 3) for i in range(n)]
    if not env.symbolic:
        for i in range(n):          # keep the array small
            if i >= 7:
                dims[i] = 1 + (i % 2 if n < 11 else 0)
    a = env.tensor('A', dims, env.dtype('dtype'))
    from mpnum_utils import global_to_local, local_to_global  # provided by env
    kw = dict(sites=N, left_skip=ls, right_skip=rs)
    if ls == rs == 0 and env.choose('defaults', [True, False]):
        kw = dict(sites=N)
    g = global_to_local(a, **kw)
    order = list(range(ls)) + [ls + j * N + i for i in range(N) for j in range(p)] \
        + list(range(n - rs, n))
    env.eq(g, env.np.transpose(a, order), 'global_to_local order')
    l = local_to_global(a, **kw)
    order2 = list(range(ls)) + [ls + i * p + j for j in range(p) for i in range(N)] \
        + list(range(n - rs, n))
    env.eq(l, env.np.transpose(a, order2), 'local_to_global order')
    env.eq(local_to_global(g, **kw), a, 'local_to_global inverts global_to_local')
    env.eq(global_to_local(l, **kw), a, 'global_to_local inverts local_to_global')


@clause('C01', ['mparray.MPArray.from_array', 'mparray._extract_factors',
                'utils.array_transforms.global_to_local'], weight=.3)
def rejects(env):
    """Leg counts which do not use up the legs are rejected"""
    n = env.choose('n', [1, 2, 3, 4, 5])
    a = env.tensor('A', [env.dim('d%d' % i, 1, 2) for i in range(n)])
    kind = env.choose('kind', ['int', 'short', 'long', 'global', 'g2l', 'l2g'])
    excs = (AssertionError, StopIteration, ValueError, RuntimeError)
    MPA = env.mp.MPArray
    from mpnum_utils import global_to_local, local_to_global
    if kind in ('int', 'global', 'g2l', 'l2g'):
        p = env.choose('p', [2, 3, 4, 5, 6])
        env.assume(n % p)
        fn = {'int': lambda: MPA.from_array(a, p), 'global': lambda: MPA.from_array_global(a, p),
              'g2l': lambda: global_to_local(a, p), 'l2g': lambda: local_to_global(a, p)}[kind]
    elif kind == 'short':
        nd = env.choose('nd', [[1], [2], [1, 1], [1, 2], [2, 1], [1, 1, 1]])
        env.assume(sum(nd) < n)
        fn = lambda: MPA.from_array(a, nd)
    else:
        nd = env.choose('nd', [[1, 3], [2, 3], [3, 3], [4, 4], [1, 1, 7], [6]])
        tot, bad = 0, False
        for x in nd:                    # exceeds the legs before using them up
            tot += x
            if tot == n:
                break
            bad = tot > n
        env.assume(bad)
        fn = lambda: MPA.from_array(a, nd)
    env.raises(excs, fn, 'misfit of legs rejected')
