from ..registry import clause
from .common import basic


def chain(env, lo=1, hi=6, kinds='ddzzfc'):
    N = env.sites(lo, hi)
    sh = env.shapes('shape', N, uniform_legs=env.choose('u', [True, True, False]), maxsize=1500)
    return N, sh, env.mpa('A', sh, dtype=env.dtype('dt', kinds))


@clause('C07', ['mparray.MPArray.canonicalize', 'mparray.MPArray._lcanonicalize',
                'mparray.MPArray._rcanonicalize', 'mpstruct.LocalTensors.update',
                'mpstruct.LocalTensors._update'], weight=3)
def canonicalize(env):
    """Any request from any previous form"""
    N, sh, a = chain(env)
    opts_l = [None, 'afull'] + list(range(-N, N))
    opts_r = [None, 'afull'] + list(range(-N + 1, 0)) + list(range(1, N + 1))
    l = env.choose('left', opts_l)
    r = env.choose('right', opts_r)
    li = {None: 0, 'afull': N - 1}.get(l, l)
    ri = {None: N, 'afull': 1}.get(r, r)
    li = li + N if li < 0 else li
    ri = ri + N if ri < 0 else ri
    env.assume(li < ri)
    d, old = env.dense(a), a.ranks
    style = env.choose('style', ['kw', 'pos'])
    if r is None and style == 'kw':
        res = a.canonicalize(left=l)
    elif l is None and style == 'kw':
        res = a.canonicalize(right=r)
    elif style == 'kw':
        res = a.canonicalize(left=l, right=r)
    else:
        res = a.canonicalize(l, r)
    basic(env, a, sh, 'canonicalized')
    env.eq(env.dense(a), d, 'represented array unchanged')
    env.honest(a)
    cl, cr = a.canonical_form
    if l is None and r is None:
        env.check(N == 1 or cl == N - 1 or cr == 1, 'unspecified request reaches an extremal form',
                  str((cl, cr)))
    else:
        env.check(cl >= li and cr <= ri, 'requested form reached', str(((li, ri), (cl, cr))))
    env.check(all(x <= y for x, y in zip(a.ranks, old)), 'ranks do not increase')


@clause('C07', ['mparray.MPArray.canonicalize'], sym=False, weight=1)
def canonicalize_twice(env):
    """Sequences of requests"""
    N, sh, a = chain(env, lo=2, kinds='dz')
    d = env.dense(a)
    for s in range(env.randint('steps', 2, 4)):
        l = env.randint('l', 0, N - 1)
        r = env.randint('r', l + 1, N)
        if env.bit('scale', .3):
            c = env.scalar('c')
            a *= c
            d = d * c
        if env.bit('none', .2):
            a.canonicalize()
            l, r = 0, N
        else:
            a.canonicalize(left=l if env.bit('L') else None, right=r if env.bit('R') else None)
        env.eq(env.dense(a), d, 'array unchanged')
        env.honest(a)


@clause('C07', ['mparray.MPArray.canonicalize'], weight=.7)
def bad_requests(env):
    """Out of range: IndexError; all sites or overlap: ValueError; array unchanged"""
    N, sh, a = chain(env, kinds='dz')
    d = env.dense(a)
    f = a.canonical_form
    kind = env.choose('kind', ['left>', 'left<', 'right>', 'right<', 'left=N', 'right=0', 'overlap'])
    k = env.randint('k', 1, 3)
    if kind in ('left>', 'left<', 'right>', 'right<'):
        v = N + k if kind[-1] == '>' else -N - k
        kw = {kind[:-1]: v}
        exc = IndexError
    elif kind == 'left=N':
        kw, exc = dict(left=N), ValueError
    elif kind == 'right=0':
        kw, exc = dict(right=0), ValueError
    else:
        l = env.randint('l', 1, N) if N >= 1 else 1
        r = env.randint('r', 0, l)
        kw, exc = dict(left=l, right=r), ValueError
    env.raises(exc, lambda: a.canonicalize(**kw), 'request rejected')
    env.eq(env.dense(a), d, 'array unchanged')
    env.same(a.canonical_form, f, 'form unchanged')


@clause('C07', ['mparray.norm', 'mparray.normdist'], weight=2)
def norms(env):
    """norm and normdist"""
    N, sh, a = chain(env, kinds='ddzzf')
    d = env.dense(a)
    if env.choose('which', ['norm', 'normdist']) == 'norm':
        n = env.mp.norm(a)
        env.eq(n, env.np.linalg.norm(d.ravel()), 'norm')
        env.eq(env.dense(a), d, 'array unchanged')
        env.honest(a)
        env.eq(env.mp.norm(a), env.np.linalg.norm(d.ravel()), 'norm again')
    else:
        b = env.mpa('B', sh, dtype=env.dtype('dtB', 'dz'))
        if env.choose('self', [False] * 4 + [True]):
            b = a
        db = env.dense(b)
        with env.unchanged(a, b):
            n = env.mp.normdist(a, b)
        env.eq(n, env.np.linalg.norm((d - db).ravel()), 'distance',
               scale=1. if env.symbolic else max(1., float(abs(d).max()) * d.size))
