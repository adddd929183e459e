from ..registry import clause
from .history import normalized


@clause('C11', ['mpstruct.LocalTensors.update', 'mpstruct.LocalTensors._update',
                'mpstruct.LocalTensors.__setitem__'], weight=3)
def valid_update(env):
    """Exactly the addressed tensors are replaced, in order"""
    N = env.sites(1, 6)
    sh = env.shapes('shape', N, legs=1, maxsize=1000)
    a = env.mpa('A', sh, dtype=env.dtype('dt'))
    old = list(a.lt)
    if env.choose('kind', ['single', 'slice']) == 'single':
        k = env.choose('site', list(range(-N, N)))
        t = env.tensor('T', (old[k].shape[0], env.dim('newd', 1, 3), old[k].shape[-1]))
        if env.choose('how', ['setitem', 'update']) == 'setitem':
            a.lt[k] = t
        else:
            a.lt.update(k, t)
        new = list(old)
        new[k] = t
    else:
        i = env.choose('start', list(range(N)))
        j = env.choose('stop', list(range(i + 1, N + 1)))
        b = [old[i].shape[0]] + [env.dim('b%d' % q, 1, 3) for q in range(j - i - 1)] \
            + [old[j - 1].shape[-1]]
        ts = [env.tensor('T%d' % q, (b[q],) + (env.dim('e%d' % q, 1, 3),) * env.choose('l%d' % q, [0, 1, 2])
                         + (b[q + 1],)) for q in range(j - i)]
        arg = env.choose('t', ['list', 'tuple', 'gen'])
        arg = {'list': ts, 'tuple': tuple(ts), 'gen': iter(ts)}[arg]
        how = env.choose('bounds', ['pos', 'neg', 'open'])
        sl = slice(i, j)
        if how == 'neg':
            sl = slice(i - N, j - N if j < N else None)
        elif how == 'open':
            sl = slice(i or None, j if j < N else None)
        if env.choose('how', ['setitem', 'update']) == 'setitem':
            a.lt[sl] = arg
        else:
            a.lt.update(sl, arg)
        new = old[:i] + ts + old[j:]
    got = list(a.lt)
    env.same(len(got), N, 'number of sites')
    env.wellformed(a)
    for k in range(N):
        env.same(got[k].shape, new[k].shape, 'shape of tensor %d' % k)
        env.eq(got[k], new[k], 'tensor %d' % k)
    env.honest(a)


@clause('C11', ['mpstruct.LocalTensors.update', 'mpstruct.LocalTensors._update'], weight=3)
def rejected_update(env):
    """Non-matching updates are rejected and leave the chain exactly as before"""
    N = env.sites(1, 5)
    sh = env.shapes('shape', N, legs=1, maxsize=1000)
    a = env.mpa('A', sh, dtype=env.dtype('dt'))
    old, form = list(a.lt), a.canonical_form
    kind = env.choose('kind', ['left', 'right', 'ndim', 'count-', 'count+', 'inner', 'sleft', 'sright',
                               'index'])
    excs = (AssertionError, IndexError, ValueError)
    inc = env.choose('inc', [1, 2])
    if kind in ('left', 'right', 'ndim', 'index'):
        k = env.choose('site', list(range(-N, N)))
        s = list(old[k].shape)
        if kind == 'left':
            s[0] += inc
        elif kind == 'right':
            s[-1] += inc
        elif kind == 'ndim':
            env.assume(not env.symbolic)
            s = s[:env.choose('nd', [0, 1])]
        else:
            k = env.choose('badsite', [N, N + 1, -N - 1])
        t = env.tensor('T', s)
        fn = (lambda: a.lt.update(k, t)) if env.choose('how', [True, False]) else \
            (lambda: a.lt.__setitem__(k, t))
    else:
        i = env.choose('start', list(range(N)))
        j = env.choose('stop', list(range(i + 1, N + 1)))
        w = j - i
        b = [old[i].shape[0]] + [env.dim('b%d' % q, 1, 3) for q in range(w - 1)] + [old[j - 1].shape[-1]]
        shp = [[b[q], 2, b[q + 1]] for q in range(w)]
        if kind == 'sleft':
            shp[0][0] += inc
        elif kind == 'sright':
            shp[-1][-1] += inc
        elif kind == 'inner':
            env.assume(w > 1)
            q = env.choose('q', list(range(w - 1)))
            shp[q][-1] += inc
        elif kind == 'count+':
            shp.append([b[-1], 2, b[-1]])
        else:
            env.assume(w > 1)
            shp = shp[:-1]
            shp[-1][-1] = b[-1]
        ts = [env.tensor('T%d' % q, s) for q, s in enumerate(shp)]
        can = env.choose('canon', [None, 'seq'])
        can = None if can is None else [None] * w
        fn = lambda: a.lt.update(slice(i, j), ts, canonicalization=can)
    env.raises(excs, fn, kind + ' rejected')
    got = list(a.lt)
    env.same(len(got), N, 'number of sites unchanged')
    for k in range(N):
        env.same(got[k].shape, old[k].shape, 'shape of tensor %d unchanged' % k)
        env.eq(got[k], old[k], 'tensor %d unchanged' % k)
    env.same(a.canonical_form, form, 'form unchanged')


@clause('C11', ['mpstruct.LocalTensors.__init__', 'mparray.MPArray.__init__'])
def construction(env):
    """Valid lists are accepted as they are, invalid ones are rejected"""
    N = env.sites(1, 5)
    sh = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]), maxsize=1000)
    lt = env.ltens('A', sh, dtype=env.dtype('dt'))
    kind = env.choose('kind', ['ok', 'empty', 'bond', 'axes', 'form'])
    LT = env.mp.mpstruct.LocalTensors
    MPA = env.mp.MPArray
    excs = (AssertionError, IndexError, ValueError)
    mk = env.choose('mk', ['mpa', 'lt'])
    build = MPA if mk == 'mpa' else LT
    if kind == 'ok':
        src = env.choose('src', ['list', 'tuple', 'gen'])
        m = build({'list': lt, 'tuple': tuple(lt), 'gen': iter(lt)}[src])
        m = m if mk == 'mpa' else MPA(m)
        env.wellformed(m)
        env.same(m.canonical_form, (0, N), 'no canonical form assumed')
        for x, y in zip(m.lt, lt):
            env.eq(x, y, 'local tensor')
    elif kind == 'empty':
        env.raises(excs, lambda: build([]), 'empty chain rejected')
    elif kind == 'bond':
        env.assume(N > 1)
        k = env.choose('k', list(range(N - 1)))
        s = list(lt[k].shape)
        s[-1] += 1
        lt[k] = env.tensor('bad', s)
        env.raises(excs, lambda: build(lt), 'bond mismatch rejected')
    elif kind == 'axes':
        env.assume(N > 1 and not env.symbolic)
        k = env.choose('k', list(range(N)))
        lt[k] = env.tensor('bad', ())
        env.raises(excs, lambda: build(lt), 'too few axes rejected')
    else:
        bad = env.choose('bad', [(N, N), (N + 1, None), (None, N + 1), (-1, None)])
        env.raises(excs, lambda: LT(lt, cform=bad), 'impossible form rejected')
