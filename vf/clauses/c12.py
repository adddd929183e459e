from ..registry import clause
from .common import basic, flat


def outer(env, arrs):
    r = arrs[0]
    for x in arrs[1:]:
        r = env.np.tensordot(r, x, axes=((), ()))
    return r


@clause('C12', ['mparray.local_sum', 'mparray._local_sum_identity', 'utils.extmath.block_diag',
                'mparray._embed_ltens_identity', 'mparray.embed_slice', 'mparray.sumup'], weight=4)
def local_sum(env):
    """Sum of local terms, default / regular / explicit positions"""
    width = env.choose('width', [1, 2, 3])
    mode = env.choose('mode', ['default', 'regular', 'explicit'])
    own = env.choose('embed', [True, False])
    k = env.choose('terms', [1, 2, 3, 4])
    if own:
        p = env.choose('legs', [1, 2])
        shape1 = tuple(env.dim('d%d' % i, 1, 2 if width > 2 or k > 3 else 3) for i in range(p))
        emb = env.tensor('E', shape1, env.dtype('dtE'))
    else:
        dd = env.dim('d', 1, 2 if width > 2 or k > 2 else 3)
        shape1, emb = (dd, dd), env.np.eye(dd)
    terms = []
    if mode == 'explicit':
        length = env.choose('length', [width, width + 1, width + 2])
        pos = [env.choose('pos%d' % i, list(range(length - width + 1))) for i in range(k)]
    else:
        length = k + width - 1
        pos = list(range(k))
    env.assume(length * len(shape1) <= 10)
    for i in range(k):
        sh = [shape1] * width
        terms.append(env.mpa('H%d' % i, sh, ranks=env.ranks('r%d' % i, sh, 3),
                             dtype=env.dtype('dt%d' % i, 'dzd')))
    ds = [env.dense(t) for t in terms]
    kw = dict(embed_tensor=emb) if own else {}
    if mode != 'default':
        sl = [slice(q, q + width) for q in pos]
        kw.update(length=length, slices=env.choose('t', [list, tuple, iter])(sl))
    arg = env.choose('targ', [list, tuple, iter])(terms)
    with env.unchanged(*terms):
        r = env.mp.local_sum(arg, **kw)
    basic(env, r, [shape1] * length, 'local_sum')
    ref = None
    for q, d in zip(pos, ds):
        x = outer(env, [emb] * q + [d] + [emb] * (length - width - q))
        ref = x if ref is None else ref + x
    env.eq(env.dense(r), ref, 'sum of embedded terms')
    env.honest(r)


@clause('C12', ['mparray.embed_slice', 'mparray._embed_ltens_identity'], weight=1.5)
def embed_slice(env):
    """Embedding at any position; misfits rejected"""
    w = env.choose('width', [1, 2, 3])
    length = env.choose('length', [w, w + 1, w + 2])
    q = env.choose('pos', list(range(length - w + 1)))
    own = env.choose('embed', [True, False])
    if own:
        sh = env.shapes('shape', w, legs=env.choose('legs', [1, 2]), maxsize=50)
        es = tuple(env.dim('e%d' % i, 1, 2) for i in range(env.choose('el', [0, 1, 2])))
        emb = env.tensor('E', es, env.dtype('dtE'))
        kw = dict(embed_tensor=emb)
    else:
        d = env.dim('d', 1, 3)
        env.assume(env.symbolic or d ** (2 * length) <= 7000)
        sh, es, emb, kw = [(d, d)] * w, (d, d), env.np.eye(d), {}
    a = env.mpa('A', sh, dtype=env.dtype('dt'))
    da = env.dense(a)
    stop = env.choose('stop', ['int', 'none']) if q + w == length else 'int'
    sl = slice(q, None if stop == 'none' else q + w)
    with env.unchanged(a):
        r = env.mp.embed_slice(length, sl, a, **kw)
    basic(env, r, [es] * q + [tuple(s) for s in sh] + [es] * (length - w - q), 'embed_slice')
    env.eq(env.dense(r), outer(env, [emb] * q + [da] + [emb] * (length - w - q)), 'embedded array')
    env.honest(r)
    bad = env.choose('bad', ['long', 'short', 'out', 'step'])
    bsl = {'long': slice(0, w + 1), 'short': slice(0, w - 1), 'out': slice(length - w + 1, length + 1),
           'step': slice(0, 2 * w, 2)}[bad]
    ln = max(length, 2 * w + 1) if bad in ('long', 'step') else length
    env.raises((AssertionError, ValueError), lambda: env.mp.embed_slice(ln, bsl, a, **kw),
               'misfit rejected')


@clause('C12', ['mparray._embed_ltens_identity', 'mparray.local_sum'], weight=.3)
def needs_tensor(env):
    """Without two equal legs an embedding tensor is required"""
    sh = env.choose('sh', [(2,), (2, 3), (2, 2, 2), ()])
    a = env.mpa('A', [sh])
    env.raises((AssertionError, ValueError), lambda: env.mp.embed_slice(3, slice(1, 2), a),
               'embedding tensor required')
    env.raises((AssertionError, ValueError), lambda: env.mp.local_sum([a, a]), 'embedding tensor required')


@clause('C12', ['mparray.inject'], weight=3)
def inject(env):
    """Injection before site pos (one or several positions)"""
    np = env.np
    N = env.sites(1, 4, label='Ninj')
    env.assume(N <= 4)
    sh = env.shapes('shape', N, legs=env.choose('legs', [1, 2]), maxsize=40, hi=2)
    a = env.mpa('A', sh, dtype=env.dtype('dt'))
    da = env.dense(a)
    several = env.choose('several', [True, False])
    if several:
        allpos = [[p for p in range(N + 1) if m >> p & 1] for m in range(1, 2 ** (N + 1))]
        pos = env.choose('pos', [p for p in allpos if len(p) <= 2])
    else:
        pos = [env.choose('pos', list(range(N + 1)))]
    num, tens, ins = [], [], []
    for i, p in enumerate(pos):
        idd = sh[p][0] if p < N else sh[N - 1][0]
        kind = env.choose('kind%d' % i, ['eye', 'ten', 'list'])
        if kind == 'eye':
            n = env.choose('n%d' % i, [0, 1, 2])
            num.append(n)
            tens.append(None)
            ins.append([np.eye(idd)] * n)
        elif kind == 'ten':
            n = env.choose('n%d' % i, [1, 2])
            t = env.tensor('t%d' % i, tuple(env.dim('t%d%d' % (i, j), 1, 2)
                                            for j in range(env.choose('tl%d' % i, [1, 2]))))
            num.append(n)
            tens.append(t)
            ins.append([t] * n)
        else:
            ts = [None if env.choose('q', [False, False, True]) else
                  env.tensor('t%d_%d' % (i, j), (env.dim('u%d%d' % (i, j), 1, 2),)) for j in range(2)]
            num.append(None)
            tens.append(ts)
            ins.append([np.eye(idd) if t is None else t for t in ts])
    with env.unchanged(a):
        if several:
            allnone = all(x is None for x in tens)
            r = env.mp.inject(a, pos, None if all(n is None for n in num) else num,
                              None if allnone else tens)
        else:
            if tens[0] is None:
                r = env.mp.inject(a, pos[0], num[0])
            else:
                r = env.mp.inject(a, pos[0], num[0], tens[0])
    shapes, facs, order = [], [], []
    nd = [len(s) for s in sh]
    # reference: outer product of a with all inserted tensors, then permute legs
    ref = da
    legs_a = []
    c = 0
    for n in nd:
        legs_a.append(list(range(c, c + n)))
        c += n
    for k in range(N + 1):
        if k in pos:
            for t in ins[pos.index(k)]:
                ref = np.tensordot(ref, t, axes=((), ()))
                order += list(range(c, c + t.ndim))
                shapes.append(t.shape)
                c += t.ndim
        if k < N:
            order += legs_a[k]
            shapes.append(tuple(sh[k]))
    basic(env, r, shapes, 'inject')
    env.eq(env.dense(r), np.transpose(ref, order), 'interleaved product')
    env.honest(r)


@clause('C12', ['mparray.regular_slices'], weight=.7)
def regular_slices(env):
    """Slices (offset*i, offset*i + width) up to the end of the chain"""
    length, width, offset = env.randint('length', 1, 30), env.randint('width', 1, 8), \
        env.randint('offset', 1, 6)
    env.assume(length >= width)
    if (length - width) % offset:
        env.raises((AssertionError, ValueError),
                   lambda: list(env.mp.regular_slices(length, width, offset)), 'misfit rejected')
        return
    r = list(env.mp.regular_slices(length, width, offset))
    env.same([(s.start, s.stop, s.step) for s in r],
             [(offset * i, offset * i + width, None) for i in range((length - width) // offset + 1)],
             'documented slices')
    env.same(r[-1].stop, length, 'last slice ends at the end')
