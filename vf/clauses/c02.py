from ..registry import clause
from .common import basic

KINDS = 'dzdzfci'


def two(env, N=None, kinds=KINDS):
    N = N or env.sites(1, 6)
    shapes = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]))
    a = env.mpa('A', shapes, dtype=env.dtype('dtA', kinds))
    b = env.mpa('B', shapes, dtype=env.dtype('dtB', kinds))
    return shapes, a, b


@clause('C02', ['mparray.MPArray.__add__', 'mparray._local_add', 'mparray.MPArray.__sub__'],
        weight=2)
def add_sub(env):
    """a + b and a - b"""
    shapes, a, b = two(env)
    if env.choose('same operand', [False] * 7 + [True]):
        b = a
    da, db = env.dense(a), env.dense(b)
    op = env.choose('op', ['+', '-', '+=', '-='])
    with env.unchanged(a, b):
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '+=':
            r = a
            r += b
        else:
            r = a
            r -= b
    basic(env, r, shapes, op)
    env.eq(env.dense(r), da + db if op[0] == '+' else da - db, 'sum / difference')
    env.eq(r.to_array(), da + db if op[0] == '+' else da - db, 'sum / difference (to_array)')
    env.same(env.np.dtype(r.dtype).kind, 'c' if 'c' in (da.dtype.kind, db.dtype.kind) else 'f',
             'result kind')
    env.honest(r)


@clause('C02', ['mparray.MPArray.__mul__', 'mparray.MPArray.__imul__', 'mparray.MPArray.__rmul__',
                'mparray.MPArray.__truediv__', 'mparray.MPArray.__itruediv__',
                'mparray.MPArray.__neg__'], weight=2)
def scale(env):
    """c * a, a * c, a / c, -a, +a and the in-place forms"""
    N = env.sites(1, 6)
    shapes = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]))
    a = env.mpa('A', shapes, dtype=env.dtype('dtA', KINDS))
    c = env.scalar('c', env.dtype('dtc'))
    op = env.choose('op', ['*', 'r*', '/', 'neg', '*=', '/=', 'pos', '*0'])
    da = env.dense(a)
    keep = a
    if op in ('*=', '/='):
        r = a
        if op == '*=':
            r *= c
            ref = da * c
        else:
            r /= c
            ref = da / c
        env.check(r is keep, 'in-place operation keeps the object')
    else:
        with env.unchanged(a):
            if op == '*':
                r, ref = a * c, da * c
            elif op == 'r*':
                r, ref = c * a, da * c
            elif op == '/':
                r, ref = a / c, da / c
            elif op == 'neg':
                r, ref = -a, -da
            elif op == 'pos':
                r, ref = +a, da
            else:
                r, ref = 0 * a, da * 0
    basic(env, r, shapes, op)
    env.eq(env.dense(r), ref, 'scaled array')
    env.honest(r)
    env.same(type(r), type(keep), 'type kept')


@clause('C02', ['mparray.sumup', 'mparray._local_add'], weight=2)
def sum_many(env):
    """sumup with and without weights"""
    N = env.sites(1, 5)
    shapes = env.shapes('shape', N, uniform_legs=env.choose('u', [True, False]), maxsize=600)
    k = env.choose('summands', [1, 2, 3, 4])
    ms = [env.mpa('M%d' % i, shapes, dtype=env.dtype('dt%d' % i, KINDS)) for i in range(k)]
    ds = [env.dense(m) for m in ms]
    w = None
    if env.choose('weighted', [True, False]):
        w = [env.scalar('w%d' % i, env.dtype('dw%d' % i)) for i in range(k)]
        if env.real_only():
            z = env.choose('zero weights', [0, 0, 0, 0, 1, 2])
            w = [0 * x if z == 2 or z == 1 and i == 0 else x for i, x in enumerate(w)]
    src = env.choose('source', ['list', 'gen', 'tuple'])
    arg = {'list': ms, 'gen': iter(ms), 'tuple': tuple(ms)}[src]
    with env.unchanged(*ms):
        if w is None:
            r = env.mp.sumup(arg)
        else:
            wk = env.choose('wsource', ['list', 'gen', 'array', 'tuple'])
            wa = {'list': w, 'tuple': tuple(w), 'gen': iter(w)}.get(wk)
            if wk == 'array':
                wa = w if env.symbolic else env.np.array(w)
            r = env.mp.sumup(arg, weights=wa)
    ref = None
    for i in range(k):
        t = ds[i] if w is None else ds[i] * w[i]
        ref = t if ref is None else ref + t
    basic(env, r, shapes, 'sumup')
    env.eq(env.dense(r), ref, 'sum of all summands')
    env.honest(r)


@clause('C02', ['mparray.MPArray.__add__', 'mparray.MPArray.__mul__', 'mparray.sumup'], weight=.5)
def chain_of_arithmetic(env):
    """Linear combinations built step by step in canonical and scaled states"""
    shapes, a, b = two(env)
    da, db = env.dense(a), env.dense(b)
    c1, c2 = env.scalar('c1', env.dtype('k1')), env.scalar('c2', env.dtype('k2'))
    if not env.symbolic and env.choose('canon', [True, False]):
        a.canonicalize(left=env.randint('cl', 0, len(a) - 1))
    x = c1 * a
    x *= c2
    y = (x - b) / c2
    z = y + x
    env.eq(env.dense(z), (da * c1 * c2 - db) / c2 + da * c1 * c2, 'linear combination',
           scale=1. if env.symbolic else max(1., abs(c1 * c2), abs(c1), abs(1. / c2)) ** 2 * 10)
    env.honest(z)
    env.eq(env.dense(a), da, 'operand a unchanged')
    env.eq(env.dense(b), db, 'operand b unchanged')


@clause('C02', ['mparray.MPArray.__add__', 'mparray.MPArray.__mul__', 'mparray.sumup'], weight=.3)
def rejects(env):
    """Different lengths and non-scalar factors are rejected"""
    N, M = env.sites(1, 4), env.choose('M', [1, 2, 3, 4, 5])
    sa = env.shapes('sa', N, legs=1, uniform=True)
    sb = [sa[0]] * M
    a, b = env.mpa('A', sa), env.mpa('B', sb)
    op = env.choose('op', ['+', '-', 'sumup', 'wsumup', '*', 'r*', '/', '*=', '/=', 'list', '*mpa'])
    excs = (AssertionError, NotImplementedError, TypeError, ValueError)
    da = env.dense(a)
    arr = env.tensor('x', (2,), float, zero=0) if not env.symbolic else [1, 2]

    def imul():
        x = a
        x *= arr

    def idiv():
        x = a
        x /= arr
    if op in ('+', '-', 'sumup', 'wsumup'):
        env.assume(N != M)
        fn = {'+': lambda: a + b, '-': lambda: a - b, 'sumup': lambda: env.mp.sumup([a, b]),
              'wsumup': lambda: env.mp.sumup([a, b], [1., 2.])}[op]
    else:
        fn = {'*': lambda: a * arr, 'r*': lambda: a.__rmul__(arr), '/': lambda: a / arr,
              '*=': imul, '/=': idiv, 'list': lambda: a * [1., 2.], '*mpa': lambda: a * b}[op]
    env.raises(excs, fn, 'rejected')
    env.eq(env.dense(a), da, 'operand unchanged after rejection')
