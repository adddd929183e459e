"""Contracts for chains of any length: updates, embeddings, states, factories"""
from ..registry import unbounded
from .unb import one, len_of, bonds, M

S = 'mpstruct.LocalTensors.'
DECLARED = [None, 'left', 'right']


def declared(env, name, shape, side):
    """A tensor with the declared normalization"""
    if side is None:
        return env.tensor(name, shape, complex)
    return env.isometry(name, shape, complex, side)


@unbounded('C06', [S + '_update', S + 'update', S + '__setitem__'], 'update_any')
def update_any_length(env):
    """One tensor is replaced at an arbitrary site of an arbitrary chain in any truthful form"""
    N = env.length()
    legs = env.legs('d', 1)
    a, A = env.chain('a', N, legs, complex)
    k = env.index('site', 0, N)
    side = env.choose('normalization', DECLARED)
    t = declared(env, 'T', (A.bond(k), env.dim('e'), A.bond(k + 1)), side)
    neg = env.choose('index', ['site', 'negative'])
    a.lt.update(k if neg == 'site' else k - N, t, canonicalization=side)
    env.honest(a)


@unbounded('C06', [S + '_update', S + 'update'], 'update_any')
def update_pair_any_length(env):
    """Two neighbouring tensors are replaced at an arbitrary bond"""
    N = env.length(lo=2)
    legs = env.legs('d', 1)
    a, A = env.chain('a', N, legs, complex)
    k = env.index('site', 0, N - 1)
    m = env.dim('m')
    sides = env.choose('normalization', [('left', None), (None, 'right'), (None, None), ('left', 'right'), ('right', 'left')])
    t = (declared(env, 'T', (A.bond(k), env.dim('e'), m), sides[0]),
         declared(env, 'U', (m, env.dim('f'), A.bond(k + 2)), sides[1]))
    a.lt.update(slice(k, k + 2), t, canonicalization=sides)
    env.honest(a)


@unbounded('C11', [S + '_update', S + 'update', S + '__setitem__'], 'valid_update')
def replaced_any_length(env):
    """Exactly the addressed tensors are replaced; a rejected update changes nothing"""
    N = env.length()
    legs = env.legs('d', 1)
    a, A = env.chain('a', N, legs, complex)
    env.forms_used = False
    kind = env.choose('kind', ['single', 'setitem', 'pair', 'left', 'right', 'inner', 'count'])
    if kind in ('pair', 'inner', 'count'):
        env.assume(N > 1)
        k = env.index('site', 0, N - 1)
        m = env.dim('m')
        ts = [env.tensor('T', (A.bond(k), env.dim('e'), m)),
              env.tensor('U', (m + 1 if kind == 'inner' else m, env.dim('f'), A.bond(k + 2)))]
        if kind == 'count':
            ts = ts + [env.tensor('V', (A.bond(k + 2), 2, A.bond(k + 2)))]
        run = lambda: a.lt.update(slice(k, k + 2), ts)
    else:
        k = env.index('site', 0, N)
        x, y = A.bond(k), A.bond(k + 1)
        ts = [env.tensor('T', (x + 1 if kind == 'left' else x, env.dim('e'), y + 1 if kind == 'right' else y))]
        run = (lambda: a.lt.__setitem__(k, ts[0])) if kind == 'setitem' else (lambda: a.lt.update(k, ts[0]))
    at = env.sites_of(a)
    if kind in ('single', 'setitem', 'pair'):
        run()
        env.same(len_of(a), N, 'number of sites')

        def site(j):
            t = ts[0] if j == k else ts[1] if len(ts) > 1 and j == k + 1 else A.site(j)
            env.eq(at(j), t, 'tensor')
        env.forall(0, N, site)
        env.wellformed(a)
    else:
        form = a.canonical_form
        env.raises((AssertionError, IndexError, ValueError), run, kind + ' rejected')
        env.same(a.canonical_form, form, 'form unchanged')
        env.same_sites(a, A, 'tensors unchanged')


@unbounded('C11', [S + '__init__', M + 'MPArray.__init__'], 'construction')
def construction_any_length(env):
    """A list of tensors is accepted if and only if neighbouring bonds match"""
    N = env.length()
    legs = env.legs('d', 1)
    c = env.raw('c', N, legs, complex)
    kind = env.choose('kind', ['ok', 'bond'])
    if kind == 'ok':
        s = env.mp.MPArray(env.tensors(c))
        env.same(s.canonical_form, (0, N), 'no canonical form assumed')
        env.same_sites(s, c, 'tensors')
        env.wellformed(s)
    else:
        env.assume(N > 1)
        k = env.index('bond', 0, N - 1)
        ts = env.tensors(c)
        t = c.site(k + 1)
        ts[k + 1] = env.tensor('T', (t.shape[0] + 1,) + t.shape[1:])
        env.raises_at(k, (AssertionError,), lambda: env.mp.MPArray(ts), 'non-matching bonds rejected')


@unbounded('C10', [M + 'MPArray.copy', S + 'copy', S + '_update', M + 'MPArray.__imul__'], 'derive_then_modify')
def copies_any_length(env):
    """Changes of a copy or of the original do not change the other one"""
    env.forms_used = False
    N = env.length()
    legs = env.legs('d', 1)
    a, A = env.chain('a', N, legs, complex)
    how = env.choose('derive', ['copy', 'conj', 'T', 'mul', 'reverse2', 'reshape'])
    if how == 'copy':
        b, back = a.copy(), lambda t: t
    elif how == 'conj':
        b, back = a.conj(), lambda t: t.conj()
    elif how == 'T':
        b, back = a.T, lambda t: t
    elif how == 'mul':
        b, back = a * 1, lambda t: t
    elif how == 'reverse2':
        b, back = a.reverse().reverse(), lambda t: t
    else:
        b, back = a.ravel(), lambda t: t
    which = env.choose('modify', ['result', 'operand'])
    x, y = (b, a) if which == 'result' else (a, b)
    mod = env.choose('mod', ['imul', 'update'])
    if mod == 'imul':
        x *= env.scalar('c', complex)
    else:
        k = env.index('site', 0, N)
        x.lt.update(k, env.tensor('T', (A.bond(k), env.dim('e'), A.bond(k + 1))))
    at = env.sites_of(y)
    env.same(len_of(y), N, 'length')
    env.forall(0, N, lambda j: env.eq(at(j), back(A.site(j)) if which == 'operand' else A.site(j),
                                      'the other array is unchanged'))
