from ..registry import clause
from . import history


@clause('C10', ['mparray.MPArray.*', 'mpstruct.LocalTensors.*'], sym=False, weight=4)
def histories(env):
    """No step changes a chain other than its documented target"""
    history.run(env, env.randint('steps', 2, 9), honest=False, frame=True)


@clause('C10', ['mparray.MPArray.*'], weight=4)
def derive_then_modify(env):
    """Derive a result, modify one of both in place, the other one stays"""
    N = env.sites(1, 4)
    sh = env.shapes('shape', N, legs=env.choose('legs', [1, 2, 2]), maxsize=200,
                    uniform=env.bit('uni'))
    a = env.mpa('A', sh, dtype=env.dtype('dt'))
    h = history.Hist(env)
    h.add(a)
    if env.bit('second'):
        h.add(env.mpa('B', sh, dtype=env.dtype('dtB')))
    env.assume(h.live)
    derive = [n for n in history.names(env) if n not in
              ('imul', 'canonicalize', 'norm', 'normdist', 'singularvals', 'compress',
               'compress_nocanon', 'compress_var', 'update', 'update_slice', 'factory')]
    name = env.choose('derive', derive)
    fn, cond, _ = history.OPS[name]
    env.assume(cond(a))
    new, changed = fn(h, env, a)
    h.verify(name, changed, honest=False)
    for m in new:
        env.check(all(m is not x for x in h.live), 'result of %s is a new object' % name)
        h.add(m)
    env.assume(len(h.live) > 1)
    for _ in range(env.randint('mods', 1, 3)):
        mod = env.choose('modify', ['imul', 'canonicalize', 'norm', 'singularvals', 'compress',
                                    'update', 'update_slice', 'imul', 'update'])
        i = h.pick(history.OPS[mod][1])
        new, changed = history.OPS[mod][0](h, env, h.live[i])
        h.verify('%s after %s' % (mod, name), changed, honest=False)


@clause('C10', ['mparray.MPArray.copy', 'mpstruct.LocalTensors.copy', 'mparray.MPArray.to_array',
                'mparray._ltens_to_array', 'mpstruct._roview', 'mpstruct.LocalTensors.__getitem__',
                'mpstruct.LocalTensors.__iter__'], sym=False, weight=2)
def handed_out(env):
    """Copies share no memory; dense arrays are writable and independent; local tensors read-only"""
    np = env.np
    N = env.sites(1, 4)
    p = env.choose('legs', [0, 1, 2])
    sh = env.shapes('shape', N, legs=p, maxsize=200)
    a = env.mpa('A', sh, dtype=env.dtype('dt', 'dzf'))
    d = env.dense(a).copy()
    what = env.choose('what', ['copy', 'to_array', 'to_array_global', 'lt', 'iter', 'slice', 'sum',
                               'ltcopy', 'trace', 'group', 'diag'])
    if what in ('copy', 'ltcopy', 'group'):
        c = a.copy() if what == 'copy' else (a.group_sites(1) if what == 'group' else a.lt.copy())
        ls = list(c.lt) if what != 'ltcopy' else list(c)
        env.check(not any(np.may_share_memory(x, y) for x in ls for y in a.lt),
                  'copy shares no memory')
        for x, y in zip(ls, a.lt):
            env.bitwise(x, y, 'copy is equal')
        env.same(c.canonical_form, a.canonical_form, 'copy has the same form')
    elif what in ('to_array', 'to_array_global', 'sum', 'diag'):
        if what == 'sum':
            x = a.sum()
        elif what == 'diag':
            env.assume(p == 1 and len(set(s for s in sh)) == 1)
            x = env.mp.diag(a)
        else:
            x = getattr(a, what)()
        env.assume(isinstance(x, np.ndarray) and x.ndim > 0)
        env.check(x.flags.writeable, 'dense array is writable')
        x[...] = 17.
        env.check(not any(np.shares_memory(x, y) for y in a.lt), 'dense array shares no memory')
    elif what == 'trace':
        env.assume(p == 2 and all(s[0] == s[1] for s in sh))
        env.mp.trace(a)
    else:
        i = env.randint('i', 0, N - 1)
        if what == 'lt':
            x = a.lt[i]
        elif what == 'iter':
            x = list(iter(a.lt))[i]
        else:
            x = list(a.lt[i:i + 1])[0]
        try:
            x[...] = 17.
        except ValueError:
            pass
        try:
            x *= 2
        except ValueError:
            pass
    env.eq(env.dense(a), d, 'chain cannot be modified through what is handed out')
