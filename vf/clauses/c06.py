from ..registry import clause
from . import history


@clause('C06', ['mpstruct.LocalTensors._update', 'mpstruct.LocalTensors.update',
                'mparray.MPArray.*'], sym=False, weight=3)
def histories(env):
    """The reported canonical form is truthful after every step of any history"""
    history.run(env, env.randint('steps', 1, 8), honest=True, frame=False)


@clause('C06', ['mpstruct.LocalTensors._update', 'mpstruct.LocalTensors.update'], weight=2)
def update_any(env):
    """One update from any honest form with any correctly declared normalization"""
    N = env.sites(1, 5)
    sh = env.shapes('shape', N, legs=1, lo=2, hi=3, maxsize=800)
    a = env.mpa('A', sh)
    history.OPS[env.choose('op', ['update', 'update_slice'])][0](None, env, a)
    env.honest(a)
    history.OPS[env.choose('op2', ['update', 'update_slice', 'imul', 'canonicalize'])][0](None, env, a)
    env.honest(a)


def _fresh(env, name, excl=()):
    N = env.sites(1, 4)
    sh = env.shapes('shape', N, legs=env.choose('legs', [1, 2]), maxsize=300)
    return env.mpa('A', sh, dtype=env.dtype('dt'))


@clause('C06', ['mparray.MPArray.*'], weight=3)
def every_operation(env):
    """Each single operation from any honest form"""
    a = _fresh(env, 'A')
    h = history.Hist(env)
    h.add(a)
    env.assume(h.live)
    name = env.choose('op', history.names(env))
    fn, cond, _ = history.OPS[name]
    env.assume(cond(a))
    new, changed = fn(h, env, a)
    for m in new:
        env.honest(m, 'canonical form of the result of ' + name)
    env.honest(a, 'canonical form after ' + name)
    if env.symbolic:
        return
    # the flags are used: a follow up canonicalization and norm must be right
    for m in (new + [a])[:2]:
        d = env.dense(m)
        env.eq(env.mp.norm(m.copy()), env.np.linalg.norm(d.ravel()), 'norm of the result of ' + name)
