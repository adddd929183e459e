import os
import shutil
import tempfile

from ..registry import clause
from .common import basic


@clause('C22', ['mparray.MPArray.dump', 'mparray.MPArray.load'], sym=False, weight=2)
def roundtrip(env):
    """dump / load by path or open group"""
    np = env.np
    import h5py
    N = env.sites(1, 5)
    sh = env.shapes('shapes', N, uniform_legs=env.choose('ul', [True, False]), maxsize=2000)
    what = env.choose('what', ['plain', 'mixed', 'canon', 'compressed', 'single', 'int', 'povm', 'negstride'])
    cls = None
    if what == 'povm':
        sh = [(2, 2, 2)] * min(N, 3)
        cls = env.mp.povm.MPPovm
    dt = dict(single=np.float32, int=np.int64).get(what) or env.dtype('dt', 'dzc')
    m = env.mpa('A', sh, dtype=dt, form='any' if what not in ('int', 'single', 'povm') else None, cls=cls,
                mixed=what == 'mixed')
    if what == 'canon' and env.np.dtype(dt).itemsize >= 8:
        f = env.choose('f', env.forms(len(sh)))
        m.canonicalize(left=f[0], right=f[1])
    elif what == 'compressed' and len(sh) > 1:
        env.assume(abs(env.dense(m)).max() > 0 and dt != np.complex64)
        m.compress(method='svd', rank=2)
    before = [np.array(t) for t in m.lt]
    form = m.canonical_form
    tmp = tempfile.mkdtemp(prefix='vf_c22_')
    try:
        style = env.choose('style', ['path', 'file', 'group', 'several'])
        path = os.path.join(tmp, 'x.h5')
        load = type(m).load
        if style == 'path':
            if env.bit('overwrite', .3):
                env.mpa('O', [(2,)] * 7).dump(path)
            m.dump(path)
            r = load(path)
            os.remove(path)
        elif style == 'file':
            with h5py.File(path, 'w') as f:
                m.dump(f)
                r = load(f)
        elif style == 'group':
            with h5py.File(path, 'w') as f:
                m.dump(f.create_group('a/b'))
            with h5py.File(path, 'r') as f:
                r = load(f['a/b'])
        else:
            o = env.mpa('O', [(2,), (3,)])
            with h5py.File(path, 'w') as f:
                o.dump(f.create_group('o'))
                m.dump(f.create_group('m'))
            with h5py.File(path, 'r') as f:
                r = load(f['m'])
                oo = env.mp.MPArray.load(f['o'])
            for a, b in zip(o.lt, oo.lt):
                env.bitwise(np.array(a), np.array(b), 'other group')
    finally:
        shutil.rmtree(tmp)
    env.check(type(r) is type(m), 'type')
    basic(env, r, [tuple(s) for s in sh], 'loaded')
    env.same(len(r), len(before), 'number of sites')
    for a, b, c in zip(r.lt, before, m.lt):
        env.bitwise(np.array(a), b, 'loaded tensors bitwise equal')
        env.bitwise(np.array(c), b, 'dumped array unchanged')
    env.same([int(x) for x in r.canonical_form], list(form), 'canonical form')
    env.same(m.canonical_form, form, 'canonical form of the dumped array unchanged')
    env.same(r.ranks, m.ranks, 'ranks')
    env.check(r.dtype == m.dtype, 'dtype')
    if before[0].dtype.kind in 'fc':
        env.honest(r)
    # usable and independent
    if before[0].dtype.kind in 'fc' and not env.single:
        r.canonicalize(left=env.choose('l', list(range(len(sh)))))
        env.eq(env.dense(r), env.dense(before), 'loaded array can be used', scale=max(1, abs(env.dense(before)).max()))
        env.honest(r)
        for c, b in zip(m.lt, before):
            env.bitwise(np.array(c), b, 'independent of the dumped array')


@clause('C22', ['mparray.MPArray.dump', 'mparray.MPArray.load', 'mpstruct.LocalTensors.__init__'], weight=1)
def any_chain(env):
    """dump / load for arbitrary dimensions, ranks, entries and canonical forms"""
    N = env.sites(1, 4)
    sh = env.shapes('sh', N, uniform_legs=env.bit('ul'), maxsize=500)
    form = env.choose('form', [None] + env.forms(N))
    m = env.mpa('A', sh, dtype=env.dtype('dt'), form=form, mixed=env.bit('mixed', .3))
    before = [t.copy() for t in m.lt]
    cform = m.canonical_form
    with env.store() as st:
        if env.bit('path'):
            m.dump(st.path('x'))
            r = env.mp.MPArray.load(st.path('x'))
        else:
            m.dump(st.group('a', True))
            if env.bit('other'):
                env.mpa('O', [(2,), (3,)], form=None).dump(st.group('b', True))
            r = env.mp.MPArray.load(st.group('a', False))
    env.check(type(r) is type(m), 'type')
    basic(env, r, [tuple(s) for s in sh], 'loaded')
    for a, b, c in zip(r.lt, before, m.lt):
        env.bitwise(a, b, 'loaded tensors bitwise equal')
        env.bitwise(c, b, 'dumped array unchanged')
    env.same([int(x) for x in r.canonical_form], list(cform), 'canonical form')
    env.same(m.canonical_form, cform, 'canonical form of the dumped array unchanged')
    env.same(r.ranks, m.ranks, 'ranks')
    env.check(r.dtype == m.dtype, 'dtype')
    env.honest(r)
    # usable and independent
    r.canonicalize(left=env.choose('l', list(range(N))))
    env.eq(env.dense(r), env.dense(before), 'loaded array can be used', scale=10.)
    for c, b in zip(m.lt, before):
        env.bitwise(c, b, 'independent of the dumped array')
