"""Independent dense semantics used in several clauses."""


def flat(shapes):
    return tuple(d for s in shapes for d in s)


def site_legs(shapes):
    """Axis numbers (dense array, local form) of all legs per site"""
    res, n = [], 0
    for s in shapes:
        res.append(list(range(n, n + len(s))))
        n += len(s)
    return res


def site_legs_n(ndims):
    return site_legs([(1,) * n for n in ndims])


def rand_perm(env, label, n):
    import itertools
    if getattr(env, 'symbolic', False):
        return env.choose(label, list(itertools.permutations(range(n))))
    return tuple(int(x) for x in env._note(label, [int(y) for y in env.rng.permutation(n)]))


def contract(env, arrays, labels, out):
    """einsum with integer labels"""
    args = []
    for a, l in zip(arrays, labels):
        args += [a, list(l)]
    # einsum labels must be < 52
    m = {}
    for l in labels:
        for x in l:
            m.setdefault(x, len(m))
    args = []
    for a, l in zip(arrays, labels):
        args += [a, [m[x] for x in l]]
    return env.np.einsum(*(args + [[m[x] for x in out]]))


def basic(env, m, shapes, label):
    """Structure of a chain agrees with the expected shapes"""
    env.wellformed(m, label + ': well formed')
    env.same(len(m), len(shapes), label + ': length')
    env.same(m.shape, tuple(tuple(s) for s in shapes), label + ': shape')
    env.same(m.ndims, tuple(len(s) for s in shapes), label + ': ndims')


def matrix(env, a):
    """Dense local form with two legs per site -> matrix"""
    np = env.np
    n = a.ndim // 2
    a = np.transpose(a, list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    r = 1
    for d in a.shape[:n]:
        r *= d
    return a.reshape((r, -1))
