from ..registry import clause, KNOWN
from . import qstate as q

NOISE = 1e-7


def funcs(env, ns, n):
    """Random functions of outcomes: (callable, dense table)"""
    np, rng = env.np, env.rng
    res = []
    for _ in range(n):
        tab = rng.randn(*ns)
        kind = rng.randint(3)
        if kind == 1:
            tab = (tab > 0).astype(float)
        elif kind == 2:
            tab = np.round(tab * 3)
        boolean = kind == 1
        def f(s, tab=tab, boolean=boolean):
            r = np.array([tab[tuple(int(x) for x in o)] for o in s])
            return r.astype(bool) if boolean else r
        res.append((f, tab))
    return res


@clause('C17', ['povm.mppovm.MPPovm.lfun', 'povm.mppovm.MPPovmList.lfun'], sym=False, weight=2)
def exact_functions(env):
    """Expectation value and covariance under the outcome distribution"""
    np, rng = env.np, env.rng
    N, hd, k, kind, M, E, rho, dm = q.case(env, Nmax=3, need_out=True)
    ns = [x for x in k if x > 1]
    p = q.squeeze(env, q.born(env, E, dm, N).real, k).ravel()
    n = env.choose('funs', [0, 1, 2, 3])
    if n:
        fs = funcs(env, ns, n)
        tab = np.array([t.ravel() for _, t in fs])
        arg = env.choose('t', [list, tuple])([f for f, _ in fs])
    else:
        tab, arg = np.eye(p.size), None
    ept = np.dot(tab, p)
    cov = np.array([[(tab[i] * tab[j] * p).sum() - ept[i] * ept[j] for j in range(len(tab))]
                    for i in range(len(tab))])
    e, c = M.lfun(None, arg, rho, kind)
    env.eq(e, ept, 'expectation values', tol=NOISE)
    env.eq(c, cov, 'covariance matrix', tol=NOISE)
    coeff = rng.randn(len(tab))
    if env.bit('zeros', .3):
        coeff[rng.randint(len(tab))] = 0
    e, v = M.lfun(coeff, arg, rho, kind)
    env.eq(e, np.dot(coeff, ept), 'expectation value', tol=NOISE)
    env.eq(v, np.dot(coeff, np.dot(cov, coeff)), 'variance', tol=NOISE)
    env.check(v >= 0, 'variance non-negative')
    # list
    M2, E2 = q.povm(env, 'povm2', hd, k)
    p2 = q.squeeze(env, q.born(env, E2, dm, N).real, k).ravel()
    L = env.mp.povm.MPPovmList([M, M2])
    c2 = rng.randn(len(tab))
    ept2 = np.dot(tab, p2)
    cov2 = np.dot(tab * p2, tab.T) - np.outer(ept2, ept2)
    e, v = L.lfun([coeff, c2], None if arg is None else [arg, arg], rho, kind)
    env.eq(e, np.dot(coeff, ept) + np.dot(c2, ept2), 'value (list)', tol=NOISE)
    env.eq(v, np.dot(coeff, np.dot(cov, coeff)) + np.dot(c2, np.dot(cov2, c2)), 'variance (list)', tol=NOISE)
    env.same([float(x) for x in M.lfun(np.zeros(0), [], rho, kind)], [0., 0.], 'empty sum')


def table(env, name, ns):
    """Arbitrary real function of the outcomes: (callable, table)"""
    np = env.np
    tab = env.tensor(name, tuple(ns), float, layout=False)

    def f(s):
        return np.array([tab[tuple(o)] for o in s])
    return f, tab


@clause('C17', ['povm.mppovm.MPPovm.lfun', 'povm.mppovm.MPPovmList.lfun'], weight=.5)
def functions_any(env):
    """Expectation value and covariance for arbitrary functions, POVMs and states"""
    np = env.np
    if env.real_only():
        N, hd, k, kind, M, E, rho, dm = q.case(env, Nmax=2, need_out=True)
    else:
        N = env.choose('N', [1, 2])
        k = q.outs(env, N)
        env.assume(any(x > 1 for x in k))
        kind = env.choose('state', ['mpdo', 'mps', 'pmps'] if N == 1 else ['mpdo'])
        hd = q.dims(env, N)
        M, E = q.povm(env, 'povm', hd, k)
        rho, dm = q.state(env, kind, hd)
    p = q.squeeze(env, q.re(env, q.born(env, E, dm, N)), k)
    if not env.real_only():
        p = env.as_real(p)
    ns = p.shape
    n = env.choose('funs', [0, 1, 2])
    if n:
        fs = [table(env, 'f%d' % i, ns) for i in range(n)]
        arg, tabs = [f for f, _ in fs], [t for _, t in fs]
    else:
        # all outcomes in order
        import itertools
        sizes = [int(x) for x in ns]
        arg, tabs = None, []
        for o in itertools.product(*[range(x) for x in sizes]):
            t = np.zeros(tuple(sizes))
            t[o] = 1.
            tabs.append(t)
    ept = [(t * p).sum() for t in tabs]
    cov = [[(s * t * p).sum() - x * y for t, y in zip(tabs, ept)] for s, x in zip(tabs, ept)]
    what = env.choose('what', ['moments', 'value', 'list'])
    with q.valid_pmf(env):
        if what == 'moments':
            e, c = M.lfun(None, arg, rho, kind)
            env.same((e.shape, c.shape), ((len(tabs),), (len(tabs),) * 2), 'shapes')
            for i in range(len(tabs)):
                env.eq(e[i], ept[i], 'expectation values', tol=NOISE)
                for j in range(len(tabs)):
                    env.eq(c[i, j], cov[i][j], 'covariance matrix', tol=NOISE)
            return
        a = env.tensor('coeff', (len(tabs),), float, layout=False)
        est, var = 0., 0.
        for i in range(len(tabs)):
            est = est + a[i] * ept[i]
            for j in range(len(tabs)):
                var = var + a[i] * a[j] * cov[i][j]
        env.assume_nonneg(var)              # variances are not negative
        if what == 'value':
            e, v = M.lfun(a, arg, rho, kind)
        else:
            L = env.mp.povm.MPPovmList([M, M])
            e, v = L.lfun([a, a], None if arg is None else [arg, arg], rho, kind)
            est, var = est * 2, var * 2
        env.eq(e, est, 'expectation value', tol=NOISE)
        env.eq(v, var, 'variance', tol=NOISE)


@clause('C17', ['povm.mppovm.MPPovm.est_lfun', 'povm.mppovm.MPPovmList.est_lfun'], weight=.5)
def estimates_any(env):
    """Sample mean and unbiased estimate of its variance for arbitrary functions, samples and weights"""
    np = env.np
    N = env.choose('N', [1, 2])
    k = q.outs(env, N)
    env.assume(any(x > 1 for x in k))
    M = env.mpa('M', [(x, 1, 1) for x in k], ranks=[1] * (N - 1), form=None, cls=env.mp.povm.MPPovm)
    ns = tuple(x for x in k if x > 1)
    m = env.choose('m', [2, 3, 7], sym=[2, 3])
    S = env.outcomes('s', m, ns)
    n = env.choose('n', [1, 2])
    fs = [table(env, 'f%d' % i, ns) for i in range(n)]
    arg = [f for f, _ in fs]
    F = [[t[tuple(o)] for o in S] for _, t in fs]
    if env.bit('weights'):
        w = env.positive('w', (m,))
        ww, tot = [w[i] for i in range(m)], w.sum()
    else:
        w, ww, tot = None, [1.] * m, float(m)
    mean = []
    for f in F:
        x = 0.
        for a, b in zip(ww, f):
            x = x + a * b
        mean.append(x / tot)
    cov = []
    for f, x in zip(F, mean):
        row = []
        for g, y in zip(F, mean):
            z = 0.
            for a, b, c in zip(ww, f, g):
                z = z + a * b * c
            row.append((z / tot - x * y) / (tot - 1.))
        cov.append(row)
    what = env.choose('what', ['moments', 'value'] + ([] if w is not None else ['list']))
    if what == 'moments':
        e, c = M.est_lfun(None, arg, S, w)
        for i in range(n):
            env.eq(e[i], mean[i], 'weighted sample mean')
            for j in range(n):
                env.eq(c[i, j], cov[i][j], 'covariance of the estimates')
        return
    a = env.tensor('coeff', (n,), float, layout=False)
    est, var = 0., 0.
    for i in range(n):
        est = est + a[i] * mean[i]
        for j in range(n):
            var = var + a[i] * a[j] * cov[i][j]
    env.assume_nonneg(var)
    if what == 'value':
        e, v = M.est_lfun(a, arg, S, w)
    else:
        L = env.mp.povm.MPPovmList([M, M])
        e, v = L.est_lfun([a, a], [arg, arg], [S, S])
        est, var = est * 2, var * 2
    env.eq(e, est, 'estimate')
    env.eq(v, var, 'variance of the estimate')


@clause('C17', ['povm.mppovm.MPPovm.est_lfun', 'povm.mppovm.MPPovmList.est_lfun'], sym=False, weight=2)
def sample_estimates(env):
    """Weighted sample mean and unbiased estimate of its variance"""
    np, rng = env.np, env.rng
    N = env.choose('N', [1, 2, 3])
    k = q.outs(env, N)
    env.assume(max(k) > 1)
    ns = [x for x in k if x > 1]
    M, _ = q.povm(env, 'povm', q.dims(env, N), k)
    m = env.choose('m', [2, 3, 10, 30])
    S = np.array([[rng.randint(d) for d in ns] for _ in range(m)], np.uint8)
    if env.choose('fromeye', [True, False]):
        K = int(np.prod(ns))
        tab, arg = np.eye(K), None
        idx = np.ravel_multi_index(S.T.astype(int), ns)
        F = tab[:, idx]
    else:
        fs = funcs(env, ns, env.choose('n', [1, 2, 3]))
        arg = [f for f, _ in fs]
        F = np.array([[t[tuple(int(x) for x in o)] for o in S] for _, t in fs])
    wk = env.choose('weights', ['none', 'counts', 'float'])
    if wk == 'none':
        w, ww = None, np.ones(m)
    elif wk == 'counts':
        w = ww = rng.randint(0, 5, size=m)
        w[0] += 2
    else:
        w = ww = rng.rand(m) * 3 + 1
    tot = float(ww.sum())
    mean = (F * ww).sum(1) / tot
    cov = (np.dot(F * ww, F.T) / tot - np.outer(mean, mean)) / (tot - 1)
    e, c = M.est_lfun(None, arg, S, w)
    env.eq(e, mean, 'weighted sample mean')
    env.eq(c, cov, 'covariance of the estimates')
    if wk == 'counts':
        rep = np.repeat(S, w, axis=0)
        e2, c2 = M.est_lfun(None, arg, rep)
        env.eq(e2, mean, 'counts as weights: mean')
        env.eq(c2, cov, 'counts as weights: covariance')
    coeff = rng.randn(len(F))
    e, v = M.est_lfun(coeff, arg, S, w)
    env.eq(e, np.dot(coeff, mean), 'estimate')
    env.eq(v, np.dot(coeff, np.dot(cov, coeff)), 'variance of the estimate')
    env.check(v >= 0, 'variance non-negative')
    if wk == 'none':
        L = env.mp.povm.MPPovmList([M, M])
        e, v = L.est_lfun([coeff, 2 * coeff], None if arg is None else [arg, arg], [S, S])
        env.eq(e, 3 * np.dot(coeff, mean), 'list: sum of estimates')
        env.eq(v, 5 * np.dot(coeff, np.dot(cov, coeff)), 'list: sum of variances')
    else:
        L = env.mp.povm.MPPovmList([M, M])
        e, v = L.est_lfun([coeff, 2 * coeff], None if arg is None else [arg, arg], [S, S],
                          weights=[w, w])
        plain = (F.sum(1) / m)
        if abs(e - 3 * np.dot(coeff, plain)) < 1e-9 and abs(e - 3 * np.dot(coeff, mean)) > 1e-7:
            KNOWN.add(('C17', 'MPPovmList.est_lfun(weights=...) ignores the weights argument'))
        else:
            env.eq(e, 3 * np.dot(coeff, mean), 'list: weighted estimates')


# -- estimates from other POVMs ------------------------------------------------

def pool(env, d):
    mpp = env.mp.povm
    np = env.np
    pl = [np.asarray(list(f(d))) for f in (mpp.x_povm, mpp.y_povm, mpp.z_povm, mpp.pauli_povm)]
    pl.append(np.eye(d).reshape((1, d, d)))
    # part of X merged: coarse grained
    x = pl[0]
    pl.append(np.array([x[0], np.eye(d) - x[0]]))
    # Z and X with unequal weights
    pl.append(np.concatenate([.25 * pl[2], .75 * pl[0]]))
    return pl


def prod_povm(env, locs):
    np = env.np
    MP = env.mp.povm.MPPovm
    return MP([np.array(x)[None, ..., None] for x in locs])


def matching(env, sl, ol):
    """Independent matching of product POVMs (lists of local elements).

    -> list of (outcome of self (non-singleton sites), outcome of other on the
    common sites, prefactor c with E_self = c E_other), support of self outcomes in other's columns
    """
    np = env.np
    N = len(sl)
    # merge outcomes of other where self has a single outcome
    om = [o if len(s) > 1 else o.sum(0)[None] for s, o in zip(sl, ol)]
    def elems(l):
        import itertools
        for idx in itertools.product(*[range(len(x)) for x in l]):
            m = np.ones((1, 1))
            for i, x in zip(idx, l):
                m = np.kron(m, x[i])
            yield idx, m
    res = []
    oe = list(elems(om))
    for i, a in elems(sl):
        for j, b in oe:
            c = np.vdot(b, a) / np.vdot(b, b)
            if abs(c.imag) < 1e-9 and c.real > 1e-12 and abs(a - c * b).max() < 1e-9:
                ii = tuple(x for x, s in zip(i, sl) if len(s) > 1)
                jj = tuple(x for x, o in zip(j, om) if len(o) > 1)
                res.append((ii, jj, c.real))
    # columns of the samples of other which are compared
    col, supp = 0, []
    for s, o in zip(sl, ol):
        if len(o) > 1:
            if len(s) > 1:
                supp.append(col)
            col += 1
    return res, supp


def setting(env, nother=1):
    np, rng = env.np, env.rng
    N = env.choose('N', [1, 2, 3])
    d = env.choose('d', [2, 3] if N == 1 else [2])
    pl = pool(env, d)
    def pick(name, ids):
        i = env._note(name, [int(rng.choice(ids)) for _ in range(N)])
        return [pl[x] for x in i]
    for _ in range(40):
        sl = pick('self', [0, 1, 2, 3, 4, 4, 5, 6])
        if max(len(x) for x in sl) > 1 and np.prod([len(x) for x in sl]) <= 40:
            break
    else:
        env.assume(False)
    others = []
    while len(others) < nother:
        ol = pick('other', [0, 1, 2, 3, 4, 6])
        if rng.rand() < .6:
            # same local POVM on many sites
            ol = [s if (len(s) > 1 and rng.rand() < .7) else o for s, o in zip(sl, ol)]
        if max(len(x) for x in ol) == 1 or np.prod([len(x) for x in ol]) > 220:
            if rng.rand() < .02:
                env.assume(False)
            continue
        others.append(ol)
    return N, d, sl, others


def draw(env, ol, m):
    np, rng = env.np, env.rng
    ns = [len(x) for x in ol if len(x) > 1]
    return np.array([[rng.randint(x) for x in ns] for _ in range(m)], np.uint8).reshape((m, len(ns)))


@clause('C17', ['povm.mppovm.MPPovm.match_elems'], sym=False, weight=1)
def match_elems(env):
    """Matching elements and prefactors"""
    np = env.np
    N, d, sl, (ol,) = setting(env)
    A, B = prod_povm(env, sl), prod_povm(env, ol)
    ref, supp = matching(env, sl, ol)
    with env.unchanged(A, B):
        m, f = A.match_elems(B)
    sn = tuple(len(s) for s in sl if len(s) > 1)
    on = tuple(len(o) for s, o in zip(sl, ol) if len(s) > 1 and len(o) > 1)
    env.same(m.shape, sn + on, 'shape of matches')
    want = np.zeros(sn + on, bool)
    pref = np.zeros(sn + on)
    pref[...] = np.nan
    for i, j, c in ref:
        want[i + j] = True
        pref[i + j] = c
    env.check((m == want).all(), 'matching outcomes')
    env.check((np.isnan(f) == ~want).all(), 'prefactors exactly for matches')
    if want.any():
        env.eq(f[want], pref[want], 'prefactors')


@clause('C17', ['povm.mppovm.MPPovm.est_pmf_from', 'povm.mppovm.MPPovm._elemsum_identity',
                'povm.mppovm.MPPovm._fill_outcome_mpa_holes', 'povm.mppovm.MPPovm.est_pmf_from_mpps',
                'povm.mppovm.MPPovmList.est_pmf_from'], sym=False, weight=2)
def est_pmf_from(env):
    """Probabilities estimated from samples of other POVMs"""
    np, rng = env.np, env.rng
    N, d, sl, others = setting(env, env.choose('others', [1, 2, 3]))
    A = prod_povm(env, sl)
    sn = tuple(len(s) for s in sl if len(s) > 1)
    samples, ests, used = [], [], []
    bad = False
    for ol in others:
        B = prod_povm(env, ol)
        S = draw(env, ol, int(rng.randint(1, 12)))
        samples.append(S)
        ref, supp = matching(env, sl, ol)
        est = np.zeros(sn)
        given = np.zeros(sn, bool)
        n_used = 0
        hit = np.zeros(len(S), bool)
        dup = {}
        for i, j, c in ref:
            given[i] = True
            ok = (S[:, supp] == np.array(j, int)[None, :]).all(1) if len(supp) else np.ones(len(S), bool)
            hit |= ok
            est[i] += c * ok.sum() / float(len(S))
        # the elements with information must sum to a fraction of the identity
        tot = 0
        import itertools
        for idx in itertools.product(*[range(len(s)) for s in sl]):
            if given[tuple(x for x, s in zip(idx, sl) if len(s) > 1)]:
                m = np.ones((1, 1))
                for x, s in zip(idx, sl):
                    m = np.kron(m, s[x])
                tot = tot + m
        if given.any():
            frac = np.trace(tot).real / len(tot)
            ident = abs(tot - frac * np.eye(len(tot))).max() < 1e-8
            consistent = abs(est.sum() - frac) < 1e-8
            if not (ident and consistent):
                env.raises(AssertionError, lambda: A.est_pmf_from(B, S), 'incomplete information rejected')
                bad = True
                continue
        est[~given] = np.nan
        with env.unchanged(A, B):
            e, n = A.est_pmf_from(B, S)
        env.same(e.shape, sn, 'shape of the estimate')
        env.check((np.isnan(e) == ~given).all(), 'not available exactly where information is missing')
        if given.any():
            env.eq(e[given], est[given], 'estimated probabilities')
        env.same(int(n), int(hit.sum()) if given.any() else 0, 'number of samples used')
        ests.append(est)
        used.append(int(n))
    if bad:
        return
    L = env.mp.povm.MPPovmList([prod_povm(env, ol) for ol in others])
    e, n = A.est_pmf_from_mpps(L, samples)
    nn = np.zeros(sn, int)
    num = np.zeros(sn)
    for est, u in zip(ests, used):
        g = ~np.isnan(est)
        nn[g] += u
        num[g] += u * est[g]
    env.same(n.tolist(), nn.tolist(), 'samples used per probability')
    ok = nn > 0
    env.check((np.isnan(e) == ~ok).all(), 'availability')
    if ok.any():
        env.eq(e[ok], num[ok] / nn[ok], 'weighted average by number of samples')
    r = list(env.mp.povm.MPPovmList([A, A]).est_pmf_from(L, samples))
    env.same(len(r), 2, 'one estimate per POVM')
    if ok.any():
        env.eq(r[1][0][ok], e[ok], 'list of POVMs')


@clause('C17', ['povm.mppovm.MPPovmList.lfun_from', 'povm.mppovm.MPPovmList.est_lfun_from',
                'povm.mppovm.MPPovmList._lfun_estimator', 'povm.mppovm.MPPovm._mppl_lfun_estimator'],
        sym=False, weight=2.5)
def linear_functions_from(env):
    """Linear functions of probabilities from other POVMs: exact value and estimate"""
    np, rng = env.np, env.rng
    N, d, sl0, others = setting(env, env.choose('others', [1, 2, 3]))
    selfs = [sl0]
    if env.choose('two', [True, False]):
        selfs.append(list(others[0]) if np.prod([len(x) for x in others[0]]) <= 40 else sl0)
    A = env.mp.povm.MPPovmList([prod_povm(env, s) for s in selfs])
    B = env.mp.povm.MPPovmList([prod_povm(env, o) for o in others])
    kind = env.choose('state', ['mps', 'mpdo', 'pmps'])
    rho, dm = q.state(env, kind, [d] * N)
    wk = env.choose('weights', ['none', 'int', 'float'])
    w = {'none': None, 'int': [int(x) for x in rng.randint(1, 9, size=len(others))],
         'float': list(rng.rand(len(others)) + .1)}[wk]
    ww = [1.] * len(others) if w is None else w
    samples = [draw(env, o, int(rng.randint(2, 9))) for o in others]
    match = [[matching(env, s, o) for o in others] for s in selfs]
    coeff = []
    for s, ms in zip(selfs, match):
        sn = tuple(len(x) for x in s if len(x) > 1)
        c = rng.randn(*sn)
        if env.bit('only-available', .8):
            av = np.zeros(sn, bool)
            for r, _ in ms:
                for i, j, f in r:
                    av[i] = True
            c[~av] = 0.
        if env.bit('sparse', .4):
            c[rng.rand(*sn) < .5] = 0.
        coeff.append(c)

    def estimator(weights):
        """Per other POVM: list of (columns, outcome, coefficient); None if not sufficient"""
        fs = [[] for _ in others]
        for s, c, ms in zip(selfs, coeff, match):
            W = np.zeros(c.shape)
            for (r, _), x in zip(ms, weights):
                for i, j, f in r:
                    W[i] += x
            if ((c != 0) & (W == 0)).any():
                return None
            for pos, ((r, supp), x) in enumerate(zip(ms, weights)):
                for i, j, f in r:
                    fs[pos].append((supp, j, c[i] * x / W[i] * f))
        return fs

    fs = estimator(ww)
    val, var = A.lfun_from(B, coeff, rho, kind, other_weights=None if w is None else w)
    if fs is None:
        env.check(np.isnan(val) and np.isnan(var), 'not available when information is missing')
    else:
        ev, vv = 0., 0.
        for o, f in zip(others, fs):
            ns = [len(x) for x in o if len(x) > 1]
            E = env.dense(prod_povm(env, o))
            p = q.squeeze(env, q.born(env, E, dm, N).real, [len(x) for x in o]).ravel()
            outs = np.array(np.unravel_index(np.arange(p.size), ns)).T
            g = np.zeros(p.size)
            for supp, j, c in f:
                g += c * (outs[:, supp] == np.array(j, int)[None, :]).all(1)
            ev += (g * p).sum()
            vv += (g * g * p).sum() - (g * p).sum() ** 2
        env.eq(val, ev, 'exact value', tol=NOISE)
        env.eq(var, vv, 'variance', tol=NOISE)
        # reduces to the exact value of the probabilities themselves
        exact = 0.
        for s, c in zip(selfs, coeff):
            E = env.dense(prod_povm(env, s))
            p = q.squeeze(env, q.born(env, E, dm, N).real, [len(x) for x in s])
            exact += (c * p).sum()
        env.eq(val, exact, 'value of the linear function', tol=NOISE)
    est, v = A.est_lfun_from(B, coeff, samples)
    fs = estimator([float(len(s)) for s in samples])
    if fs is None:
        env.check(np.isnan(est) and np.isnan(v), 'estimate not available when information is missing')
        return
    ev, vv = 0., 0.
    for S, f in zip(samples, fs):
        g = np.zeros(len(S))
        for supp, j, c in f:
            g += c * (S[:, supp] == np.array(j, int)[None, :]).all(1)
        ev += g.mean()
        vv += ((g ** 2).mean() - g.mean() ** 2) / (len(S) - 1)
    env.eq(est, ev, 'estimate')
    env.eq(v, vv, 'variance of the estimate')
