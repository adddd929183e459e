"""Concrete environment: evaluates contract clauses on the real code."""
from __future__ import division, print_function
import contextlib
import numpy as np
from .registry import ContractViolation, Reject


def _isarr(x):
    return isinstance(x, np.ndarray)


def _plain(o):
    """JSON form of an option, the same in both environments"""
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, (list, tuple)):
        return [_plain(x) for x in o]
    if isinstance(o, type) or isinstance(o, np.dtype):
        try:
            return 'dtype:' + np.dtype(o).name
        except TypeError:
            return repr(o)
    return repr(o)


_DICT = []


def dictionary():
    """Integers the code under check is sensitive to (constants of comparisons and of modulo
    operations): sizes near them are tried more often"""
    if not _DICT:
        import ast
        import os
        import mpnum
        root = os.path.dirname(os.path.abspath(mpnum.__file__))
        vals = set()
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith('.py'):
                    continue
                try:
                    with open(os.path.join(d, f), 'rb') as h:
                        tree = ast.parse(h.read())
                except (SyntaxError, ValueError, OSError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Compare) or isinstance(n, ast.BinOp) and \
                            isinstance(n.op, (ast.Mod, ast.FloorDiv)) or isinstance(n, ast.Call) and \
                            getattr(n.func, 'id', '') in ('min', 'max'):
                        for c in ast.walk(n):
                            v = getattr(c, 'value', None) if isinstance(c, ast.Constant) else None
                            if isinstance(v, int) and not isinstance(v, bool) and 2 < v <= 64:
                                vals.update((v - 1, v, v + 1))
        _DICT.append(sorted(v for v in vals if v > 3))
    return _DICT[0]


class RealEnv(object):
    symbolic = False

    def __init__(self, seed, hints=None):
        import mpnum
        import mpnum.povm
        import mpnum.special
        import mpnum.linalg
        import mpnum.utils.physics
        self.mp = mpnum
        self.np = np
        self.seed = seed
        self.rng = np.random.RandomState(seed)
        self.log = []           # the choices made: the failing input, readable
        self.hints = dict((k, list(v)) for k, v in (hints or {}).items())
        self.checks = 0
        self.single = False
        self.worst = (0., '')

    # -- structural choices -------------------------------------------------
    def _note(self, label, val):
        self.log.append((label, val))
        return val

    def _hint(self, label, ok=lambda v: True):
        """Next value of a counterexample of the deductive part for this label"""
        q = self.hints.get(label)
        if not q:
            return None
        v = q.pop(0)
        try:
            return [v] if ok(v) else None
        except (TypeError, ValueError):
            return None

    def choose(self, label, options, sym=None):
        options = list(options)
        h = self._hint(label)
        if h is not None:
            for o in options:
                if _plain(o) == h[0]:
                    return self._note(label, o)
        return self._note(label, options[self.rng.randint(len(options))])

    def randint(self, label, lo, hi):
        """Integer lo <= x <= hi"""
        h = self._hint(label, lambda v: lo <= v <= hi)
        if h:
            return self._note(label, int(h[0]))
        return self._note(label, int(self.rng.randint(lo, hi + 1)))

    def sites(self, lo=1, hi=6, label='N', sym=None):
        h = self._hint(label, lambda v: lo <= v <= hi + 4)
        if h:
            return self._note(label, int(h[0]))
        if self.rng.rand() < 0.04 and hi >= 5:
            return self._note(label, int(self.rng.randint(hi + 1, hi + 5)))
        if self.rng.rand() < 0.03 and hi >= 5:
            d = [v for v in dictionary() if v <= 14] or [hi]
            return self._note(label, d[self.rng.randint(len(d))])
        return self._note(label, int(self.rng.randint(lo, hi + 1)))

    def dim(self, label, lo=1, hi=3):
        h = self._hint(label, lambda v: v >= lo)
        if h:
            return self._note(label, int(min(h[0], 12)))
        x = self.rng.rand()
        if x < 0.05:
            hi = hi + 2
        elif x < 0.08:
            d = [v for v in dictionary() if lo <= v <= 12] or [hi]
            return self._note(label, d[self.rng.randint(len(d))])
        return self._note(label, int(self.rng.randint(lo, hi + 1)))

    def bit(self, label, p=0.5):
        h = self._hint(label)
        if h:
            return self._note(label, bool(h[0]))
        return self._note(label, bool(self.rng.rand() < p))

    def dtype(self, label, kinds=('d', 'z')):
        m = dict(d=np.float64, z=np.complex128, f=np.float32, c=np.complex64, i=np.int64)
        h = self._hint(label)
        if h:
            for k in kinds:
                if _plain(m[k]) == h[0]:
                    return self._note(label, m[k])
        return m[self.choose(label, list(kinds))]

    # -- inputs -------------------------------------------------------------
    def tensor(self, name, shape, dtype=complex, layout=True, zero=0.04):
        shape = tuple(int(s) for s in shape)
        rng = self.rng
        dtype = np.dtype(dtype)
        if dtype in (np.dtype('f'), np.dtype('F')):
            self.single = True
        if dtype.kind in 'iu':
            x = rng.randint(-4, 5, size=shape).astype(dtype)
        else:
            x = rng.randn(*shape) if shape else np.array(rng.randn())
            if dtype.kind == 'c':
                x = x + 1j * (rng.randn(*shape) if shape else rng.randn())
            x = np.asarray(x).astype(dtype)
            special = rng.rand()
            if special < 0.1:
                x = np.round(x).astype(dtype)
            elif special < 0.12:
                x = (x * (rng.rand(*shape) < .4)).astype(dtype)         # many zeros
            elif special < 0.14 and dtype.kind == 'c':
                x = (x.real * (1 if rng.rand() < .5 else 1j)).astype(dtype)  # real or imaginary
            elif special < 0.16 and x.ndim > 1:
                x = (x[:1] * rng.randn(*((shape[0],) + (1,) * (x.ndim - 1)))).astype(dtype)
            elif special < 0.17:
                x = (x * 10. ** -rng.randint(1, 4)).astype(dtype)       # small entries
        if zero and rng.rand() < zero:
            x = np.zeros(shape, dtype)
        if layout and x.ndim > 0:
            k = rng.randint(5)
            if k == 0:
                x = np.asfortranarray(x)
            elif k == 1 and x.ndim <= 7:
                big = np.zeros(tuple(2 * s for s in shape), dtype)
                sl = tuple(slice(None, None, 2) for _ in shape)
                big[sl] = x
                x = big[sl]
            elif k == 2:
                x = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
        return x

    def randstate(self, label, same=None):
        """An arbitrary random state (or one in the same state as an earlier one)"""
        r = np.random.RandomState(self.randint(label, 0, 10 ** 6) if same is None else same.vfseed)
        self.gstate = np.random.get_state()
        return self._rand(r, label, same)

    def _rand(self, r, label, same):
        class R(object):
            def __getattr__(s, name):
                return getattr(r, name)
        w = R()
        w.__dict__['vfseed'] = dict(self.log)[label] if same is None else same.vfseed
        return w

    def no_global_random(self):
        """Nothing was drawn from the global random state since the last call of ``randstate``"""
        a, b = self.gstate, np.random.get_state()
        self.check((a[1] == b[1]).all() and a[2:] == b[2:], 'global random state untouched')

    def unit_vector(self, name, op):
        """Arbitrary normalized vector on which the matrix ``op`` acts"""
        n = op.shape[0]
        x = self.rng.randn(n) + 1j * self.rng.randn(n)
        return x / np.linalg.norm(x)

    def scalar(self, name, dtype=complex, nonzero=True):
        k = self.rng.randint(6)
        if np.dtype(dtype).kind == 'c':
            v = [complex(self.rng.randn(), self.rng.randn()), 1j, -1.0 + 0j,
                 np.complex128(self.rng.randn() + 2j), complex(self.rng.randn() or 1., 0),
                 complex(0, -self.rng.rand() - .01)][k]
        else:
            v = [float(self.rng.randn()) or 1.0, -1, 2, np.float64(self.rng.randn() or 1.), 1, -.5][k]
        return self._note(name, v)

    def shapes(self, label, N, legs=None, uniform_legs=True, lo=1, hi=3, maxsize=4096,
               uniform=False):
        """Physical shapes (list of tuples of dims) of a chain with N sites"""
        h = self._hint(label, lambda v: len(v) == N and np.prod([float(d) for x in v for d in x]) <= 4 * maxsize)
        if h and all(isinstance(x, list) and all(lo <= d for d in x) for x in h[0]):
            sh = [tuple(int(d) for d in x) for x in h[0]]
            if legs is None or [len(x) for x in sh] == (
                    [legs] * N if not isinstance(legs, (list, tuple)) else list(legs)):
                return self._note(label, sh)
        for _ in range(50):
            if legs is None:
                if uniform_legs:
                    n = self.rng.randint(0, 4) if self.rng.rand() < .3 else self.rng.randint(1, 3)
                    nl = [n] * N
                else:
                    nl = [self.rng.randint(0, 4) for _ in range(N)]
            else:
                nl = [legs] * N if not isinstance(legs, (list, tuple)) else list(legs)
            if sum(nl) > 24:
                if legs is None:
                    continue
                raise Reject()
            if uniform or self.rng.rand() < .25:
                first = {n: tuple(int(self.rng.randint(lo, hi + 1)) for _ in range(n))
                         for n in set(nl)}
                sh = [first[n] for n in nl]
            else:
                sh = [tuple(int(self.rng.randint(lo, hi + 1)) for _ in range(n)) for n in nl]
            if self.rng.rand() < .04 and sum(nl):
                # one unusually large leg
                k = [i for i, n in enumerate(nl) if n][self.rng.randint(sum(1 for n in nl if n))]
                d = [v for v in dictionary() if v >= lo] or [hi]
                x = list(sh[k])
                x[self.rng.randint(len(x))] = d[self.rng.randint(len(d))]
                y = tuple(x)
                big = [y if uniform else t for t in sh]
                big[k] = y
                if np.prod([np.prod(s, dtype=float) for s in big]) <= maxsize:
                    return self._note(label, big)
            if np.prod([np.prod(s, dtype=float) for s in sh]) <= maxsize:
                return self._note(label, sh)
            hi = max(lo, hi - 1) if hi > 2 else hi
            if np.prod([2. ** len(s) for s in sh]) > maxsize and lo <= 1:
                hi = min(hi, 2)
        if sum(nl) > 24:
            raise Reject()
        sh = [tuple(lo for _ in range(n)) for n in nl]
        return self._note(label, sh)

    def ranks(self, label, shapes, hi=4):
        N = len(shapes)
        h = self._hint(label, lambda v: len(v) == N - 1)
        if h:
            return self._note(label, [min(int(r), 12) for r in h[0]])
        k = self.rng.randint(8)
        if k == 0:
            r = [1] * (N - 1)
        elif k == 1:
            r = [int(self.rng.randint(1, hi + 1))] * (N - 1)
        else:
            r = [int(self.rng.randint(1, hi + 1)) for _ in range(N - 1)]
        if N > 1 and N < 6 and self.rng.rand() < .04:
            d = [v for v in dictionary() if v <= 20] or [hi]
            r[self.rng.randint(N - 1)] = d[self.rng.randint(len(d))]
        return self._note(label, r)

    def forms(self, N):
        """All possible canonical forms (l, r) with l < r"""
        return [(l, r) for l in range(N) for r in range(l + 1, N + 1)]

    def ltens(self, name, shapes, ranks=None, dtype=complex, form=None, layout=True,
              mixed=False):
        if ranks is None:
            ranks = self.ranks(name + '.ranks', shapes)
        full = [1] + list(ranks) + [1]
        dts = [dtype] * len(shapes)
        if mixed:
            pool = [np.float64, np.complex128]
            dts = [pool[self.rng.randint(2)] for _ in shapes]
        lt = [self.tensor('%s[%d]' % (name, k), (full[k],) + tuple(s) + (full[k + 1],), dts[k],
                          layout=layout)
              for k, s in enumerate(shapes)]
        if form is not None:
            l, r = form
            for k in range(l):
                t = lt[k]
                q, rr = np.linalg.qr(t.reshape((-1, t.shape[-1])))
                lt[k] = q.reshape(t.shape[:-1] + (-1,))
                lt[k + 1] = np.tensordot(rr, lt[k + 1], (1, 0))
            for k in range(len(lt) - 1, r - 1, -1):
                t = lt[k]
                q, rr = np.linalg.qr(t.reshape((t.shape[0], -1)).T)
                lt[k] = q.T.reshape((-1,) + t.shape[1:])
                lt[k - 1] = np.tensordot(lt[k - 1], rr.T, (-1, 0))
        return lt

    def mpa(self, name, shapes, ranks=None, dtype=complex, form='any', cls=None, mixed=False,
            layout=True):
        """A chain; ``form``: canonical form (l, r), None, or 'any'"""
        N = len(shapes)
        if isinstance(form, str):
            h = self._hint(name + '.form', lambda v: v is None or tuple(v) in self.forms(N))
            if h:
                form = None if h[0] is None else tuple(h[0])
            elif self.rng.rand() < .5:
                form = None
            else:
                f = self.forms(N)
                form = f[self.rng.randint(len(f))]
            self._note(name + '.form', form)
        lt = self.ltens(name, shapes, ranks, dtype, form, layout, mixed)
        self._note(name + '.bonds', [t.shape[-1] for t in lt[:-1]])
        LT = self.mp.mpstruct.LocalTensors
        m = (cls or self.mp.MPArray)(LT(lt, cform=form) if form is not None else lt)
        return m

    # -- independent semantics ------------------------------------------------
    def dense(self, mpa, virtual=False):
        """Represented array in local form, by independent contraction"""
        lt = [np.asarray(t) for t in (mpa.lt if hasattr(mpa, 'lt') else mpa)]
        res = lt[0]
        for t in lt[1:]:
            res = np.tensordot(res, t, (-1, 0))
        if virtual:
            return res
        if res.shape[0] != 1 or res.shape[-1] != 1:
            raise ContractViolation('outer ranks are one', str(res.shape))
        return res[0, ..., 0]

    def snapshot(self, *mpas):
        """Represented arrays and raw memory of chains"""
        return [(self.dense(m).copy(), m.canonical_form) for m in mpas]

    def is_left(self, t):
        t = np.asarray(t)
        m = t.reshape((-1, t.shape[-1]))
        tol = 1e-3 if self.single else 1e-8
        return bool(abs(np.dot(m.conj().T, m) - np.eye(m.shape[1])).max() < tol) \
            if m.shape[1] else True

    def is_right(self, t):
        t = np.asarray(t)
        m = t.reshape((t.shape[0], -1))
        tol = 1e-3 if self.single else 1e-8
        return bool(abs(np.dot(m, m.conj().T) - np.eye(m.shape[0])).max() < tol)

    def honest(self, mpa, label='canonical form honest'):
        l, r = mpa.canonical_form
        lt = list(mpa.lt)
        n = len(lt)
        if not (0 <= l <= n and 0 <= r <= n):
            raise ContractViolation(label, 'form %r out of range' % ((l, r),))
        for k in range(l):
            if not self.is_left(lt[k]):
                raise ContractViolation(label, 'form %r but site %d is not left-normalized'
                                        % ((l, r), k))
        for k in range(r, n):
            if not self.is_right(lt[k]):
                raise ContractViolation(label, 'form %r but site %d is not right-normalized'
                                        % ((l, r), k))
        self.checks += 1

    def wellformed(self, mpa, label='chain well formed'):
        lt = list(mpa.lt)
        ok = len(lt) > 0 and all(t.ndim >= 2 for t in lt) \
            and all(a.shape[-1] == b.shape[0] for a, b in zip(lt[:-1], lt[1:])) \
            and lt[0].shape[0] == 1 and lt[-1].shape[-1] == 1
        self.check(ok, label)
        self.check(len(mpa) == len(lt), label + ' (length)')

    # -- obligations ----------------------------------------------------------
    def check(self, cond, label, detail=''):
        self.checks += 1
        if not bool(cond):
            raise ContractViolation(label, detail)

    def same(self, a, b, label):
        """Equality of plain python structures (shapes, ints, tuples)"""
        self.checks += 1
        def norm(x):
            if isinstance(x, (list, tuple)):
                return tuple(norm(y) for y in x)
            return x
        if norm(a) != norm(b):
            raise ContractViolation(label, '%r != %r' % (a, b))

    def tol(self, *xs):
        return 2e-3 if self.single else 1e-8

    def eq(self, a, b, label, scale=1.0, tol=None):
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise ContractViolation(label, 'shape %r, expected %r' % (a.shape, b.shape))
        if a.size == 0:
            return
        if tol is None:
            tol = self.tol(a, b)
        diff = abs(a - b).max()
        ref = max(scale, abs(b).max(), 0.0)
        if ref * tol and diff / (tol * ref) > self.worst[0]:
            self.worst = (float(diff / (tol * ref)), label)
        if not diff <= tol * ref:
            raise ContractViolation(label, 'max deviation %g (scale %g)' % (diff, ref))

    def bitwise(self, a, b, label):
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype or not (a == b).all():
            raise ContractViolation(label, 'arrays differ (dtype %s/%s)' % (a.dtype, b.dtype))

    def raises(self, excs, fn, label):
        self.checks += 1
        try:
            fn()
        except excs:
            return
        except Exception as e:
            raise ContractViolation(label, 'raised %r instead' % e)
        raise ContractViolation(label, 'no error raised')

    def assume(self, cond):
        if not cond:
            raise Reject()

    def outcomes(self, name, n, dims):
        return self._note(name, np.array([[self.rng.randint(d) for d in dims] for _ in range(n)],
                                         dtype=np.uint8).reshape((n, len(dims))))

    def positive(self, name, shape):
        return self._note(name, self.rng.rand(*shape) * 3 + 1)

    def assume_nonneg(self, x):
        pass

    def assume_equal(self, a, b):
        pass

    @contextlib.contextmanager
    def callee(self, module, name, contract):
        yield

    def real_only(self):
        """Part of a clause which is evaluated at run time only"""
        return True

    @contextlib.contextmanager
    def store(self):
        """A place for HDF5 files and groups"""
        import os
        import shutil
        import tempfile
        import h5py
        tmp = tempfile.mkdtemp(prefix='vf_h5_')

        class Store(object):
            f = None

            def path(s, name):
                return os.path.join(tmp, name + '.h5')

            def group(s, name, new):
                if s.f is None:
                    s.f = h5py.File(os.path.join(tmp, 'groups.h5'), 'w')
                return s.f.create_group(name) if new else s.f[name]
        st = Store()
        try:
            yield st
        finally:
            if st.f is not None:
                st.f.close()
            shutil.rmtree(tmp)

    @contextlib.contextmanager
    def unchanged(self, *mpas, **kw):
        """Frame condition: represented arrays of the chains are unchanged"""
        before = [self.dense(m).copy() for m in mpas]
        yield
        for m, b in zip(mpas, before):
            self.eq(self.dense(m), b, kw.get('label', 'operand unchanged'), scale=max(1., abs(b).max()))
