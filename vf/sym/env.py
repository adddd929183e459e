"""Symbolic environment: contract clauses as proof obligations."""
import contextlib
import sys

import numpy as np

from ..registry import ContractViolation, Reject
from .ctx import ctx, CTX, Ctx, Poly, SInt, mk, P, Unsupported, PathEnd, isint
from . import arr as A
from .arr import SymArray, Axis, Leaf, Term, CONE, ZERO, ONE, asarray, tosym, isnumber
from . import canon

NMAX = 3


class Iso(object):
    """Assumed isometry (precondition of a canonical form), same interface as canon.Rec"""

    def __init__(self, side, n, k):
        self.iso = ('q',) if side == 'left' else ('v',)
        self.ends, self.mid = ('-', '-'), None
        self.side, self.n, self.k = side, n, k

    def kslot(self, part):
        return self.n if self.side == 'left' else 0

    def random(self, ev, shape, key, real):
        rs = np.random.RandomState(abs(hash(key)) % (2**31))
        x = rs.randn(*shape)
        if not real:
            x = x + 1j * rs.randn(*shape)
        if self.side == 'left':
            m = x.reshape((-1, shape[-1]))
            q = np.linalg.qr(m)[0]
            if q.shape != m.shape:
                raise Unsupported('no isometry of this shape')
            return q.reshape(shape)
        m = x.reshape((shape[0], -1)).T
        q = np.linalg.qr(m)[0]
        if q.shape != m.shape:
            raise Unsupported('no isometry of this shape')
        return q.T.reshape(shape)


class SymRand(object):
    """Random state: every draw is an arbitrary array, equal seeds give equal streams"""

    def __init__(self, seed):
        self.seed, self.k = seed, 0

    def _draw(self, kind, shape):
        self.k += 1
        if isint(shape):
            shape = (shape,)
        shape = () if shape is None else tuple(shape)
        return A.leaf_array('rand.%s.%s.%d' % (self.seed, kind, self.k), shape, True, A.F64)

    def randn(self, *shape):
        return self._draw('normal', shape)

    def rand(self, *shape):
        return self._draw('uniform', shape)

    def random_sample(self, size=None):
        return self._draw('uniform', size)

    def standard_normal(self, size=None):
        return self._draw('normal', size)

    def normal(self, loc=0., scale=1., size=None):
        r = self._draw('normal', size)
        return r if loc == 0 and scale == 1 else r * scale + loc

    def __getattr__(self, name):
        raise Unsupported('random state: ' + name)


class SymChoice(object):
    """Random source: every draw may return every index; records the probability of what it returned"""

    def __init__(self, env):
        self.env, self.p, self.digits = env, [], []

    def _one(self, a, p):
        from . import nplib
        c = ctx()
        if p is None:
            arr, shape, pr = None, (a,), asarray(1.) / a
        else:
            arr = p.a if isinstance(p, A.Flat) else asarray(p)
            shape = arr.shape
            tot = 1
            for x in shape:
                tot = tot * x
            if a != tot:
                raise ValueError("'a' and 'p' must have same size")
        digits = []
        for d in shape:
            v = ('idx', c.new('draw'))
            q = Poly.var(v)
            c.zvar(v)
            c.assume('>=', q)
            c.assume('<', q - P(d))
            digits.append(mk(q))
        if arr is not None:
            pr = arr[tuple(digits)]
        self.p.append(pr)
        self.digits.append(tuple(digits))
        return nplib.register_code(digits, shape) if len(shape) != 1 else digits[0]

    def choice(self, a, size=None, replace=True, p=None):
        from . import nplib
        c = ctx()
        c.trusted.add('RandomState.choice(n, p=p): index i with probability p[i], independent draws')
        if not replace or not isint(a):
            raise Unsupported('choice')
        if size is None:
            return self._one(a, p)
        return nplib.int_array([self._one(a, p) for _ in range(int(size))])

    def __getattr__(self, name):
        raise Unsupported('random state: ' + name)


class FakeAttrs(dict):
    """HDF5 attributes: numbers and strings, tuples of numbers become arrays"""

    def __setitem__(self, k, v):
        if not isinstance(v, str):
            if isinstance(v, SInt):
                raise Unsupported('symbolic attribute')
            v = np.asarray(v)
            if v.dtype.kind not in 'biufc':
                raise TypeError('Object dtype has no native HDF5 equivalent')
            v = v[()] if v.ndim == 0 else v.copy()
        dict.__setitem__(self, k, v)


class FakeSet(object):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        if key != () and key is not Ellipsis:
            raise Unsupported('partial read')
        return self.a.copy()


class FakeGroup(object):
    """Stand-in for groups of h5py: stores exact copies (trusted)"""

    def __init__(self, mode='w'):
        self.d, self.attrs, self.mode = {}, FakeAttrs(), mode
        ctx().trusted.add('h5py: data sets and attributes are read back as written')

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise TypeError('A name should be string or bytes')
        if self.mode == 'r':
            raise OSError('no write intent on file')
        if k in self.d:
            raise OSError('name already exists')
        self.d[k] = FakeSet(asarray(v).copy())

    def __getitem__(self, k):
        return self.d[k]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('h5py group: ' + name)


class Result(object):
    def __init__(self):
        self.obl = []           # (label, verdict, detail)


class SymEnv(object):
    symbolic = True

    def __init__(self, mp, np_, mods, c, nmax=NMAX, legmax=2, concrete=False):
        self.mp, self.np, self.mods, self.c = mp, np_, mods, c
        self.nmax, self.legmax, self.concrete = nmax, legmax, concrete
        self.log = []
        self.obl = []
        self.single = False
        self.n = 0

    # -- structural choices ----------------------------------------------------
    def _note(self, label, val):
        self.log.append((label, val))
        return val

    def choose(self, label, options, sym=None):
        opts = []
        for o in (options if sym is None else sym):
            if not any(o is x or (type(o) is type(x) and o == x) for x in opts):
                opts.append(o)
        if not opts:
            raise Reject()
        return self._note(label, opts[self.c.choice(len(opts), label, 'choose')])

    def randint(self, label, lo, hi):
        if isinstance(lo, SInt) or isinstance(hi, SInt) or hi - lo > 12:
            self.k = getattr(self, 'k', 0) + 1
            v = ('idx', '%s.%d' % (label, self.k))
            p = Poly.var(v)
            self.c.zvar(v)
            self.c.assume('>=', p - P(lo))
            self.c.assume('<=', p - P(hi))
            self.log.append((label, SInt(p)))
            return mk(p)
        return self.choose(label, list(range(lo, hi + 1)))

    def sites(self, lo=1, hi=6, label='N', sym=None):
        hi = max(lo, min(hi, self.nmax))
        return self.choose(label, list(range(lo, hi + 1)))

    def dim(self, label, lo=1, hi=3):
        if self.concrete:
            return self.choose(label, list(range(lo, min(hi, lo + 1) + 1)))
        v = Poly.var(label)
        self.c.zvar(label)
        if lo > 1:
            self.c.assume('>=', v - Poly.of(lo))
        self.log.append((label, ('dim', label)))
        return SInt(v)

    def bit(self, label, p=0.5):
        return self.choose(label, [False, True])

    def dtype(self, label, kinds=('d', 'z')):
        m = dict(d=np.float64, z=np.complex128, f=np.float64, c=np.complex128)
        ks = []
        for k in kinds:
            if k in m and m[k] not in ks:
                ks.append(m[k])
        return self.choose(label, ks[::-1])

    # -- inputs --------------------------------------------------------------
    def tensor(self, name, shape, dtype=complex, layout=True, zero=0.04):
        self.n += 1
        real = np.dtype(dtype).kind != 'c'
        return A.leaf_array('%s.%d' % (name, self.n), tuple(shape), real, A.F64 if real else A.C128)

    def randstate(self, label, same=None):
        """An arbitrary random state (or one in the same state as an earlier one)"""
        return SymRand(label if same is None else same.seed)

    def outcomes(self, name, n, dims):
        """n arbitrary rows of outcomes 0 <= s[i, j] < dims[j]"""
        from . import nplib
        rows = []
        for i in range(n):
            row = []
            for j, d in enumerate(dims):
                v = ('idx', self.c.new(name))
                p = Poly.var(v)
                self.c.zvar(v)
                self.c.assume('>=', p)
                self.c.assume('<', p - P(d))
                row.append(mk(p))
            rows.append(row)
        return nplib.int_array(rows, np.uint8)

    def positive(self, name, shape):
        """Real array with positive entries"""
        x = self.tensor(name, shape, float)
        x.nonneg = True
        return x

    def choices(self):
        return SymChoice(self)

    def no_global_random(self):
        self.check(not self.c.__dict__.get('global_random'), 'global random state untouched')

    def unit_vector(self, name, op):
        fs = A.nfactors(op.axes[0].f)
        if not all(f[0] == 'd' for f in fs):
            raise Unsupported('vector on a sum of spaces')
        self.n += 1
        x = self.isometry('%s.%d' % (name, self.n), tuple(mk(f[1]) for f in fs) + (1,), complex, 'left')
        return x.reshape((-1,))

    def scalar(self, name, dtype=complex, nonzero=True):
        return A.scalar_atom(name, np.dtype(dtype).kind != 'c')

    def shapes(self, label, N, legs=None, uniform_legs=True, lo=1, hi=3, maxsize=4096, uniform=False):
        if legs is None:
            if uniform_legs:
                nl = [self.choose(label + '.legs', [1, 0, 2][:self.legmax + 1])] * N
            else:
                nl = [self.choose('%s.legs%d' % (label, k), [1, 0, 2][:self.legmax + 1]) for k in range(N)]
        else:
            nl = [legs] * N if not isinstance(legs, (list, tuple)) else list(legs)
        if uniform:
            first = {n: tuple(self.dim('%s_%d_%d' % (label, n, j), lo, hi) for j in range(n)) for n in set(nl)}
            sh = [first[n] for n in nl]
        else:
            sh = [tuple(self.dim('%s[%d][%d]' % (label, k, j), lo, hi) for j in range(n))
                  for k, n in enumerate(nl)]
        return self._note(label, sh)

    def ranks(self, label, shapes, hi=4):
        return self._note(label, [self.dim('%s[%d]' % (label, k), 1, 2) for k in range(len(shapes) - 1)])

    def forms(self, N):
        return [(l, r) for l in range(N) for r in range(l + 1, N + 1)]

    def ltens(self, name, shapes, ranks=None, dtype=complex, form=None, layout=True, mixed=False):
        if ranks is None:
            ranks = self.ranks(name + '.ranks', shapes)
        full = [1] + list(ranks) + [1]
        l, r = form if form is not None else (0, len(shapes))
        lt = []
        for k, s in enumerate(shapes):
            dt = self.dtype('%s.dt%d' % (name, k)) if mixed else dtype
            sh = (full[k],) + tuple(s) + (full[k + 1],)
            if k < l or k >= r:
                lt.append(self.isometry('%s[%d]' % (name, k), sh, dt, 'left' if k < l else 'right'))
            else:
                lt.append(self.tensor('%s[%d]' % (name, k), sh, dt))
        return lt

    def isometry(self, name, shape, dtype, side):
        """Tensor which satisfies the normalization condition (precondition)"""
        c = self.c
        self.n += 1
        real = np.dtype(dtype).kind != 'c'
        ds = [P(s) for s in shape]
        rows, k = (ds[:-1], ds[-1]) if side == 'left' else (ds[1:], ds[0])
        pr = ONE
        for d in rows:
            pr = pr * d
        c.assume('>=', pr - k)          # isometries of this shape exist
        if c.check() == __import__('z3').unsat:
            raise Reject()
        rec = Iso(side, len(shape) - 1, k)
        leaf = Leaf('%s.%d' % (name, self.n), ds, real)
        key = leaf.key
        leaf.define = ('fac', rec.iso[0], rec)
        rec.leaf, rec.realdt = leaf, real
        dims, slots, out, axes = {}, [], [], []
        for d in ds:
            lab = A.new_label(dims, d)
            slots.append(((lab,), ZERO))
            out.append((lab,))
            axes.append(Axis((('d', d),)))
        return SymArray(axes, [Term(CONE, ((leaf, False, tuple(slots)),), out, dims)],
                        A.F64 if real else A.C128)

    def mpa(self, name, shapes, ranks=None, dtype=complex, form='any', cls=None, mixed=False, layout=True):
        N = len(shapes)
        if isinstance(form, str):
            form = self.choose(name + '.form', [None] + self.forms(N))
        lt = self.ltens(name, shapes, ranks, dtype, form, layout, mixed)
        LT = self.mods['mpnum.mpstruct'].LocalTensors
        return (cls or self.mp.MPArray)(LT(lt, cform=form) if form is not None else lt)

    # -- independent semantics --------------------------------------------------
    def dense(self, mpa, virtual=False):
        lt = [asarray(t) for t in (mpa.lt if hasattr(mpa, 'lt') else mpa)]
        res = lt[0]
        for t in lt[1:]:
            res = A.tensordot(res, t, (-1, 0))
        if virtual:
            return res
        if P(res.axes[0].dim) != ONE or P(res.axes[-1].dim) != ONE:
            self.same((res.shape[0], res.shape[-1]), (1, 1), 'outer ranks are one')
        return res[(0, Ellipsis, 0)]

    def snapshot(self, *mpas):
        return [(self.dense(m).copy(), m.canonical_form) for m in mpas]

    def _norm_obl(self, t, side, label):
        t = asarray(t)
        n = len(t.axes)
        ax = list(range(n - 1)) if side == 'left' else list(range(1, n))
        g = A.tensordot(t.conj(), t, (ax, ax))
        d = mk((t.axes[-1] if side == 'left' else t.axes[0]).dim)
        self.eq(g, A.eye(d), label)

    def honest(self, mpa, label='canonical form honest'):
        l, r = mpa.canonical_form
        lt = list(mpa.lt)
        n = len(lt)
        self.check(0 <= l <= n and 0 <= r <= n, label + ': range')
        for k in range(l):
            self._norm_obl(lt[k], 'left', label)
        for k in range(r, n):
            self._norm_obl(lt[k], 'right', label)

    def is_left(self, t):
        raise Unsupported('is_left')
    is_right = is_left

    def wellformed(self, mpa, label='chain well formed'):
        lt = list(mpa.lt)
        self.check(len(lt) > 0 and all(len(t.shape) >= 2 for t in lt), label)
        for a, b in zip(lt[:-1], lt[1:]):
            self.same(a.shape[-1], b.shape[0], label)
        self.same((lt[0].shape[0], lt[-1].shape[-1]), (1, 1), label)
        self.check(len(mpa) == len(lt), label + ' (length)')

    # -- obligations ------------------------------------------------------------
    def record(self, label, verdict, detail='', val=None):
        if verdict == 'no' and self.c.uncertain:
            verdict, detail = 'unknown', 'path condition not decided; ' + str(detail)
        self.obl.append((label, verdict, detail))
        if verdict == 'no':
            raise ContractViolation(label, repr(detail))

    def check(self, cond, label, detail=''):
        self.record(label, 'yes' if bool(cond) else 'no', detail or 'false on a feasible path')

    def same(self, a, b, label):
        def eq(x, y):
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                if len(x) != len(y):
                    return 'no'
                rs = [eq(p, q) for p, q in zip(x, y)]
                return 'no' if 'no' in rs else 'unknown' if 'unknown' in rs else 'yes'
            if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                return 'no'
            if isinstance(x, SInt) or isinstance(y, SInt):
                if not (isint(x) and isint(y)):
                    return 'no'
                p = P(x) - P(y)
                if not p.terms:
                    return 'yes'
                import z3
                r = self.c.check(self.c.zcmp('!=', self.c.norm(p)))
                if r == z3.sat and not p.is_const():
                    # remember the counterexample
                    self.c.assume('!=', p)
                return 'yes' if r == z3.unsat else 'no' if r == z3.sat else 'unknown'
            return 'yes' if x == y else 'no'
        self.record(label, eq(a, b), '%r / %r' % (a, b))

    def tol(self, *xs):
        return 1e-8

    def eq(self, a, b, label, scale=1.0, tol=None):
        a, b = asarray(a), asarray(b)
        if len(a.axes) != len(b.axes):
            return self.record(label, 'no', 'number of axes %d, expected %d' % (len(a.axes), len(b.axes)))
        self.same(a.shape, b.shape, label + ' (shape)')
        v, d = canon.equal(a, b)
        self.record(label, v, d)

    def bitwise(self, a, b, label):
        if isinstance(a, SymArray) and isinstance(b, SymArray):
            self.same(str(a.dtype), str(b.dtype), label)
        self.eq(a, b, label)

    def raises(self, excs, fn, label):
        try:
            fn()
        except TimeoutError:
            raise
        except excs:
            return self.record(label, 'yes')
        except Exception as e:
            return self.record(label, 'no', 'raised %r instead' % e)
        self.record(label, 'no', 'no error raised')

    def assume(self, cond):
        if not cond:
            raise Reject()

    def real_only(self):
        return False

    def assume_equal(self, a, b):
        """Precondition on a number"""
        canon.assume_zero(asarray(a) - asarray(b))

    def assume_nonneg(self, x):
        canon.assume_nonneg(asarray(x))

    def as_real(self, x):
        """An array whose imaginary part vanishes by assumption"""
        x = asarray(x)
        return x.like(x.axes, x.terms, dtype=A.F64)

    @contextlib.contextmanager
    def callee(self, module, name, contract):
        """Calls of this function are replaced by its contract (checked elsewhere)"""
        mod = self.mods.get('mpnum.' + module)
        f = getattr(mod, name, None)
        if f is None:
            raise Unsupported('function %s.%s not found' % (module, name))
        self.c.trusted.add('callee by contract: %s.%s' % (module, name))
        places = [(m, k) for m in self.mods.values() for k, v in list(m.__dict__.items()) if v is f]
        try:
            for m, k in places:
                m.__dict__[k] = contract
            yield
        finally:
            for m, k in places:
                m.__dict__[k] = f

    @contextlib.contextmanager
    def store(self):
        import types
        files = {}
        fake = types.ModuleType('h5py')

        def File(path, mode='r', *a, **k):
            if mode in ('w', 'x') or mode == 'a' and path not in files:
                files[path] = FakeGroup()
            if path not in files:
                raise OSError('unable to open file')
            g = files[path]
            g.mode = mode
            return g
        fake.File = File
        groups = {}

        class Store(object):
            def path(s, name):
                return '/vf/' + name + '.h5'

            def group(s, name, new):
                if new:
                    groups[name] = FakeGroup()
                return groups[name]
        old = sys.modules.get('h5py')
        sys.modules['h5py'] = fake
        try:
            yield Store()
        finally:
            if old is None:
                del sys.modules['h5py']
            else:
                sys.modules['h5py'] = old

    @contextlib.contextmanager
    def unchanged(self, *mpas, **kw):
        before = [self.dense(m).copy() for m in mpas]
        yield
        for m, b in zip(mpas, before):
            self.eq(self.dense(m), b, kw.get('label', 'operand unchanged'))

    # -- counterexample -----------------------------------------------------------
    def hints(self):
        """Structural choices and dimensions of this path for the real code"""
        val = self.c.model() or {}

        def conc(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'dim':
                return val.get(x[1], 2)
            if isinstance(x, SInt):
                p = self.c.norm(x.p)
                return int(p.evaluate({v: val.get(v, 2) for v in p.vars()}))
            if isinstance(x, (list, tuple)):
                return type(x)(conc(y) for y in x)
            return x
        from ..env_real import _plain
        out = {}
        for k, v in self.log:
            try:
                out.setdefault(k, []).append(_plain(conc(v)))
            except (Unsupported, TypeError):
                out.setdefault(k, []).append(None)
        return out
