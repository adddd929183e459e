"""Symbolic arrays: sums of tensor networks with symbolic dimensions.

An array has axes; an axis is a product (row-major) of factors; a factor is
either a dimension ('d', Poly) or a direct sum ('s', (block, ...)) of products.
The value is a sum of terms; a term is a coefficient times an einsum-style
network (labels summed unless they appear in the output).
"""
import itertools
import weakref
from fractions import Fraction

import numpy as np

from .ctx import ctx, Poly, SInt, mk, P, Unsupported, isint, STAMP, written

ONE = Poly.of(1)
ZERO = Poly.of(0)
_label = itertools.count(1)
F64, C128 = np.dtype('float64'), np.dtype('complex128')


# ---------------------------------------------------------------------------
# coefficients: Laurent polynomials over scalar atoms, Gaussian rational
# ---------------------------------------------------------------------------

class Coef(object):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c != (0, 0)}

    @staticmethod
    def of(x):
        if isinstance(x, Coef):
            return x
        if isinstance(x, Poly):
            return Coef({tuple(sorted(((('dim', v), n) for v, n in m), key=repr)): (Fraction(c), Fraction(0))
                         for m, c in x.terms})
        if isinstance(x, SInt):
            return Coef.of(x.p)
        x = complex(x)
        if x != x or abs(x) == float('inf'):
            raise Unsupported('not a finite number')
        return Coef({(): (Fraction(x.real), Fraction(x.imag))})

    @staticmethod
    def atom(a, n=1):
        return Coef({((a, n),): (Fraction(1), Fraction(0))})

    def __add__(self, o):
        d = dict(self.d)
        for m, (a, b) in o.d.items():
            x, y = d.get(m, (0, 0))
            d[m] = (a + x, b + y)
        return Coef(d)

    def __mul__(self, o):
        d = {}
        for m, (a, b) in self.d.items():
            for n, (e, f) in o.d.items():
                k = dict(m)
                for at, ex in n:
                    k[at] = k.get(at, 0) + ex
                k = tuple(sorted(((at, ex) for at, ex in k.items() if ex), key=repr))
                x, y = d.get(k, (0, 0))
                d[k] = (x + a * e - b * f, y + a * f + b * e)
        return Coef(d)

    def conj(self):
        d = {}
        for m, (a, b) in self.d.items():
            d[tuple(sorted(((catom(at), ex) for at, ex in m), key=repr))] = (a, -b)
        return Coef(d)

    def inv(self):
        if len(self.d) != 1:
            raise Unsupported('reciprocal of a sum')
        (m, (a, b)), = self.d.items()
        n = a * a + b * b
        return Coef({tuple((at, -ex) for at, ex in m): (a / n, -b / n)})

    def norm(self):
        """Substitute dimensions by path equalities"""
        c = ctx()
        if c is None or not c.equal1:
            return self
        r = Coef({})
        for m, v in self.d.items():
            t = Coef({(): v})
            for at, ex in m:
                if at[0] == 'dim' and ex > 0:
                    p = Coef.of(c.norm(Poly.var(at[1])))
                    for _ in range(ex):
                        t = t * p
                else:
                    t = t * Coef.atom(at, ex)
            r = r + t
        return r

    def is_zero(self):
        return not self.d

    def is_const(self):
        return all(m == () for m in self.d)

    def key(self):
        return tuple(sorted(self.d.items(), key=repr))

    def evaluate(self, ev):
        r = 0
        for m, (a, b) in self.d.items():
            t = complex(float(a), float(b))
            for at, ex in m:
                t = t * complex(ev.atom(at)) ** ex
            r = r + t
        return r

    def __repr__(self):
        return ' + '.join('%s%s' % (complex(float(a), float(b)) if b else float(a),
                                    ''.join('*%s^%d' % (at[1:], e) for at, e in m))
                          for m, (a, b) in self.d.items()) or '0'


def catom(at):
    if at[0] == 'c':       # ('c', name, conj)
        return ('c', at[1], not at[2])
    return at              # real atoms


CONE = Coef.of(1)


# ---------------------------------------------------------------------------
# factors and axes
# ---------------------------------------------------------------------------

def fdim(f):
    if f[0] == 'd':
        return P(f[1])
    r = ZERO
    for b in f[1]:
        r = r + pdim(b)
    return r


def pdim(fs):
    r = ONE
    for f in fs:
        r = r * fdim(f)
    return r


def nfactors(fs):
    """Normal form of a product: no unit dimensions, no nested direct sums"""
    out = []
    for f in fs:
        if f[0] == 'd':
            p = P(f[1])
            if p != ONE:
                out.append(('d', p))
        else:
            bl = []
            for b in f[1]:
                b = nfactors(b)
                if len(b) == 1 and b[0][0] == 's':
                    bl.extend(b[0][1])
                else:
                    bl.append(b)
            if len(bl) == 1:
                out.extend(bl[0])
            else:
                out.append(('s', tuple(bl)))
    return tuple(out)


def nspec(fs, spec):
    """The spec of a product in the normal form of :func:`nfactors`"""
    out = []
    for f, s in zip(fs, spec):
        if f[0] == 'd':
            if P(f[1]) != ONE:
                out.append(s)
            continue
        off, sel = 0, None
        for i, b in enumerate(f[1]):
            nb = nfactors(b)
            nested = len(nb) == 1 and nb[0][0] == 's'
            if i == s[0]:
                sub = nspec(b, s[1])
                if nested:
                    sel = (off + sub[0][0], sub[0][1])
                else:
                    sel = (off, tuple(sub))
            off += len(nb[0][1]) if nested else 1
        if off == 1:
            out.extend(sel[1])
        else:
            out.append(sel)
    return tuple(out)


class Axis(object):
    __slots__ = ('f', 'count')

    def __init__(self, f, count=None):
        self.f = tuple(f)
        self.count = count          # None: one axis; Poly: a bundle of that many axes

    @property
    def dim(self):
        return pdim(self.f)

    def __repr__(self):
        return 'Axis(%s%s)' % (self.f, '' if self.count is None else ', bundle')


class BundleShape(object):
    """Stands for the dimensions of a bundle of axes in a shape tuple"""

    def __init__(self, ax):
        self.ax = ax

    def __eq__(self, o):
        return isinstance(o, BundleShape) and nfactors(self.ax.f) == nfactors(o.ax.f) \
            and P(self.ax.count) == P(o.ax.count)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7

    def __repr__(self):
        return '<bundle %s>' % (pdim(self.ax.f),)


class Leaf(object):
    """Named tensor; ``dims`` one Poly per slot; ``define``: how it was computed"""
    __slots__ = ('name', 'dims', 'real', 'define', 'key', 'left', 'right')

    def __init__(self, name, dims, real=False, define=None):
        self.name, self.dims, self.real, self.define = name, tuple(dims), real, define
        self.key = repr(name)
        self.left = self.right = None

    def __repr__(self):
        return self.key


class Term(object):
    """coef * sum prod nodes;  node = (leaf, conj, slots), slot = (labels, start)"""
    __slots__ = ('coef', 'nodes', 'out', 'dims')

    def __init__(self, coef, nodes, out, dims):
        self.coef, self.nodes, self.out, self.dims = coef, tuple(nodes), tuple(out), dims

    def relabel(self, m):
        return Term(self.coef,
                    [(l, c, tuple((tuple(m.get(x, x) for x in ls), st) for ls, st in sl))
                     for l, c, sl in self.nodes],
                    [respec(s, m) for s in self.out],
                    {m.get(k, k): v for k, v in self.dims.items()})

    def fresh(self):
        return self.relabel({k: next(_label) for k in self.dims})


def respec(spec, m):
    return tuple(m.get(s, s) if isinstance(s, int) else (s[0], respec(s[1], m)) for s in spec)


def new_label(dims, p):
    l = next(_label)
    dims[l] = p
    return l


def spec_labels(spec):
    for s in spec:
        if isinstance(s, int):
            yield s
        else:
            for x in spec_labels(s[1]):
                yield x


def free_spec(fs, dims, sel=None):
    """All block selections of a product with new labels: yields specs"""
    if not fs:
        yield ()
        return
    f = fs[0]
    if f[0] == 'd':
        l = new_label(dims, P(f[1]))
        for rest in free_spec(fs[1:], dims):
            yield (l,) + rest
    else:
        for i, b in enumerate(f[1]):
            for s in free_spec(b, dims):
                for rest in free_spec(fs[1:], dims):
                    yield ((i, s),) + rest


# -- replacing labels ---------------------------------------------------------

def substitute(term, label, labels, start, newdims):
    """Replace ``label`` by the window start + rowmajor(labels) in all nodes (not in the output)"""
    nodes = []
    for l, c, sl in term.nodes:
        ns = []
        for ls, st in sl:
            if label in ls:
                if start != ZERO:
                    if len(ls) != 1:
                        raise Unsupported('window inside a composite index')
                    ns.append((tuple(labels), st + start))
                else:
                    k = ls.index(label)
                    if ls.count(label) > 1:
                        raise Unsupported('repeated label in a composite index')
                    ns.append((ls[:k] + tuple(labels) + ls[k + 1:], st))
            else:
                ns.append((ls, st))
        nodes.append((l, c, tuple(ns)))
    dims = {k: v for k, v in term.dims.items() if k != label}
    dims.update(newdims)
    return Term(term.coef, nodes, term.out, dims)


def replace_out(out, label, newspec):
    """Replace a label in output specs by a tuple of specs (splices)"""
    def rep(spec):
        r = []
        for s in spec:
            if isinstance(s, int):
                if s == label:
                    r.extend(newspec)
                else:
                    r.append(s)
            else:
                r.append((s[0], rep(s[1])))
        return tuple(r)
    return tuple(rep(s) for s in out)


UNITS = 40


def common(FA, FB):
    """Common refinement of two products (normal form) or Unsupported"""
    try:
        return common0(FA, FB)
    except Unsupported:
        n, m = pdim(FA), pdim(FB)
        if not (n == m and n.is_const() and 1 < n.const() <= UNITS):
            raise
        return (('s', ((),) * n.const()),)         # single entries


def common0(FA, FB):
    FA, FB = list(nfactors(FA)), list(nfactors(FB))
    out = []
    while FA or FB:
        if not FA or not FB:
            raise Unsupported('axes of different size: %s / %s' % (FA, FB))
        a, b = FA[0], FB[0]
        if a == b:
            out.append(a)
            FA.pop(0), FB.pop(0)
            continue
        da, db = fdim(a), fdim(b)
        if da == db:
            FA.pop(0), FB.pop(0)
            out.append(common1(a, b))
            continue
        # one is the product of several of the other
        done = False
        for X, Y in ((FA, FB), (FB, FA)):
            x = X[0]
            if x[0] != 'd':
                continue
            pr = ONE
            for n, y in enumerate(Y):
                pr = pr * fdim(y)
                if pr == fdim(x):
                    out.extend(Y[:n + 1])
                    del Y[:n + 1]
                    X.pop(0)
                    done = True
                    break
            if done:
                break
        if not done:
            # both products: try the whole remainder
            raise Unsupported('no common refinement of %s and %s' % (FA, FB))
    return tuple(out)


def common1(a, b):
    """Common refinement of two factors of equal dimension"""
    if a == b:
        return a
    if a[0] == 'd' and b[0] == 'd':
        return a
    if a[0] == 'd':
        return b
    if b[0] == 'd':
        return a
    A, B = list(a[1]), list(b[1])
    out = []
    while A or B:
        if not A or not B:
            # remaining blocks of size zero are not created: mismatch
            raise Unsupported('direct sums do not match')
        x, y = A[0], B[0]
        dx, dy = pdim(x), pdim(y)
        if dx == dy:
            out.append(common0(x, y))
            A.pop(0), B.pop(0)
            continue
        # dx = sum of several dy's (x must be a plain dimension)
        ok = False
        for X, Y in ((A, B), (B, A)):
            s = ZERO
            for n, z in enumerate(Y):
                s = s + pdim(z)
                if s == pdim(X[0]):
                    if len(X[0]) > 1 or (X[0] and X[0][0][0] != 'd'):
                        raise Unsupported('refinement of a composite block')
                    out.extend(Y[:n + 1])
                    del Y[:n + 1]
                    X.pop(0)
                    ok = True
                    break
            if ok:
                break
        if not ok:
            raise Unsupported('direct sums do not match: %s / %s' % (a, b))
    return ('s', tuple(nfactors(b) for b in out))


def conform(arr, i, target):
    """Array with axis i refined to the factors ``target``"""
    ax = arr.axes[i]
    if ax.f == tuple(target):
        return arr
    if is_units(target):
        return to_units(arr, i)
    terms = []
    axes = list(arr.axes)
    F0 = axes[i].f
    F = list(nfactors(F0))
    todo = [(t, list(nspec(F0, t.out[i]))) for t in arr.terms]
    res = []
    pos = 0
    T = list(target)
    for f in F:
        if pos < len(T) and f == T[pos]:
            res.append(('same', 1))
            pos += 1
            continue
        if f[0] == 'd' and pos < len(T) and T[pos][0] == 'd':
            pr, n = ONE, 0
            while pr != fdim(f):
                if pos + n >= len(T):
                    raise Unsupported('conform %s to %s' % (F, T))
                pr = pr * fdim(T[pos + n])
                n += 1
            res.append(('prod', tuple(T[pos:pos + n])))
            pos += n
            continue
        if pos < len(T) and fdim(f) == fdim(T[pos]):
            res.append(('sum', T[pos]))
            pos += 1
            continue
        if f[0] == 'd':
            # product which contains direct sums
            pr, n = ONE, 0
            while pr != fdim(f):
                if pos + n >= len(T):
                    raise Unsupported('conform %s to %s' % (F, T))
                pr = pr * fdim(T[pos + n])
                n += 1
            res.append(('prodsum', tuple(T[pos:pos + n])))
            pos += n
            continue
        raise Unsupported('conform %s to %s' % (F, T))
    if pos != len(T):
        raise Unsupported('conform %s to %s' % (F, T))
    for t, spec in todo:
        parts = [(t, ())]
        for s, (kind, x), f in zip(spec, res, F):
            nxt = []
            for tt, acc in parts:
                if kind == 'same':
                    nxt.append((tt, acc + (s,)))
                elif kind == 'prod':
                    dims = {}
                    ls = tuple(new_label(dims, fdim(g)) for g in x)
                    t2 = substitute(tt, s, ls, ZERO, dims)
                    other_out(t2, s, i)
                    nxt.append((t2, acc + ls))
                elif kind == 'prodsum':
                    raise Unsupported('split of a product into direct sums')
                else:
                    for t2, s2 in conform_sum(tt, f, s, x, i):
                        nxt.append((t2, acc + (s2,)))
            parts = nxt
        for tt, acc in parts:
            out = list(tt.out)
            out[i] = acc
            terms.append(Term(tt.coef, tt.nodes, out, tt.dims))
    axes[i] = Axis(target, axes[i].count)
    return arr.like(axes, terms)


def is_units(f):
    return len(f) == 1 and f[0][0] == 's' and len(f[0][1]) > 1 and not any(f[0][1])


def to_units(arr, i):
    """Axis i (constant size) as direct sum of single entries"""
    f = arr.axes[i].f
    n = pdim(f).const()

    def entries(t, fs, get):
        """(term, position) for all values of the indices of the product fs"""
        if not fs:
            return [(t, 0)]
        size = pdim(fs).const() // fdim(fs[0]).const()
        res = []
        for t2, a in entry(t, fs[0], lambda u: get(u)[0]):
            for t3, b in entries(t2, fs[1:], lambda u: get(u)[1:]):
                res.append((t3, a * size + b))
        return res

    def entry(t, g, get):
        s = get(t)
        if g[0] == 'd':
            return [(fix_index(t, s, v), v) for v in range(fdim(g).const())] if isinstance(s, int) else \
                [(t, s[0])]
        start = sum(pdim(b).const() for b in g[1][:s[0]])
        return [(u, start + v) for u, v in entries(t, g[1][s[0]], lambda u: get(u)[1])]
    terms = []
    for t in arr.terms:
        t = t.fresh()
        for u, v in entries(t, f, lambda u: u.out[i]):
            terms.append(Term(u.coef, u.nodes, u.out[:i] + (((v, ()),),) + u.out[i + 1:], u.dims))
    axes = list(arr.axes)
    axes[i] = Axis((('s', ((),) * n),), axes[i].count)
    return arr.like(axes, terms)


def fix_index(t, x, v):
    """Term for the value v of index x"""
    if [y for sp in t.out for y in spec_labels(sp)].count(x) != 1:
        raise Unsupported('enumerated index appears in two outputs')
    nodes = []
    for l, c, sl in t.nodes:
        ns = []
        for ls, st in sl:
            while x in ls:
                k = ls.index(x)
                stride = ONE
                for y in ls[k + 1:]:
                    stride = stride * P(t.dims[y])
                ls, st = ls[:k] + ls[k + 1:], P(st) + stride * Poly.of(v)
            ns.append((ls, st))
        nodes.append((l, c, tuple(ns)))

    def put(spec):
        return tuple((v, ()) if y == x and isinstance(y, int) else
                     (y[0], put(y[1])) if not isinstance(y, int) else y for y in spec)
    return Term(t.coef, nodes, tuple(put(s) for s in t.out), {k: d for k, d in t.dims.items() if k != x})


def other_out(t, label, i):
    for j, sp in enumerate(t.out):
        if j != i and label in spec_labels(sp):
            raise Unsupported('refined index appears in two outputs')


def normf(f):
    if f[0] == 'd':
        return ('d', P(f[1]))
    r = nfactors((f,))
    return r[0] if len(r) == 1 else ('d', fdim(f)) if not r else f


def conform_sum(t, f, s, target, i):
    """Refine factor f (spec s) of term t to the direct sum ``target``"""
    if f[0] == 'd':
        # label s -> windows
        start = ZERO
        for bi, b in enumerate(target[1]):
            dims = {}
            ls = []
            for g in b:
                if g[0] != 'd':
                    raise Unsupported('nested direct sum')
                ls.append(new_label(dims, fdim(g)))
            t2 = substitute(t, s, ls, start, dims)
            other_out(t2, s, i)
            yield t2, (bi, tuple(ls))
            start = start + pdim(b)
        return
    # direct sum to finer direct sum
    A, B = list(f[1]), list(target[1])
    bi, sub = s
    pos = 0
    for k, x in enumerate(A):
        n, acc = 0, ZERO
        while acc != pdim(x) or n == 0:
            if pos + n >= len(B):
                raise Unsupported('conform_sum')
            acc = acc + pdim(B[pos + n])
            n += 1
        if k == bi:
            if n == 1:
                if x == B[pos]:
                    yield t, (pos, sub)
                    return
                # refine the product inside of the block
                if len(x) == 1 and x[0][0] == 'd' and all(g[0] == 'd' for g in B[pos]):
                    dims = {}
                    ls = tuple(new_label(dims, fdim(g)) for g in B[pos])
                    t2 = substitute(t, sub[0], ls, ZERO, dims)
                    other_out(t2, sub[0], i)
                    yield t2, (pos, ls)
                    return
                raise Unsupported('refinement inside of a block')
            if len(x) != 1 or x[0][0] != 'd':
                raise Unsupported('refinement of a composite block')
            start = ZERO
            for m in range(n):
                dims = {}
                ls = tuple(new_label(dims, fdim(g)) for g in B[pos + m])
                t2 = substitute(t, sub[0], ls, start, dims)
                other_out(t2, sub[0], i)
                yield t2, (pos + m, ls)
                start = start + pdim(B[pos + m])
            return
        pos += n


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------

class Handles(object):
    """Weak set by identity"""

    def __init__(self):
        self.d = weakref.WeakValueDictionary()

    def add(self, x):
        self.d[id(x)] = x

    def discard(self, x):
        self.d.pop(id(x), None)

    def __iter__(self):
        return iter(list(self.d.values()))


class Buf(object):
    def __init__(self):
        self.handles = Handles()
        self.stamp = next(STAMP)


class Flags(object):
    def __init__(self, a):
        self._a = a

    @property
    def writeable(self):
        return self._a._w


class SymArray(object):
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, axes, terms, dtype=C128, buf=None, scalar=False):
        self.axes = list(axes)
        self.terms = list(terms)
        self.dtype = np.dtype(dtype)
        self._w = True
        self._origin = None         # (array, key) if this is a view made by indexing
        self._written = False
        self.buf = buf or Buf()
        self.buf.handles.add(self)
        self.isscalar = scalar
        c = ctx()
        if c is not None:
            c.tick()

    __hash__ = object.__hash__

    def like(self, axes, terms, dtype=None, share=False):
        r = SymArray(axes, terms, self.dtype if dtype is None else dtype,
                     self.buf if share else None)
        if share:
            r._w = self._w
        return r

    # -- attributes -----------------------------------------------------------
    @property
    def shape(self):
        return tuple(BundleShape(a) if a.count is not None else mk(a.dim) for a in self.axes)

    @property
    def ndim(self):
        n = ZERO
        for a in self.axes:
            n = n + (ONE if a.count is None else a.count)
        return mk(n)

    @property
    def size(self):
        n = ONE
        for a in self.axes:
            n = n * a.dim
        return mk(n)

    @property
    def flags(self):
        return Flags(self)

    def setflags(self, write=None):
        if write is not None:
            self._w = bool(write)

    def view(self):
        return self.like(self.axes, self.terms, share=True)

    def copy(self, order=None):
        return self.like(self.axes, self.terms)

    def astype(self, dtype, copy=True):
        dt = np.dtype(dtype)
        if dt.kind not in 'fc':
            raise Unsupported('astype %s' % dt)
        if self.dtype.kind == 'c' and dt.kind != 'c':
            raise Unsupported('astype drops imaginary part')
        return self.like(self.axes, self.terms, dt)

    def __len__(self):
        s = self.shape
        if not s:
            raise TypeError('len() of unsized object')
        return s[0]

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            n = n.__index__()
        return (self[i] for i in range(n))

    # -- axis positions -----------------------------------------------------------
    def pos(self, ax):
        """Position in self.axes of an axis number (int or symbolic)"""
        if all(a.count is None for a in self.axes) and isinstance(ax, (int, np.integer)):
            n = len(self.axes)
            if not -n <= ax < n:
                raise np.exceptions.AxisError(int(ax), n)
            return int(ax) % n
        p = P(ax)
        if p.is_const() and p.const() < 0:
            q = ZERO
            for i in reversed(range(len(self.axes))):
                a = self.axes[i]
                q = q - (ONE if a.count is None else P(a.count))
                if q == p and a.count is None:
                    return i
            raise Unsupported('axis %s inside of a bundle' % p)
        q = ZERO
        for i, a in enumerate(self.axes):
            if q == p and a.count is None:
                return i
            q = q + (ONE if a.count is None else P(a.count))
        # relative to the end, e.g. ndim - 1 is found above; symbolic negative:
        q = P(self.ndim)
        for i in reversed(range(len(self.axes))):
            q = q - (ONE if self.axes[i].count is None else P(self.axes[i].count))
            if q - P(self.ndim) == p and self.axes[i].count is None:
                return i
        raise Unsupported('axis %s cannot be located' % p)

    # -- rearrangements ---------------------------------------------------------
    def _perm(self, order):
        return self.like([self.axes[i] for i in order],
                         [Term(t.coef, t.nodes, [t.out[i] for i in order], t.dims)
                          for t in self.terms], share=True)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or hasattr(axes[0], '__iter__')):
            axes = axes[0]
        axes = axes if axes is None else tuple(axes)
        if axes is None or (axes == () and len(self.axes) > 0):
            if any(a.count is not None for a in self.axes):
                raise Unsupported('reversal of a bundle')
            order = list(range(len(self.axes)))[::-1]
        else:
            order = self._order(axes)
        return self._perm(order)

    def _order(self, axes):
        axes = list(axes)
        order = []
        j = 0
        for a in axes:
            if isinstance(a, AxisRun):
                order.extend(a.locate(self))
            else:
                order.append(self.pos(a))
        if sorted(order) != list(range(len(self.axes))):
            if len(order) != len(self.axes):
                raise ValueError("axes don't match array")
            raise ValueError('repeated axis in transpose')
        return order

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        a, b = self.pos(a), self.pos(b)
        order = list(range(len(self.axes)))
        order[a], order[b] = order[b], order[a]
        return self._perm(order)

    def ravel(self, order='C'):
        return self.reshape((-1,))

    def flatten(self):
        return self.reshape((-1,)).copy()

    @property
    def flat(self):
        return Flat(self)

    def reshape(self, *shape, **kw):
        if kw.get('order', 'C') != 'C':
            raise Unsupported('order of reshape')
        if len(shape) == 1 and not isint(shape[0]):
            shape = tuple(shape[0])
        else:
            shape = tuple(shape)
        tgt = [s.ax.dim if isinstance(s, BundleShape) else P(s) for s in shape]
        minus = [k for k, p in enumerate(tgt) if p.is_const() and p.const() == -1]
        if len(minus) > 1:
            raise ValueError('can only specify one unknown dimension')
        if any(p.is_const() and p.const() < 0 for k, p in enumerate(tgt) if k not in minus):
            raise ValueError('negative dimensions not allowed')
        tot = P(self.size)
        if minus:
            known = ONE
            for k, p in enumerate(tgt):
                if k != minus[0]:
                    known = known * p
            known = P(known)
            q = tot.divide(known)
            if q is None:
                q, r = divmod(mk(tot), mk(known))
                if r != 0:
                    raise ValueError('cannot reshape array of size %s into shape %s' % (tot, shape))
                q = P(q)
            tgt[minus[0]] = P(q)
        else:
            new = ONE
            for p in tgt:
                new = new * p
            if P(new) != tot:
                if mk(new) != mk(tot):
                    raise ValueError('cannot reshape array of size %s into shape %s' % (tot, shape))
        tgt = [P(p) for p in tgt]
        for i, a in enumerate(self.axes):
            if any(f[0] == 's' for f in a.f) and a.f != nfactors(a.f):
                return conform_multi(self, i, nfactors(a.f)).reshape(shape)
        items = [(i, k, normf(f)) for i, a in enumerate(self.axes) for k, f in enumerate(a.f)]
        items = [x for x in items if fdim(x[2]) != ONE]
        todo = [k for k, p in enumerate(tgt) if p != ONE]
        match = []                  # (items, targets) with equal product
        while items or todo:
            g = smallest_match([fdim(x[2]) for x in items], [tgt[k] for k in todo])
            if g is None:
                raise Unsupported('reshape %s -> %s' % (self.shape, shape))
            match.append((items[:g[0]], todo[:g[1]]))
            items, todo = items[g[0]:], todo[g[1]:]
        if all(len(t) == 1 for _, t in match):
            groups = {t[0]: g for g, t in match}
            axes = [Axis([f for _, _, f in groups.get(k, [])],
                         s.ax.count if isinstance(s, BundleShape) else None) for k, s in enumerate(shape)]
            terms = [Term(t.coef, t.nodes, [tuple(t.out[i][j] for i, j, _ in groups.get(k, []))
                                            for k in range(len(shape))], t.dims) for t in self.terms]
            return self.like(axes, terms, share=True)
        if any(isinstance(s, BundleShape) for s in shape):
            raise Unsupported('reshape of a bundle')
        # general case: new labels whose row-major index equals the one of the old labels
        for g, ts in match:
            if len(ts) > 1 and any(f[0] != 'd' for _, _, f in g):
                r = split_units(self, g, [tgt[k] for k in ts])
                if r is None:
                    raise Unsupported('reshape of a direct sum')
                return r.reshape(shape)
        axes = [None] * len(shape)
        for g, ts in match:
            if len(ts) == 1:
                axes[ts[0]] = Axis([f for _, _, f in g])
            else:
                for k in ts:
                    axes[k] = Axis((('d', tgt[k]),))
        axes = [a or Axis(()) for a in axes]
        terms = []
        for t in self.terms:
            out = [()] * len(shape)
            for g, ts in match:
                if len(ts) == 1:
                    out[ts[0]] = tuple(t.out[i][j] for i, j, _ in g)
                    continue
                old = tuple(t.out[i][j] for i, j, _ in g)
                new = {}
                ls = tuple(new_label(new, tgt[k]) for k in ts)
                occ = [x for sp in t.out for x in spec_labels(sp)]
                if len(old) == 1 and occ.count(old[0]) == 1:
                    t = substitute(t, old[0], ls, ZERO, new)
                    # a label without a tensor: the new labels are free as well
                else:
                    dims = dict(t.dims)
                    dims.update(new)
                    pr = ONE
                    for k in ts:
                        pr = pr * tgt[k]
                    t = Term(t.coef, t.nodes + ((delta_leaf(P(pr)), False, ((old, ZERO), (ls, ZERO))),), t.out, dims)
                for k, l in zip(ts, ls):
                    out[k] = (l,)
            terms.append(Term(t.coef, t.nodes, out, t.dims))
        return self.like(axes, terms, share=True)

    # -- algebra ---------------------------------------------------------------
    def conj(self):
        if self.dtype.kind != 'c':
            return self.copy()
        terms = [Term(t.coef.conj(), [(l, (not c) and not l.real, s) for l, c, s in t.nodes], t.out,
                      t.dims) for t in self.terms]
        return self.like(self.axes, terms)
    conjugate = conj

    def scaled(self, c, dtype=None):
        c = Coef.of(c)
        r = self.like(self.axes, [] if c.is_zero() else
                      [Term(t.coef * c, t.nodes, t.out, t.dims) for t in self.terms], dtype)
        r.isscalar = self.isscalar
        return r

    def __neg__(self):
        return self.scaled(-1)

    def __pos__(self):
        return self.copy()

    def __add__(self, o):
        if isnumber(o):
            if o == 0:
                return self.copy()
            o = asarray(o)
        if not isinstance(o, SymArray):
            o = tosym(o)
            if o is None:
                return NotImplemented
        a, b = broadcast(self, o)
        r = a.like(a.axes, a.terms + [t.fresh() for t in b.terms], np.result_type(a.dtype, b.dtype))
        r.isscalar = self.isscalar and o.isscalar
        return r
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isnumber(o):
            return self.scaled(o, np.result_type(self.dtype, np.dtype('complex128') if isinstance(
                o, (complex, np.complexfloating)) else self.dtype))
        if not isinstance(o, SymArray):
            o = tosym(o)
            if o is None:
                return NotImplemented
        dt = np.result_type(self.dtype, o.dtype)
        for x, y in ((self, o), (o, self)):
            if not y.axes:
                c = y.scalar_coef()
                if c is not None:
                    return x.scaled(c, dt)
        a, b = broadcast(self, o, mul=True)
        terms = []
        for s in a.terms:
            for t in b.terms:
                u = multiply(s, t.fresh())
                if u is not None:
                    terms.append(u)
        return a.like(a.axes, terms, dt)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isnumber(o):
            return self.scaled(Coef.of(o).inv(), np.result_type(self.dtype, np.dtype(
                'complex128') if isinstance(o, complex) else self.dtype))
        if isinstance(o, SymArray) and not o.axes:
            c = o.scalar_coef()
            if c is None:
                c = closed_coef(o)
            return self.scaled(c.inv(), np.result_type(self.dtype, o.dtype))
        if hasattr(o, 'isabs'):
            from . import canon
            return canon.phase(self, o.x)
        raise Unsupported('division by an array')

    def __rtruediv__(self, o):
        if not self.axes:
            c = self.scalar_coef()
            if c is None:
                c = closed_coef(self)
            r = SymArray([], [Term(c.inv() * Coef.of(o), (), (), {})], self.dtype, scalar=True)
            return r
        raise Unsupported('division by an array')

    def __pow__(self, n):
        if n == 1:
            return self
        if n == 2:
            return self * self
        raise Unsupported('power')

    def __iadd__(self, o):
        self._inplace(self + o)
        return self

    def __isub__(self, o):
        self._inplace(self - o)
        return self

    def __imul__(self, o):
        self._inplace(self * o)
        return self

    def __itruediv__(self, o):
        self._inplace(self / o)
        return self

    def _inplace(self, new):
        if self._origin is not None:
            parent, key = self._origin
            if new.dtype.kind == 'c' and self.dtype.kind != 'c':
                raise TypeError('Cannot cast ufunc output from complex to float')
            if len(new.axes) != len(self.axes):
                raise ValueError('non-broadcastable output operand')
            if not self._w:
                raise ValueError('output array is read-only')
            self.buf.handles.discard(self)
            try:
                parent.__setitem__(key, new)
            finally:
                self.buf.handles.add(self)
            self.axes, self.terms = new.axes, new.terms
            self._written = True
            return
        self._may_write()
        if new.dtype.kind == 'c' and self.dtype.kind != 'c':
            raise TypeError('Cannot cast ufunc output from complex to float')
        if len(new.axes) != len(self.axes):
            raise ValueError('non-broadcastable output operand')
        self.axes, self.terms = new.axes, new.terms

    def _may_write(self, but=None):
        c = ctx()
        if c is not None and c.seq is not None:
            written(self.buf.stamp)
            if self.buf.stamp < c.forced:
                raise Unsupported('in-place change after a comprehension')
        if not self._w:
            raise ValueError('assignment destination is read-only')
        if len([h for h in self.buf.handles if h is not self and h is not but]):
            raise Unsupported('in-place change of shared memory')

    def __eq__(self, o):
        if not self.axes and (isnumber(o) or isinstance(o, SymArray) and not o.axes):
            return self._cmp(o, True, 'equality of numbers')
        raise Unsupported('elementwise comparison')

    def __ne__(self, o):
        return not (self == o)

    def __le__(self, o):
        if hasattr(self, 'absof') and isinstance(o, (int, float)) and o > 0:
            return self.absof._cmp(0, True, 'comparison of numbers')
        raise Unsupported('elementwise comparison')

    def __lt__(self, o):
        if isinstance(o, (int, float)) and o <= 0 and self._nonneg():
            return np.array(False) if self.axes else False
        return self <= o

    def __ge__(self, o):
        if isinstance(o, (int, float)) and o <= 0 and self._nonneg():
            return np.array(True) if self.axes else True
        raise Unsupported('elementwise comparison')

    def __gt__(self, o):
        raise Unsupported('elementwise comparison')

    def _nonneg(self):
        """Not negative by precondition"""
        if self.axes:
            return getattr(self, 'nonneg', False)
        from . import canon
        return canon.nonneg(self)

    def _cmp(self, o, val, why):
        """Exact arithmetic: val if the numbers are equal"""
        from . import canon
        if canon.zero(self - o):
            return val
        raise Unsupported(why)

    __hash__ = None

    @property
    def real(self):
        from . import nplib
        return nplib.real(self)

    @property
    def imag(self):
        if self.dtype.kind != 'c':
            return zeros(self.shape) if self.axes else self * 0
        r = (self - self.conj()).scaled(Coef.of(-.5j))
        r = r.like(r.axes, r.terms, F64)
        r.isscalar = self.isscalar
        return r

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __array__(self, *a, **k):
        raise Unsupported('symbolic array given to a function without a rule')

    def __abs__(self):
        return absolute(self)

    def __complex__(self):
        c = self.scalar_coef()
        if c is not None and c.is_const():
            return c.evaluate(None)
        raise Unsupported('symbolic number as complex')

    def __float__(self):
        raise Unsupported('symbolic number as float')

    def scalar_coef(self):
        """Coefficient of a 0-d array which has no tensors"""
        if self.axes:
            return None
        r = Coef({})
        for t in self.terms:
            if t.nodes:
                return None
            c = t.coef
            for l, p in t.dims.items():
                c = c * Coef.of(P(p))
            r = r + c
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        if keepdims:
            raise Unsupported('keepdims')
        if axis is None:
            ps = list(range(len(self.axes)))
        elif isint(axis):
            ps = [self.pos(axis)]
        else:
            ps = []
            for x in axis:
                if isinstance(x, AxisRun):
                    ps.extend(x.locate(self))
                else:
                    ps.append(self.pos(x))
        if len(set(ps)) != len(ps):
            raise ValueError("duplicate value in 'axis'")
        keep = [i for i in range(len(self.axes)) if i not in ps]
        return self.like([self.axes[i] for i in keep],
                         [Term(t.coef, t.nodes, [t.out[i] for i in keep], t.dims) for t in self.terms])

    def trace(self, offset=0, axis1=0, axis2=1):
        i, j = self.pos(axis1), self.pos(axis2)
        if i == j:
            raise ValueError('axis1 and axis2 cannot be the same')
        a = self
        if P(a.axes[i].dim) != P(a.axes[j].dim):
            if mk(a.axes[i].dim) != mk(a.axes[j].dim):
                raise Unsupported('trace of a rectangular matrix')
        T = common(a.axes[i].f, a.axes[j].f)
        a = conform(conform(a, i, T), j, T)
        terms = []
        for t in a.terms:
            u = unify_specs(t, t.out[i], t.out[j])
            if u is not None:
                terms.append(Term(u.coef, u.nodes, [s for k, s in enumerate(u.out) if k not in (i, j)],
                                  u.dims))
        return a.like([x for k, x in enumerate(a.axes) if k not in (i, j)], terms)

    def dot(self, o):
        return dot(self, o)

    # -- indexing ----------------------------------------------------------------
    def _key(self, key):
        if not isinstance(key, tuple):
            key = tuple(key) if isinstance(key, list) and any(isinstance(k, slice) for k in key) else (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        ne = sum(1 for k in key if k is Ellipsis)
        if ne > 1:
            raise IndexError('an index can only have a single ellipsis')
        rest = len(self.axes) - n
        if rest < 0:
            raise IndexError('too many indices for array')
        if ne == 0:
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * rest)
            else:
                out.append(k)
        return out

    def __getitem__(self, key):
        if isinstance(key, SymArray) or isinstance(key, np.ndarray):
            raise Unsupported('indexing by an array')
        arr = self
        out_axes = []
        i = 0
        drop, add = [], []
        seq = []
        for k in self._key(key):
            if k is None:
                seq.append(None)
                continue
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step in (None, 1):
                    seq.append(('keep', i))
                else:
                    if k.step not in (None, 1):
                        raise Unsupported('slice with a step')
                    arr = take_slice(arr, i, k.start, k.stop)
                    seq.append(('keep', i))
            elif isint(k):
                arr = take_index(arr, i, k)
                seq.append(('drop', i))
            else:
                raise Unsupported('index %r' % (k,))
            i += 1
        axes = []
        for s in seq:
            if s is None:
                axes.append(Axis(()))
            elif s[0] == 'keep':
                axes.append(arr.axes[s[1]])
        terms = []
        for t in arr.terms:
            out = []
            for s in seq:
                if s is None:
                    out.append(())
                elif s[0] == 'keep':
                    out.append(t.out[s[1]])
            terms.append(Term(t.coef, t.nodes, out, t.dims))
        r = SymArray(axes, terms, self.dtype, self.buf, scalar=not axes)
        r._w = self._w
        r._origin = (self, key)
        return r

    def __setitem__(self, key, val):
        if isinstance(val, SymArray) and val._origin is not None and val._origin[0] is self \
                and val._origin[1] is key and val._written:
            return              # a[key] += x: the view was changed in place already
        self._may_write(val._origin and val if isinstance(val, SymArray) else None)
        key = self._key(key)
        if isinstance(val, float) and val != val:
            val = scalar_atom('nan', True)      # must not survive
        if not isinstance(val, SymArray):
            val = tosym(val)
        # positions of the written window, axis by axis
        arr = self
        blocks = []
        for i, k in enumerate(key):
            if k is None:
                raise Unsupported('newaxis in assignment')
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported('slice with a step')
                if k.start is None and k.stop is None:
                    blocks.append(None)
                    continue
                arr, b = cut(arr, i, k.start, k.stop)
                blocks.append((b, 'slice'))
            elif isint(k):
                arr, b = cut(arr, i, k, k + 1 if not (isint(k) and P(k) == Poly.of(-1)) else None)
                blocks.append((b, 'int'))
            else:
                raise Unsupported('assignment index %r' % (k,))
        # target axes
        tax = []
        for i, b in enumerate(blocks):
            if b is None:
                tax.append((i, arr.axes[i]))
            elif b[1] == 'slice':
                tax.append((i, Axis(block_factors(arr.axes[i], b[0]))))
        val = broadcast_to(val, [a for _, a in tax])
        # the written region must not contain other terms
        keepterms = []
        for t in arr.terms:
            hit = True
            for i, b in enumerate(blocks):
                if b is not None and not in_blocks(arr.axes[i], t.out[i], b[0]):
                    hit = False
            if not hit:
                keepterms.append(t)
            elif all(b is None or covers(arr.axes[i], b[0]) or b[1] for i, b in enumerate(blocks)):
                pass            # overwritten (the term lies inside of the window)
        if val.dtype.kind == 'c' and self.dtype.kind != 'c':
            import warnings
            raise Unsupported('assignment drops imaginary parts')
        # refine arr axes to val's structure inside of the window
        new = []
        axes = list(arr.axes)
        for (i, _), va in zip(tax, val.axes):
            b = blocks[i]
            if b is None:
                T = common(axes[i].f, va.f)
                if keepterms:
                    tmp = conform(arr.like(axes, keepterms), i, T)
                    axes, keepterms = list(tmp.axes), tmp.terms
                else:
                    axes[i] = Axis(T, axes[i].count)
        val2 = val
        for n, (i, _) in enumerate(tax):
            if blocks[i] is None:
                val2 = conform(val2, n, axes[i].f)
            else:
                axes[i], fs = refine_blocks(axes[i], blocks[i][0], val2.axes[n].f)
                val2 = conform(val2, n, fs)
        for t in val2.terms:
            t = t.fresh()
            out = [None] * len(axes)
            dims = dict(t.dims)
            for n, (i, _) in enumerate(tax):
                b = blocks[i]
                out[i] = t.out[n] if b is None else put_block(axes[i], b[0], t.out[n])
            for i, b in enumerate(blocks):
                if out[i] is None:
                    out[i] = put_block(axes[i], b[0], ())
            new.append(Term(t.coef, t.nodes, out, dims))
        self.axes, self.terms = axes, keepterms + new

    def __repr__(self):
        return 'SymArray(%s)' % (self.shape,)


class Flat(object):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        a = self.a
        if isinstance(i, SInt):
            from . import nplib
            return a[tuple(nplib.unravel_index(i, a.shape))]
        if i == 0:
            return a[tuple(0 for _ in a.axes)]
        raise Unsupported('flat index')


class AxisRun(object):
    """Run of consecutive axis numbers lo .. hi - 1 (symbolic length), ascending"""

    def __init__(self, lo, hi, shift=0):
        self.lo, self.hi = lo, hi

    def locate(self, arr):
        lo, hi = P(self.lo), P(self.hi)
        q, out, on = ZERO, [], False
        if lo == hi:
            return []
        for i, a in enumerate(arr.axes):
            if q == lo:
                on = True
            if q == hi:
                on = False
                break
            if on:
                out.append(i)
            q = q + (ONE if a.count is None else P(a.count))
        else:
            if q != hi:
                raise Unsupported('axis range %s:%s' % (lo, hi))
        if not out:
            raise Unsupported('axis range %s:%s' % (lo, hi))
        return out


def smallest_match(a, b):
    """Smallest (i, j) with equal products a[:i], b[:j] (i, j >= 1)"""
    pa, pb = [ONE], [ONE]
    for x in a:
        pa.append(P(pa[-1] * x))
    for x in b:
        pb.append(P(pb[-1] * x))
    for n in range(2, len(a) + len(b) + 1):
        for j in range(1, n):
            i = n - j
            if i <= len(a) and j <= len(b) and pa[i] == pb[j]:
                return i, j
    c = ctx()
    for n in range(2, len(a) + len(b) + 1):
        for j in range(1, n):
            i = n - j
            if i <= len(a) and j <= len(b) and c.entails('==', pa[i] - pb[j]):
                return i, j
    return None


def isnumber(x):
    return isinstance(x, (int, float, complex, np.number, Fraction, SInt)) and not isinstance(x, bool)


# -- window operations on axes ---------------------------------------------------

def bounds(arr, i, start, stop):
    """numpy slice semantics with symbolic bounds (clipping decided on the path)"""
    d = mk(arr.axes[i].dim)

    def fix(x, default):
        if x is None:
            return default
        if isinstance(x, (int, np.integer)):
            x = int(x)
        if x < 0:
            x = x + d
            if x < 0:
                x = 0
        if x > d:
            x = d
        return x
    a, b = fix(start, 0), fix(stop, d)
    if b < a:
        b = a
    return P(a), P(b)


def split_units(arr, items, targets):
    """Write a direct sum of constant dimension as a product such that a reshape becomes possible"""
    if items[-1][2][0] != 's':
        return None
    i, k, f = items[-1]
    n, d = P(targets[-1]), fdim(f)
    if not (n.is_const() and d.is_const()) or d.const() % n.const() or n.const() == d.const():
        return None
    n, d = n.const(), d.const()
    start = [0]
    for b in f[1]:
        start.append(start[-1] + pdim(b).const())
    terms = []
    for t in arr.terms:
        s = t.out[i][k]
        if isinstance(s, int) or s[1]:
            return None
        if start[s[0] + 1] - start[s[0]] != 1:
            return None
        q, r = divmod(start[s[0]], n)
        out = list(t.out)
        out[i] = t.out[i][:k] + ((q, ()), (r, ())) + t.out[i][k + 1:]
        terms.append(Term(t.coef, t.nodes, out, t.dims))
    axes = list(arr.axes)
    fs = tuple(arr.axes[i].f)
    axes[i] = Axis(fs[:k] + (('s', ((),) * (d // n)), ('s', ((),) * n)) + fs[k + 1:])
    return arr.like(axes, terms, share=True)


def cut(arr, i, start, stop):
    """Refine axis i such that start:stop is a range of blocks.

    Returns (array, (first, last+1)) in terms of blocks of the single direct sum
    factor of the axis; (None) marks the entire axis."""
    a, b = bounds(arr, i, start, stop)
    d = P(arr.axes[i].dim)
    if a == ZERO and b == d:
        return arr, 'all'
    if a == b:
        raise Unsupported('empty window')
    f = nfactors(arr.axes[i].f)
    if len(f) == 0:
        return arr, 'all'
    if len(f) > 1:
        # window on a product: treat as one opaque dimension
        raise Unsupported('window on a product axis')
    cuts = [ZERO, a, b, d]
    if f[0][0] == 's':
        q = ZERO
        for bl in f[0][1]:
            q = q + pdim(bl)
            cuts.append(q)
    # sort the cut points
    uniq = []
    for c in cuts:
        if c not in uniq:
            uniq.append(c)
    uniq = sort_polys(uniq)
    a, b, d = P(mk(a)), P(mk(b)), P(mk(d))
    if len(uniq) == 2:
        return arr, 'all'
    if f[0][0] == 's':
        # blocks between consecutive cuts
        bl, q = [], ZERO
        old = list(f[0][1])
        ends, s = [], ZERO
        for o in old:
            ends.append((s, s + pdim(o), o))
            s = s + pdim(o)
        for x, y in zip(uniq[:-1], uniq[1:]):
            m = [o for s0, s1, o in ends if s0 == x and s1 == y]
            bl.append(m[0] if m else (('d', y - x),))
        target = (('s', tuple(nfactors(b_) for b_ in bl)),)
    else:
        target = (('s', tuple(nfactors((('d', y - x),)) for x, y in zip(uniq[:-1], uniq[1:]))),)
    arr = conform_multi(arr, i, target)
    if a not in uniq or b not in uniq:
        raise Unsupported('window')
    first = uniq.index(a)
    last = uniq.index(b)
    return arr, (first, last)


def sort_polys(ps):
    """Sorted without repetition; decides equalities on the path"""
    c = ctx()
    out = []
    for p in ps:
        k = 0
        new = True
        while k < len(out):
            if P(mk(p)) == P(mk(out[k])) or c.decide('==', p - out[k]):
                new = False
                break
            if not c.decide('>', p - out[k]):
                break
            k += 1
        if new:
            out.insert(k, p)
    return [P(mk(p)) for p in out]


def conform_multi(arr, i, target):
    """conform() which also splits other axes that share the label of axis i"""
    try:
        return conform(arr, i, target)
    except Unsupported as e:
        if 'two outputs' not in str(e):
            raise
    # split shared labels: rewrite every term such that the other axis is split, too
    others = set()
    for t in arr.terms:
        ls = set(spec_labels(t.out[i]))
        for j, sp in enumerate(t.out):
            if j != i and ls & set(spec_labels(sp)):
                others.add(j)
    # replace shared output labels by explicit deltas
    terms = []
    for t in arr.terms:
        ls = set(spec_labels(t.out[i]))
        shared = [l for l in ls if any(l in spec_labels(sp) for j, sp in enumerate(t.out) if j != i)]
        dims = dict(t.dims)
        out = list(t.out)
        nodes = list(t.nodes)
        for l in shared:
            n = new_label(dims, dims[l])
            out[i] = respec(out[i], {l: n})
            nodes.append((delta_leaf(dims[l]), False, (((l,), ZERO), ((n,), ZERO))))
        terms.append(Term(t.coef, nodes, out, dims))
    return conform(arr.like(arr.axes, terms), i, target)


def delta_leaf(p):
    return Leaf(('delta', p), (p, p), True, ('delta',))


def block_factors(ax, b):
    if b == 'all':
        return ax.f
    f = nfactors(ax.f)[0]
    bl = f[1][b[0]:b[1]]
    return bl[0] if len(bl) == 1 else (('s', bl),)


def in_blocks(ax, spec, b):
    if b == 'all':
        return True
    return b[0] <= spec[0][0] < b[1]


def covers(ax, b):
    return b == 'all'


def put_block(ax, b, spec):
    """spec inside of the window -> spec of the axis"""
    if b == 'all':
        return spec
    if b[1] - b[0] == 1:
        return ((b[0], tuple(spec)),)
    return ((b[0] + spec[0][0], spec[0][1]),)


def refine_blocks(ax, b, fs):
    """Axis with the blocks of the window refined to fs; returns (axis, factors of the window)"""
    if b == 'all':
        T = common(ax.f, fs)
        return Axis(T, ax.count), T
    f = nfactors(ax.f)[0]
    bl = list(f[1])
    if b[1] - b[0] == 1:
        T = common(bl[b[0]], fs)
        bl[b[0]] = T
        return Axis((('s', tuple(bl)),), ax.count), T
    T = common((('s', tuple(bl[b[0]:b[1]])),), fs)
    if len(T) != 1 or T[0][0] != 's' or len(T[0][1]) != b[1] - b[0]:
        raise Unsupported('refinement of a window')
    bl[b[0]:b[1]] = T[0][1]
    return Axis((('s', tuple(bl)),), ax.count), T


def take_slice(arr, i, start, stop):
    f = nfactors(arr.axes[i].f)
    if len(f) > 1 and isinstance(start, int) and isinstance(stop, int) and stop == start + 1 and start >= 0 \
            and P(arr.axes[i].dim).is_const() and stop <= P(arr.axes[i].dim).const():
        return take_index(arr, i, start)
    arr, b = cut(arr, i, start, stop)
    if b == 'all':
        return arr
    axes = list(arr.axes)
    axes[i] = Axis(block_factors(arr.axes[i], b))
    terms = []
    one = b[1] - b[0] == 1
    for t in arr.terms:
        (bi, sub), = t.out[i]
        if b[0] <= bi < b[1]:
            out = list(t.out)
            out[i] = sub if one else ((bi - b[0], sub),)
            terms.append(Term(t.coef, t.nodes, out, t.dims))
    return arr.like(axes, terms, share=True)


def take_index(arr, i, k):
    d = mk(arr.axes[i].dim)
    if P(d) == ONE or (isinstance(k, int) and d == 1):
        if k not in (0, -1):
            raise IndexError('index out of bounds')
        return arr
    kk = k
    if not isinstance(kk, SInt) and kk < 0:
        kk = kk + d
    if kk >= d or kk < 0:
        raise IndexError('index %s is out of bounds for axis with size %s' % (k, d))
    f = nfactors(arr.axes[i].f)
    if len(f) > 1:
        # product axis with constant index: row-major digits (concrete dimensions only)
        ds = [fdim(g) for g in f]
        if all(x.is_const() for x in ds) and isinstance(kk, int):
            idx = np.unravel_index(kk, [x.const() for x in ds])
            arr = conform(arr, i, f)
            # turn the product into separate axes
            axes = list(arr.axes)
            axes[i:i + 1] = [Axis((g,)) for g in f]
            terms = [Term(t.coef, t.nodes, t.out[:i] + tuple((s,) for s in t.out[i]) + t.out[i + 1:], t.dims)
                     for t in arr.terms]
            a2 = arr.like(axes, terms)
            for n, j in enumerate(idx):
                a2 = take_index(a2, i + n, int(j))
            # merge the (unit) axes again
            m = len(f)
            axes = list(a2.axes)
            axes[i:i + m] = [Axis(())]
            terms = [Term(t.coef, t.nodes, t.out[:i] + ((),) + t.out[i + m:], t.dims) for t in a2.terms]
            return a2.like(axes, terms)
        raise Unsupported('index into a product axis')
    if len(f) == 1 and f[0][0] == 'd' and isinstance(kk, SInt):
        r = fix_label(arr, i, P(kk))
        if r is not None:
            return r
    r = take_slice(arr, i, kk, kk + 1)
    return r


def fix_label(arr, i, k):
    """Axis i at position k if all terms have a plain label there (None: not possible)"""
    terms = []
    for t in arr.terms:
        t = t.fresh()
        if len(t.out[i]) != 1 or not isinstance(t.out[i][0], int):
            return None
        x = t.out[i][0]
        if [y for sp in t.out for y in spec_labels(sp)].count(x) != 1:
            # the label remains: it has the value k
            d = delta_leaf(P(t.dims[x]))
            terms.append(Term(t.coef, t.nodes + ((d, False, (((x,), ZERO), ((), k))),),
                              t.out[:i] + ((),) + t.out[i + 1:], t.dims))
            continue
        nodes = []
        for l, c, sl in t.nodes:
            ns = []
            for ls, st in sl:
                while x in ls:
                    n = ls.index(x)
                    stride = ONE
                    for y in ls[n + 1:]:
                        stride = stride * P(t.dims[y])
                    ls, st = ls[:n] + ls[n + 1:], P(st) + stride * k
                ns.append((ls, st))
            nodes.append((l, c, tuple(ns)))
        terms.append(Term(t.coef, nodes, t.out[:i] + ((),) + t.out[i + 1:],
                          {y: d for y, d in t.dims.items() if y != x}))
    axes = list(arr.axes)
    axes[i] = Axis(())
    return arr.like(axes, terms, share=True)


# -- binary helpers --------------------------------------------------------------

def multiply(s, t):
    """Product of two terms with aligned outputs (elementwise)"""
    dims = dict(s.dims)
    dims.update(t.dims)
    u = Term(s.coef * t.coef, s.nodes + t.nodes, s.out, dims)
    m = {}
    for x, y in zip(s.out, t.out):
        if not match_spec(x, y, m):
            return None
    # t's labels replaced by s's
    nodes = [(l, c, tuple((tuple(res(m, z) for z in ls), st) for ls, st in sl)) for l, c, sl in u.nodes]
    out = [respec(o, {k: res(m, k) for k in m}) for o in u.out]
    dims = {res(m, k): v for k, v in u.dims.items()}
    return Term(u.coef, nodes, out, dims)


def res(m, x):
    while x in m:
        x = m[x]
    return x


def match_spec(x, y, m):
    """Unify labels of two specs of equal structure; False if blocks differ"""
    if len(x) != len(y):
        raise Unsupported('internal: specs differ')
    for a, b in zip(x, y):
        if isinstance(a, int) != isinstance(b, int):
            raise Unsupported('internal: specs differ')
        if isinstance(a, int):
            ra, rb = res(m, a), res(m, b)
            if ra != rb:
                m[rb] = ra
        else:
            if a[0] != b[0]:
                return False
            if not match_spec(a[1], b[1], m):
                return False
    return True


def unify_specs(t, x, y):
    m = {}
    if not match_spec(x, y, m):
        return None
    return t.relabel({k: res(m, k) for k in m})


def broadcast(a, b, mul=False):
    """numpy broadcasting of two arrays, axes refined to a common structure"""
    n = max(len(a.axes), len(b.axes))
    if (len(a.axes) != len(b.axes)) and any(x.count is not None for x in a.axes + b.axes):
        raise Unsupported('broadcasting of bundles')

    def expand(x):
        k = n - len(x.axes)
        if not k:
            return x
        return x.like([Axis(())] * k + list(x.axes),
                      [Term(t.coef, t.nodes, ((),) * k + t.out, t.dims) for t in x.terms])
    a, b = expand(a), expand(b)
    for i in range(n):
        da, db = P(a.axes[i].dim), P(b.axes[i].dim)
        if da == db:
            T = common(a.axes[i].f, b.axes[i].f)
            a, b = conform_multi2(a, i, T), conform_multi2(b, i, T)
        elif da == ONE or (db != ONE and mk(da) == 1):
            a = repeat_axis(a, i, b.axes[i])
            b = conform_multi2(b, i, nfactors(b.axes[i].f))
        elif db == ONE or mk(db) == 1:
            b = repeat_axis(b, i, a.axes[i])
            a = conform_multi2(a, i, nfactors(a.axes[i].f))
        else:
            if mk(da) == mk(db):
                T = common(a.axes[i].f, b.axes[i].f)
                a, b = conform_multi2(a, i, T), conform_multi2(b, i, T)
            else:
                raise ValueError('operands could not be broadcast together with shapes %s %s'
                                 % (a.shape, b.shape))
    return a, b


def conform_multi2(a, i, T):
    return conform_multi(a, i, T)


def repeat_axis(a, i, ax):
    f = nfactors(ax.f)
    axes = list(a.axes)
    axes[i] = Axis(f, ax.count)
    terms = []
    for t in a.terms:
        new = {}
        for sp in list(free_spec(f, new)):
            out = list(t.out)
            out[i] = sp
            dims = dict(t.dims)
            dims.update((l, new[l]) for l in spec_labels(sp))
            terms.append(Term(t.coef, t.nodes, out, dims))
    return a.like(axes, terms)


def broadcast_to(a, axes):
    n = len(axes)
    if len(a.axes) > n:
        # leading unit axes are allowed
        k = len(a.axes) - n
        if any(P(x.dim) != ONE for x in a.axes[:k]):
            raise ValueError('could not broadcast input array')
        a = a.like(a.axes[k:], [Term(t.coef, t.nodes, t.out[k:], t.dims) for t in a.terms])
    elif len(a.axes) < n:
        k = n - len(a.axes)
        a = a.like([Axis(())] * k + list(a.axes),
                   [Term(t.coef, t.nodes, ((),) * k + t.out, t.dims) for t in a.terms])
    for i in range(n):
        da, db = P(a.axes[i].dim), P(axes[i].dim)
        if da == db:
            T = common(a.axes[i].f, axes[i].f)
            a = conform_multi(a, i, T)
        elif da == ONE:
            a = repeat_axis(a, i, axes[i])
        elif mk(da) == mk(db):
            T = common(a.axes[i].f, axes[i].f)
            a = conform_multi(a, i, T)
        else:
            raise ValueError('could not broadcast input array from shape %s into shape %s'
                             % (a.shape, tuple(x.dim for x in axes)))
    return a


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isint(axes):
        n = int(axes)
        pa = list(range(len(a.axes) - n, len(a.axes)))
        pb = list(range(n))
    else:
        xa, xb = axes
        xa = [xa] if isint(xa) else list(xa)
        xb = [xb] if isint(xb) else list(xb)
        if len(xa) != len(xb):
            raise ValueError('shape-mismatch for sum')
        pa, pb = [a.pos(x) for x in xa], [b.pos(x) for x in xb]
    if len(set(pa)) != len(pa) or len(set(pb)) != len(pb):
        raise ValueError('repeated axis in tensordot')
    for i, j in zip(pa, pb):
        if P(a.axes[i].dim) != P(b.axes[j].dim):
            if mk(a.axes[i].dim) != mk(b.axes[j].dim):
                raise ValueError('shape-mismatch for sum')
        T = common(a.axes[i].f, b.axes[j].f)
        a, b = conform_multi(a, i, T), conform_multi(b, j, T)
    ka = [i for i in range(len(a.axes)) if i not in pa]
    kb = [j for j in range(len(b.axes)) if j not in pb]
    terms = []
    for s in a.terms:
        for t in b.terms:
            t = t.fresh()
            dims = dict(s.dims)
            dims.update(t.dims)
            m = {}
            if not all(match_spec(s.out[i], t.out[j], m) for i, j in zip(pa, pb)):
                continue
            u = Term(s.coef * t.coef, s.nodes + t.nodes,
                     [s.out[i] for i in ka] + [t.out[j] for j in kb], dims)
            terms.append(u.relabel({k: res(m, k) for k in m}))
    return SymArray([a.axes[i] for i in ka] + [b.axes[j] for j in kb], terms,
                    np.result_type(a.dtype, b.dtype))


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if not a.axes or not b.axes:
        return a * b
    if len(b.axes) == 1:
        return tensordot(a, b, (-1, 0))
    return tensordot(a, b, ((-1,), (len(b.axes) - 2,)))


def concatenate(arrays, axis=0):
    arrays = [asarray(x) for x in arrays]
    if not arrays:
        raise ValueError('need at least one array to concatenate')
    n = len(arrays[0].axes)
    if any(len(x.axes) != n for x in arrays):
        raise ValueError('all the input array dimensions must match')
    i = arrays[0].pos(axis)
    for j in range(n):
        if j == i:
            continue
        T = arrays[0].axes[j].f
        for x in arrays[1:]:
            if P(x.axes[j].dim) != P(arrays[0].axes[j].dim):
                if mk(x.axes[j].dim) != mk(arrays[0].axes[j].dim):
                    raise ValueError('all the input array dimensions except for the concatenation axis '
                                     'must match exactly')
            T = common(T, x.axes[j].f)
        T = nfactors(T)
        arrays = [conform_multi(x, j, T) for x in arrays]
    blocks, terms = [], []
    for x in arrays:
        x = conform_multi(x, i, nfactors(x.axes[i].f))
        f = x.axes[i].f
        off = len(blocks)
        flat = len(f) == 1 and f[0][0] == 's'
        if flat:
            blocks.extend(f[0][1])
        else:
            blocks.append(f)
        for t in x.terms:
            t = t.fresh()
            out = list(t.out)
            out[i] = ((off + out[i][0][0], out[i][0][1]),) if flat else ((off, out[i]),)
            terms.append(Term(t.coef, t.nodes, out, t.dims))
    axes = list(arrays[0].axes)
    if len(blocks) == 1:
        axes[i] = Axis(blocks[0])
        terms = [Term(t.coef, t.nodes, t.out[:i] + (t.out[i][0][1],) + t.out[i + 1:], t.dims) for t in terms]
    else:
        axes[i] = Axis((('s', tuple(blocks)),))
    return SymArray(axes, terms, np.result_type(*[x.dtype for x in arrays]))


# -- constructors -------------------------------------------------------------

def plain_axes(shape):
    return [s.ax if isinstance(s, BundleShape) else Axis((('d', P(s)),) if P(s) != ONE else ())
            for s in shape]


def zeros(shape, dtype=F64):
    if isint(shape):
        shape = (shape,)
    return SymArray(plain_axes(shape), [], dtype or F64)


def ones(shape, dtype=F64):
    if isint(shape):
        shape = (shape,)
    axes = plain_axes(shape)
    dims = {}
    out = []
    for a in axes:
        out.append(tuple(new_label(dims, f[1]) for f in a.f))
    return SymArray(axes, [Term(CONE, (), out, dims)], dtype or F64)


def eye(n, m=None, dtype=F64):
    if m is not None and not peq2(n, m):
        raise Unsupported('rectangular identity')
    p = P(n)
    dims = {}
    if p == ONE:
        return SymArray([Axis(()), Axis(())], [Term(CONE, (), ((), ()), {})], dtype or F64)
    l = new_label(dims, p)
    ax = Axis((('d', p),))
    return SymArray([ax, ax], [Term(CONE, (), ((l,), (l,)), dims)], dtype or F64)


def peq2(a, b):
    return P(a) == P(b) or mk(P(a)) == mk(P(b))


def absolute(x):
    from . import nplib
    return nplib.abs_(x)


def leaf_array(name, shape, real=False, dtype=None):
    """New named tensor"""
    axes = plain_axes(shape)
    dims, out, slots, ld = {}, [], [], []
    for a in axes:
        sp = []
        for f in a.f:
            l = new_label(dims, f[1])
            sp.append(l)
            slots.append(((l,), ZERO))
            ld.append(f[1])
        out.append(tuple(sp))
    leaf = Leaf(name, ld, real)
    return SymArray(axes, [Term(CONE, ((leaf, False, tuple(slots)),), out, dims)],
                    dtype or (F64 if real else C128))


def scalar_atom(name, real=False):
    at = ('r', name) if real else ('c', name, False)
    return SymArray([], [Term(Coef.atom(at), (), (), {})], F64 if real else C128, scalar=True)


def asarray(x):
    if isinstance(x, SymArray):
        return x
    r = tosym(x)
    if r is None:
        raise Unsupported('cannot convert %r' % type(x))
    return r


_const_leaf = {}


def tosym(x):
    """Concrete numbers / arrays -> symbolic arrays"""
    if isinstance(x, SymArray):
        return x
    if isnumber(x):
        return SymArray([], [] if (not isinstance(x, SInt) and x == 0) else [Term(Coef.of(x), (), (), {})],
                        C128 if isinstance(x, (complex, np.complexfloating)) else F64, scalar=True)
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, (SymArray, list, tuple)) or isnumber(y) for y in x):
        parts = [asarray(y) for y in x]
        parts = [SymArray([Axis(())] + p.axes, [Term(t.coef, t.nodes, ((),) + t.out, t.dims) for t in p.terms],
                          p.dtype) for p in parts]
        return concatenate(parts, 0)
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        x = np.asarray(x)
        if x.dtype.kind not in 'fciub':
            raise Unsupported('array of dtype %s' % x.dtype)
        dt = C128 if x.dtype.kind == 'c' else F64
        if not x.any():
            return zeros(x.shape, dt)
        if x.ndim == 0 or x.size == 1:
            return SymArray([Axis(()) for _ in x.shape],
                            [Term(Coef.of(x.flat[0]), (), ((),) * x.ndim, {})], dt)
        if x.ndim == 2 and x.shape[0] == x.shape[1] and (x == np.eye(len(x))).all():
            return eye(len(x), dtype=dt)
        if (x == 1).all():
            return ones(x.shape, dt)
        key = ('const', x.shape, x.dtype.kind, x.tobytes())
        r = leaf_array(('const', hash(key)), x.shape, x.dtype.kind != 'c', dt)
        for t in r.terms:
            for l, _, _ in t.nodes:
                l.define = ('const', np.array(x))
        return r
    return None
