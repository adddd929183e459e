"""Chains with an arbitrary (symbolic) number of sites.

The contracts are stated with

* ``forall(lo, hi, fn)``: obligations ``fn(k)`` for an arbitrary index lo <= k < hi,
* ``prefix(chain, k)``: contraction of the first k sites of a chain.  Legs of the same
  position in all k sites are combined to one (row-major in the order of sites), the
  right bond stays open.  The only facts which are used are the defining equations
  prefix(1) = first tensor, prefix(k + 1) = prefix(k) contracted with tensor k,
* ``induct(R, phi)``: for all 1 <= k <= N: prefix(R, k) = phi(k), by induction over k.
  For k = N this is the statement about the dense arrays,
* loop contracts (rules) for loops over the sites.
"""
import numpy as np
import z3

from ..registry import Reject
from .ctx import ctx, Poly, SInt, mk, P, Unsupported, PathEnd
from . import arr as A
from .arr import asarray, tosym
from . import seq as Q
from .seq import LoopDone, SList, Seq, Rule, fresh_index, issym
from .packed import Packed
from .env import SymEnv


class Legs(object):
    """Physical dimensions of all sites: d(i, j) for site i and leg j"""

    def __init__(self, env, name, n, equal=None):
        self.env, self.name, self.n = env, name, n
        self.equal = equal              # legs with the same dimension: list of leg classes
        self.src = [(self, j) for j in range(n)]
        self.pure = True                # no derived legs

    def root(self, j):
        return self.src[j]

    def dim(self, i, j):
        o, j = self.src[j]
        return o.env.var('%s.d%d' % (o.name, o.cls(j)), i)

    def cls(self, j):
        return j if self.equal is None else self.equal[j]

    def total(self, k, j):
        """Product of the dimensions of leg j on the first k sites"""
        o, j = self.src[j]
        return o.env.var('%s.L%d' % (o.name, o.cls(j)), k)

    @staticmethod
    def of(env, *roots):
        """Legs taken from other chains: (Legs, j), ..."""
        x = Legs(env, None, len(roots))
        x.src = [r[0].src[r[1]] for r in roots]
        return x


class Chain(object):
    """An arbitrary chain: tensors, bond dimensions and canonical form are arbitrary"""

    def __init__(self, env, name, N, legs, dtype=complex, form=None, rbound=None):
        self.env, self.name, self.N, self.legs = env, name, N, legs
        self.real = np.dtype(dtype).kind != 'c'
        self.dtype = dtype
        self.form = form
        self.rbound = rbound        # chain whose bond dimensions are not exceeded
        self.tens, self.pre = {}, {}
        self.dense = self           # chain which represents the same array
        self.scale = None

    def bond(self, b):
        e = self.env
        k = e.canon(b)
        if k == e.canon(0) or k == e.canon(self.N):
            return 1
        new = ('%s.r' % self.name, k) not in e.vars
        r = e.var('%s.r' % self.name, b)
        if new and self.rbound is not None:
            e.c.assume('<=', P(r) - P(self.rbound.bond(b)))
        return r

    def site(self, i):
        e = self.env
        k = e.canon(i)
        if k not in self.tens:
            sh = (self.bond(i),) + tuple(self.legs.dim(i, j) for j in range(self.legs.n)) + (self.bond(i + 1),)
            nm = '%s[%s]' % (self.name, k)
            side = None
            if self.form is not None and e.forms_used:
                l, r = self.form
                side = 'left' if i < l else 'right' if not i < r else None
            if k in self.tens:
                return self.tens[k]
            self.tens[k] = e.isometry(nm, sh, self.dtype, side) if side else \
                A.leaf_array(nm, sh, self.real, A.F64 if self.real else A.C128)
        return self.tens[k]


def extend(p, t):
    """prefix(k + 1) from prefix(k) and tensor k"""
    p, t = asarray(p), asarray(t)
    m = len(p.axes) - 1
    if len(t.axes) != m + 2:
        raise Unsupported('number of legs is not the same on all sites')
    r = A.tensordot(p, t, (-1, 0))
    order = [x for j in range(m) for x in (j, m + j)] + [2 * m]
    r = r.transpose(order)
    s = r.shape
    return r.reshape(tuple(s[2 * j] * s[2 * j + 1] for j in range(m)) + (s[-1],))


class Fold(Rule):
    """Loop over sites which accumulates one array.  Invariant: the accumulator is spec(number of sites used)

    All other local variables which exist before the loop keep their values.
    """

    def __init__(self, env, N, spec, label):
        self.env, self.N, self.spec, self.label = env, N, spec, label

    def applies(self, loop, loc):
        self.acc = [x for x in loop.names if isinstance(loc.get(x), (A.SymArray, Packed, np.ndarray))]
        return len(self.acc) == 1

    def enter(self, loop, loc):
        self.acc = self.acc[0]
        self.keep = dict((x, loc[x]) for x in loop.names if x in loc and x != self.acc)
        self.off = self.N - loop.seq.n
        e = self.env
        if e.c.entails('<', P(self.off)) or not e.c.entails('<=', P(self.off) - Poly.of(1)):
            raise Unsupported('loop does not run over the sites')

    def check(self, loop, loc, k):
        e = self.env
        want, got = self.spec(k + self.off), loc[self.acc]
        if isinstance(want, Packed):
            got = Packed.of(got)
            want, got = want.arr, got.arr
        e.same(tuple(asarray(got).shape), tuple(want.shape), self.label + ': shape of the accumulator')
        e.eq(got, want, self.label + ': accumulator')
        for x, v in self.keep.items():
            w = loc[x]
            if not (w is v or isinstance(v, (int, SInt)) and isinstance(w, (int, SInt)) and w == v):
                raise Unsupported('variable %s changes in a loop' % x)

    def havoc(self, loop, loc, k):
        r = dict(self.keep)
        r[self.acc] = self.spec(k + self.off)
        return r


class SeqEnv(SymEnv):
    unbounded = True

    def __init__(self, mp, np_, mods, c):
        SymEnv.__init__(self, mp, np_, mods, c)
        c.seq = self
        c.rules = []
        self.idx = [Poly.of(0)]
        self.vars = {}
        self.chains = 0
        self.forms_used = True

    def repeat(self, x, n):
        return Q.repeat(x, n)

    # -- indices and dimensions ---------------------------------------------------
    def canon(self, i):
        """Number of the class of equal indices; forks until it is known"""
        p = P(i)
        for k, q in enumerate(self.idx):
            if P(q) == p:
                return k
        for k, q in enumerate(self.idx):
            if self.c.decide('==', p - P(q)):
                return k
        self.idx.append(p)
        return len(self.idx) - 1

    def var(self, name, i):
        k = self.canon(i)
        if (name, k) not in self.vars:
            v = '%s[%d]' % (name, k)
            self.c.zvar(v)
            self.vars[name, k] = v
        return mk(Poly.var(self.vars[name, k]))

    def length(self, label='N', lo=1):
        """Arbitrary number of sites"""
        self.c.zvar(label)
        n = SInt(Poly.var(label))
        if lo > 1:
            self.c.assume('>=', n.p - Poly.of(lo))
        self.log.append((label, ('dim', label)))
        self.canon(n)
        return n

    def index(self, label, lo, hi):
        """Arbitrary index lo <= i < hi"""
        i = fresh_index(label, lo, hi)
        self.log.append((label, i))
        return i

    def any_form(self, N):
        l = self.index('lcanon', 0, N)
        r = self.index('rcanon', l + 1, N + 1)
        return l, r

    def legs(self, name, n, equal=None):
        return Legs(self, name, n, equal)

    def legcount(self, label, options=(1, 2, 0)):
        return self.choose(label + '.legs', list(options))

    # -- chains ----------------------------------------------------------------
    def tensors(self, ch, lo=0, n=None):
        s = Seq(ch.N if n is None else n, (lambda i: ch.site(i)) if n is None else (lambda i: ch.site(lo + i)))
        s.safe = True
        return SList(s)

    def chain(self, name, N, legs, dtype=complex, form='any', cls=None, rbound=None):
        """(MPArray, Chain) for an arbitrary chain"""
        if form == 'any':
            form = self.any_form(N)
        self.chains += 1
        ch = Chain(self, '%s%d' % (name, self.chains), N, legs, dtype, form, rbound)
        return self.wrap(ch, cls), ch

    def wrap(self, ch, cls=None):
        LT = self.mods['mpnum.mpstruct'].LocalTensors
        with self.quiet():
            lt = LT(self.tensors(ch), cform=ch.form) if ch.form is not None else LT(self.tensors(ch))
        return (cls or self.mp.MPArray)(lt)

    def raw(self, name, N, legs, dtype=complex):
        """An arbitrary chain without an object of the library"""
        self.chains += 1
        return Chain(self, '%s%d' % (name, self.chains), N, legs, dtype)

    def factors(self, name, N, legs, dtype=complex):
        """A list of N arbitrary tensors without bonds"""
        memo = {}
        real = np.dtype(dtype).kind != 'c'

        def at(i):
            k = self.canon(i)
            if k not in memo:
                memo[k] = A.leaf_array('%s[%s]' % (name, k), tuple(legs.dim(i, j) for j in range(legs.n)), real,
                                       A.F64 if real else A.C128)
            return memo[k]
        return self.site_list(N, at)

    def raises_at(self, k, excs, fn, label):
        """fn has to raise; a loop which only checks something is instantiated at iteration k"""
        self.c.witness = k
        self.raises(excs, fn, label)
        self.c.witness = None

    def site_list(self, N, f):
        s = Seq(N, f)
        s.safe = True
        return SList(s)

    def indices(self, N, dim):
        """A list of N arbitrary indices, 0 <= x[i] < dim(i)"""
        memo = {}

        def at(i):
            k = self.canon(i)
            if k not in memo:
                memo[k] = fresh_index('x', 0, dim(i))
            return memo[k]
        return self.site_list(N, at)

    def quiet(self):
        """Constructions of the harness: loops which only check something are skipped"""
        env = self

        class Quiet(object):
            def __enter__(s):
                s.old = env.c.__dict__.get('skip')
                env.c.skip = True

            def __exit__(s, *a):
                env.c.skip = s.old
        return Quiet()

    def aspect(self, *names):
        """One group of postconditions per path; tensors are only taken as isometries where this is used"""
        a = self.choose('aspect', ['value'] + list(names))
        self.forms_used = a != 'value'
        return a

    # -- obligations ------------------------------------------------------------
    def fold(self, N, spec, label):
        """Contract of loops over N sites which accumulate an array"""
        self.c.rules.append(Fold(self, N, spec, label))

    def side(self, fn):
        """Obligations which introduce arbitrary values: explored on a path of their own"""
        if self.c.choice(2, 'side') == 0:
            fn()
            raise LoopDone()

    def forall(self, lo, hi, fn):
        def f():
            k = fresh_index('k', lo, hi)
            self.log.append(('k', k))
            fn(k)
        self.side(f)

    def prefix(self, ch, k):
        """Contraction of the sites 0 .. k - 1"""
        if isinstance(ch, Chain):
            ch = ch.dense
        e = self
        key = e.canon(k)
        if key in ch.pre:
            return ch.pre[key]
        if e.canon(1) == key:
            t = ch.site(0)
            r = t[0]
        else:
            k1 = e.canon(k - 1)
            if k1 in ch.pre:
                r = extend(ch.pre[k1], ch.site(k - 1))
            else:
                sh = tuple(ch.legs.total(k, j) for j in range(ch.legs.n)) + (ch.bond(k),)
                r = A.leaf_array('%s.P[%s]' % (ch.name, key), sh, ch.real, A.F64 if ch.real else A.C128)
        ch.pre[key] = r
        return r

    def dense_prefix(self, ch, k):
        """Contraction of the first k sites, the legs of all sites combined in the order of the sites"""
        pre = ch.__dict__.setdefault('pre1', {})
        key = self.canon(k)
        if key in pre:
            return pre[key]
        if self.canon(1) == key:
            r = Packed.of(ch.site(0))
        else:
            k1 = self.canon(k - 1)
            if k1 in pre:
                from . import packed
                r = packed.tensordot(pre[k1], ch.site(k - 1), (-1, 0))
            else:
                sh = (1, self.var(ch.name + '.size', k), ch.bond(k))
                r = Packed(A.leaf_array('%s.D[%s]' % (ch.name, key), sh, ch.real, A.F64 if ch.real else A.C128))
        pre[key] = r
        return r

    def sites_of(self, R):
        """Tensor i of a result (public access)"""
        if isinstance(R, Chain):
            return R.site
        if isinstance(R, (Seq, SList, list, tuple)):
            return lambda i: R[i]
        lt = R.lt
        return lambda i: lt[i]

    def induct(self, R, phi, label, N=None):
        """prefix(R, k) == phi(k) for all 1 <= k <= N"""
        at = self.sites_of(R)
        N = len_(R) if N is None else N

        def base():
            t = asarray(at(0))
            self.same(t.shape[0], 1, label + ': left rank')
            self.eq(t[0], phi(1), label + ': first site')

        def step(k):
            h = asarray(phi(k))
            t = asarray(at(k))
            self.same(t.shape[0], h.shape[-1], label + ': ranks')
            self.eq(extend(h, t), phi(k + 1), label + ': site')
        self.side(base)
        self.forall(1, N, step)
        self.check(N > 0, label + ': not empty')

    def honest(self, R, label='canonical form honest'):
        l, r = R.canonical_form
        n = len_(R)
        self.check(0 <= l and l < n and 0 < r and r <= n, label + ': range')
        at = self.sites_of(R)
        self.forall(0, l, lambda k: self._norm_obl(at(k), 'left', label))
        self.forall(r, n, lambda k: self._norm_obl(at(k), 'right', label))

    def wellformed(self, R, label='chain well formed'):
        at = self.sites_of(R)
        n = len_(R)
        self.check(n > 0, label)
        self.forall(0, n - 1, lambda k: self.same(at(k).shape[-1], at(k + 1).shape[0], label))
        self.side(lambda: self.same((at(0).shape[0], at(n - 1).shape[-1]), (1, 1), label))

    def same_sites(self, R, S, label):
        """Equal tensors on all sites"""
        a, b = self.sites_of(R), self.sites_of(S)
        self.same(len_(R), len_(S), label + ' (length)')
        self.forall(0, len_(S), lambda k: self.eq(a(k), b(k), label))

    def shape_is(self, R, legs, label):
        at = self.sites_of(R)
        self.forall(0, len_(R), lambda k: self.same(
            tuple(at(k).shape[1:-1]), tuple(legs.dim(k, j) for j in range(legs.n)), label))


def len_(R):
    if isinstance(R, Chain):
        return R.N
    if isinstance(R, (list, tuple)):
        return len(R)
    return type(R).__len__(R)
