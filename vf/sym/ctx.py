"""Path exploration: decisions, path condition, z3 oracle for integers."""
import itertools
import random
import zlib
import time
import z3


class Unsupported(BaseException):
    """The engine has no rule for this: the obligation stays undecided."""


class PathEnd(BaseException):
    """This path is infeasible / excluded by a precondition."""


STAMP = itertools.count(1)


def written(stamp):
    """An object which was created at ``stamp`` is changed in place"""
    c = CTX[0]
    if c is not None and c.barrier is not None and stamp < c.barrier:
        raise Unsupported('an element of a comprehension has side effects')


class Cut(PathEnd):
    """Values of a dimension beyond the stated bound are not explored"""


CONCRETE = 3            # dimensions which the code iterates over: 1..CONCRETE


class OtherWorker(PathEnd):
    """The path belongs to another process"""


class Tree(object):
    """Tree of decisions; branches are explored at random without repetition"""

    DEPTH = 6           # decisions which assign a path to a worker

    def __init__(self, seed, part=(0, 1)):
        self.rng = random.Random(seed)
        self.root = self._node()
        self.part = part

    def _mine(self):
        if self.part[1] == 1:
            return True
        key = ','.join(str(c) for _, c in self.path[:self.DEPTH])
        return zlib.crc32(key.encode()) // 7 % self.part[1] == self.part[0]

    def mine(self):
        """Whether this (finished) path belongs to this worker"""
        return len(self.path) >= self.DEPTH or self._mine()

    def _node(self):
        return dict(n=None, kids={}, done=set())

    def start(self):
        self.path = []
        self.cur = self.root

    def pick(self, n, label, kind):
        nd = self.cur
        if nd['n'] is None:
            nd['n'] = n
        elif nd['n'] != n:
            raise RuntimeError('decisions are not reproducible: ' + label)
        open_ = [i for i in range(n) if i not in nd['done']]
        if not open_:
            open_ = list(range(n))
        if kind == 'fork':
            c = open_[0]
        else:
            c = self.rng.choice(open_)
        self.path.append((nd, c))
        if c not in nd['kids']:
            nd['kids'][c] = self._node()
        self.cur = nd['kids'][c]
        if len(self.path) == self.DEPTH and not self._mine():
            raise OtherWorker()
        return c

    def finish(self):
        """The current path is complete; returns True if everything is explored"""
        done = True
        for nd, c in reversed(self.path):
            if not done:
                break
            nd['done'].add(c)
            nd['kids'][c] = None
            nd['kids'].pop(c)
            done = len(nd['done']) == nd['n']
        return done


class SharedTree(object):
    """Every path is explored exactly once by some worker: queue of open branches (prefixes of decisions)"""

    def __init__(self, queue, open_, deadline):
        self.queue, self.open, self.deadline = queue, open_, deadline
        self.local = []

    def next(self):
        """Fetch the next open branch; False if there is none any more, None at the deadline"""
        import queue
        while True:
            if self.local:
                self.prefix = self.local.pop()
                return True
            try:
                self.prefix = self.queue.get(timeout=.01)
                return True
            except queue.Empty:
                if self.open.value == 0:
                    return False
                if time.time() > self.deadline:
                    return None

    def start(self):
        self.path = []

    def pick(self, n, label, kind):
        i = len(self.path)
        if i < len(self.prefix):
            m, c = self.prefix[i]
            if m != n:
                raise RuntimeError('decisions are not reproducible: ' + label)
        else:
            c = 0
        self.path.append((n, c))
        return c

    def mine(self):
        return True

    def finish(self):
        new = [self.path[:i] + [(self.path[i][0], c)]
               for i in range(len(self.prefix), len(self.path)) for c in range(1, self.path[i][0])]
        with self.open.get_lock():
            self.open.value += len(new) - 1
        if new:
            self.local.append(new.pop())        # the deepest branch stays here
        for p in new:
            self.queue.put(p)
        return False


class Ctx(object):
    """One execution path."""

    def __init__(self, tree=None, deadline=None, stats=None):
        self.tree = tree or Tree(0)
        self.tree.start()
        self.trace = []             # (chosen, number of options, label, kind)
        self.uncertain = False      # a branch was kept although the solver did not decide it
        self.bounded = False        # a dimension was restricted to small values
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.zvars = {}
        self.fresh = 0
        self.cons = []              # readable path condition
        self.conspoly = []          # (op, poly)
        self.equal1 = {}            # var -> Poly it is equal to (solved equalities)
        self.cache = {}
        self.mod = None             # model of the path condition: z3 model, values, known variables
        self.deadline = deadline
        self.stats = stats if stats is not None else dict(z3=0, z3_s=0.)
        self.trusted = set()        # assumed contracts used on this path
        self.seq = None             # environment of chains of symbolic length (vf.sym.unb)
        self.barrier = None         # stamp: older objects must not be changed
        self.forced = 0             # stamp of the latest comprehension with symbolic length

    # -- decisions ----------------------------------------------------------
    def choice(self, n, label, kind='fork'):
        """Pick one of n branches; the tree of explored branches picks the next open one"""
        if n == 1:
            return 0
        c = self.tree.pick(n, label, kind)
        self.trace.append((c, n, label, kind))
        return c

    def new(self, name):
        self.fresh += 1
        return '%s#%d' % (name, self.fresh)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError()

    # -- integers --------------------------------------------------------------
    def zvar(self, v):
        if v not in self.zvars:
            x = ZVARS.get(v)
            if x is None:
                x = ZVARS[v] = z3.Int(str(v))
            self.zvars[v] = x
            # dimensions and counts are positive, indices (named ('idx', ..)) unconstrained
            lo = lower(v)
            if lo is not None:
                self.solver.add(zcmp('>=', Poly.var(v) - Poly.of(lo)))
        return self.zvars[v]

    def zcmp(self, op, p):
        """p op 0 as an expression of the solver"""
        for mon, _ in p.terms:
            for v, _ in mon:
                if v not in self.zvars:
                    self.zvar(v)
        return zcmp(op, p)

    # -- a model of the path condition -------------------------------------------
    def holds(self, op, p):
        """Truth value in the present model of the path condition (None if there is no model)"""
        m = self.mod
        if m is None:
            return None
        r = 0
        for mon, c in p.terms:
            for v, n in mon:
                x = m[1].get(v)
                if x is None:
                    if v in m[2]:
                        x = m[0].eval(self.zvars[v], model_completion=True).as_long()
                    else:               # introduced later, only the lower bound is known
                        x = lower(v) or 0
                    m[1][v] = x
                c = c * x ** n
            r += c
        return COMPARE[op](r)

    def new_model(self):
        self.mod = self.solver.model(), {}, set(self.zvars)

    def assume(self, op, p, text=None):
        """p (Poly) op 0"""
        self.solver.add(self.zcmp(op, p))
        if not self.holds(op, p):
            self.mod = None
        self.cons.append('%s %s 0' % (p, op))
        self.conspoly.append((op, p))
        self.cache.clear()
        if op == '==':
            self.solve(p)
        elif op in ('<=', '<', '>=', '>'):
            # monomial <= 1 (e.g. not d > 1) and antisymmetric pairs give equalities
            q = p if op in ('<=', '<') else -p
            if op in ('<', '>'):
                q = q + Poly.of(1)
            q = self.norm(q)
            d = dict(q.terms)
            c1 = d.pop((), 0)
            if len(d) == 1:
                (mon, c2), = d.items()
                if c2 > 0 and c1 == -c2 and all(lower(v) == 1 for v, _ in mon):
                    self.solve(Poly({mon: 1, (): -1}))
                    return
            if len(q.terms) == 2 and not self.holds('!=', q) and self.check(self.zcmp('!=', q)) == z3.unsat:
                self.solve(q)

    def solve(self, p):
        """Use an equality as substitution where it is linear in a variable with coefficient +-1"""
        p = self.norm(p)
        # product of variables >= 1 equal to one: every variable is one
        if len(p.terms) == 2:
            d = dict(p.terms)
            c1 = d.pop((), None)
            if c1 is not None:
                (mon, c2), = d.items()
                if c1 + c2 == 0 and c1 in (1, -1) and all(lower(v) == 1 for v, _ in mon):
                    for v, _ in mon:
                        self.equal1[v] = Poly.of(1)
                    for w in list(self.equal1):
                        self.equal1[w] = self.norm(self.equal1[w])
                    return
        for mon, c in p.terms:
            if len(mon) == 1 and mon[0][1] == 1 and c in (1, -1):
                v = mon[0][0]
                rest = p - Poly({mon: c})
                if v in rest.vars() or any(deep(v, w) for w in rest.vars()):
                    continue
                if not substitutable(v):
                    continue
                self.equal1[v] = rest * (-c)
                for w in list(self.equal1):
                    self.equal1[w] = self.norm(self.equal1[w])
                return

    def norm(self, p):
        if not self.equal1:
            return p
        for _ in range(20):
            hit = [v for v in p.vars() if v in self.equal1]
            if not hit:
                return p
            p = p.subst(self.equal1)
        return p

    def check(self, *es):
        t0 = time.time()
        self.stats['z3'] += 1
        r = self.solver.check(*es)
        self.stats['z3_s'] += time.time() - t0
        return r

    def decide(self, op, p):
        """Truth value of ``p op 0``; forks if both are possible"""
        p = self.norm(p)
        if p.is_const():
            c = p.const()
            return {'==': c == 0, '!=': c != 0, '<=': c <= 0, '<': c < 0, '>=': c >= 0,
                    '>': c > 0}[op]
        key = (op, p)
        if key in self.cache:
            return self.cache[key]
        if op == '==' and allpos(p) or op == '!=' and allpos(p):
            return op == '!='
        neg = NEGATED[op]
        known = self.holds(op, p)
        mod = self.mod
        rt = z3.sat if known else self.check(self.zcmp(op, p))
        if rt == z3.sat and not known:
            self.new_model()
            mod = self.mod if known is None else mod
        mt = self.mod if rt == z3.sat else None
        if rt == z3.unsat:
            rf = z3.sat             # the path condition is satisfiable (or the path is vacuous)
            mf = mod
        elif known is False:
            rf, mf = z3.sat, mod
        else:
            rf = self.check(self.zcmp(neg, p))
            mf = None
            if rf == z3.sat:
                self.new_model()
                mf = self.mod
        can_t, can_f = rt != z3.unsat, rf != z3.unsat
        self.mod = mt if can_t and not can_f else mf if can_f and not can_t else None
        if can_t and not can_f:
            r = True
            if op == '==':
                self.assume(op, p)
        elif can_f and not can_t:
            r = False
            if op == '!=':
                self.assume('==', p)
        elif not can_t and not can_f:
            raise PathEnd('infeasible')
        else:
            first = op in ('!=', '<=', '<', '>=', '>')
            c = self.choice(2, '%s %s 0' % (p, op))
            r = first if c == 0 else not first
            if (rt if r else rf) == z3.unknown:
                self.uncertain = True
            self.mod = mt if r else mf
            self.assume(op if r else neg, p)
        self.cache[key] = r
        return r

    def entails(self, op, p):
        """Whether p op 0 holds on this path (no fork)"""
        p = self.norm(p)
        if p.is_const():
            return self.decide(op, p)
        if self.holds(op, p) is False:
            return False
        r = self.check(self.zcmp(NEGATED[op], p))
        if r == z3.sat:
            self.new_model()
            # the model is one of the path condition, too
        return r == z3.unsat

    def model(self, tries=4, seed=0):
        """Concrete values of all variables which satisfy the path condition (or None)"""
        rnd = random.Random(seed)
        vs = list(self.zvars)
        for t in range(tries):
            self.solver.push()
            try:
                for v in vs:
                    if lower(v) == 1 and rnd.random() < .9:
                        self.solver.push()
                        self.solver.add(self.zvars[v] == rnd.choice([1, 2, 2, 3]))
                        if self.check() != z3.sat:
                            self.solver.pop()
                if self.check() == z3.sat:
                    m = self.solver.model()
                    out = {}
                    for v in vs:
                        x = m.eval(self.zvars[v], model_completion=True)
                        out[v] = x.as_long()
                    return out
            finally:
                # pop everything pushed in this round
                while self.solver.num_scopes() > 0:
                    self.solver.pop()
        return None


def lower(v):
    """Lower bound of a variable from its kind"""
    if isinstance(v, tuple):
        if v[0] == 'idx':
            return None
        if v[0] == 'nat':
            return 0
    return 1


def substitutable(v):
    return True


def deep(v, w):
    return isinstance(w, tuple) and any(isinstance(x, Poly) and v in x.vars() for x in w)


NEGATED = {'==': '!=', '!=': '==', '<=': '>', '>': '<=', '<': '>=', '>=': '<'}
COMPARE = {'==': lambda r: r == 0, '!=': lambda r: r != 0, '<=': lambda r: r <= 0, '<': lambda r: r < 0,
           '>=': lambda r: r >= 0, '>': lambda r: r > 0}
ZVARS, ZCMP = {}, {}        # expressions of the solver (shared by all paths)


def zpoly(p):
    e = None
    for mon, c in p.terms:
        t = None
        for v, n in mon:
            x = ZVARS.get(v)
            if x is None:
                x = ZVARS[v] = z3.Int(str(v))
            for _ in range(n):
                t = x if t is None else t * x
        t = z3.IntVal(c) if t is None else t if c == 1 else t * c
        e = t if e is None else e + t
    return z3.IntVal(0) if e is None else e


def zcmp(op, p):
    k = op, p
    e = ZCMP.get(k)
    if e is None:
        z = zpoly(p)
        e = ZCMP[k] = (z == 0 if op == '==' else z != 0 if op == '!=' else z <= 0 if op == '<=' else
                       z < 0 if op == '<' else z >= 0 if op == '>=' else z > 0)
        if len(ZCMP) > 200000:
            ZCMP.clear()
    return e


CTX = [None]


def ctx():
    return CTX[0]


def allpos(p):
    """All coefficients positive and only variables >= 1 (or >= 0 with constant): never zero"""
    if not p.terms:
        return False
    if any(c <= 0 for _, c in p.terms) and any(c >= 0 for _, c in p.terms):
        return False
    return all(lower(v) == 1 for mon, _ in p.terms for v, _ in mon)


REP = {}


def _rep(x):
    r = REP.get(x)
    if r is None:
        r = REP[x] = repr(x)
        if len(REP) > 200000:
            REP.clear()
    return r


def _rep0(t):
    return _rep(t[0])


class Poly(object):
    """Integer polynomial over named variables (immutable)"""
    __slots__ = ('terms', '_h')

    def __init__(self, d):
        if isinstance(d, dict):
            items = [(m, c) for m, c in d.items() if c != 0]
            if len(items) > 1:
                items.sort(key=_rep)
            self.terms = tuple(items)
        else:
            self.terms = d
        self._h = hash(self.terms)

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, SInt):
            return x.p
        x = int(x)
        return Poly({(): x} if x else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        d = dict(self.terms)
        for m, c in Poly.of(o).terms:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __mul__(self, o):
        o = Poly.of(o)
        d = {}
        for m, c in self.terms:
            for n, e in o.terms:
                k = mulmon(m, n)
                d[k] = d.get(k, 0) + c * e
        return Poly(d)

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and self.terms[0][0] == ())

    def const(self):
        return self.terms[0][1] if self.terms else 0

    def vars(self):
        return set(v for m, _ in self.terms for v, _ in m)

    def subst(self, s):
        r = Poly({})
        for m, c in self.terms:
            t = Poly.of(c)
            for v, n in m:
                x = s.get(v)
                if x is None:
                    x = Poly.var(v)
                for _ in range(n):
                    t = t * x
            r = r + t
        return r

    def divide(self, o):
        """Exact quotient or None"""
        o = Poly.of(o)
        if not o.terms:
            return None
        q, r = Poly({}), self
        lead = max(o.terms, key=lambda t: monkey(t[0]))
        for _ in range(50):
            if not r.terms:
                return q
            t = max(r.terms, key=lambda t: monkey(t[0]))
            m = divmon(t[0], lead[0])
            if m is None or t[1] % lead[1]:
                return None
            x = Poly({m: t[1] // lead[1]})
            q = q + x
            r = r - x * o
        return None

    def evaluate(self, val):
        r = 0
        for m, c in self.terms:
            for v, n in m:
                c = c * val[v] ** n
            r += c
        return r

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for m, c in self.terms:
            s = '*'.join((vname(v) if n == 1 else '%s^%d' % (vname(v), n)) for v, n in m)
            out.append(s if c == 1 and s else ('%d' % c + ('*' + s if s else '')))
        return '+'.join(out).replace('+-', '-')


def vname(v):
    if isinstance(v, tuple):
        return v[1] + ''.join('[%s]' % (x,) for x in v[2:]) if v[0] in ('idx', 'nat') \
            else v[0] + ''.join('[%s]' % (x,) for x in v[1:])
    return str(v)


def monkey(m):
    return (sum(n for _, n in m), tuple(repr(v) for v, n in m for _ in range(n)))


def mulmon(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items(), key=_rep0))


def divmon(m, n):
    d = dict(m)
    for v, e in n:
        if d.get(v, 0) < e:
            return None
        d[v] -= e
        if d[v] == 0:
            del d[v]
    return tuple(sorted(d.items(), key=_rep0))


def mk(p):
    """Poly -> int if constant on this path, else SInt"""
    c = ctx()
    if c is not None:
        p = c.norm(p)
    return p.const() if p.is_const() else SInt(p)


class SInt(object):
    """Symbolic integer as seen by the executed code"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __hash__(self):
        return hash(ctx().norm(self.p))

    def __add__(self, o):
        if not isint(o):
            return NotImplemented
        return mk(self.p + Poly.of(o))
    __radd__ = __add__

    def __sub__(self, o):
        if not isint(o):
            return NotImplemented
        return mk(self.p - Poly.of(o))

    def __rsub__(self, o):
        if not isint(o):
            return NotImplemented
        return mk(Poly.of(o) - self.p)

    def __mul__(self, o):
        if not isint(o):
            c = ctx()
            if c is not None and c.seq is not None and isinstance(o, (list, tuple)):
                return c.seq.repeat(o, self)
            return NotImplemented
        return mk(self.p * Poly.of(o))
    __rmul__ = __mul__

    def __neg__(self):
        return mk(-self.p)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = Poly.of(1)
            for _ in range(n):
                r = r * self.p
            return mk(r)
        raise Unsupported('symbolic power')

    def __floordiv__(self, o):
        if hasattr(o, 'dtype') and getattr(o, 'ndim', 0):
            return NotImplemented
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __rfloordiv__(self, o):
        return divmod(SInt(Poly.of(o)), self)[0]

    def __rmod__(self, o):
        return divmod(SInt(Poly.of(o)), self)[1]

    def __divmod__(self, o):
        c = ctx()
        a, b = c.norm(self.p), c.norm(Poly.of(o))
        q = a.divide(b)
        if q is not None:
            return mk(q), 0
        if b.is_const() and b.const() == 1:
            return mk(a), 0
        # split off the part which is divisible
        qv, rv = ('idx', c.new('quo')), ('idx', c.new('rem'))
        Q, R = Poly.var(qv), Poly.var(rv)
        key = ('divmod', a, b)
        if key in c.cache:
            return c.cache[key]
        c.zvar(qv), c.zvar(rv)
        c.assume('==', a - b * Q - R)
        c.assume('>=', R)
        c.assume('<', R - b)
        r = (mk(Q), mk(R))
        c.cache[key] = r
        return r

    def __rdivmod__(self, o):
        return divmod(SInt(Poly.of(o)), self)

    def __truediv__(self, o):
        raise Unsupported('true division of symbolic integers')

    def _cmp(self, op, o):
        if not isint(o):
            if isinstance(o, float) and o == int(o):
                o = int(o)
            else:
                return NotImplemented
        return ctx().decide(op, self.p - Poly.of(o))

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        return self._cmp('!=', o)

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __bool__(self):
        return ctx().decide('!=', self.p)

    def __abs__(self):
        return self if self >= 0 else -self

    def __index__(self):
        p = ctx().norm(self.p)
        if p.is_const():
            return p.const()
        c = ctx()
        if c is None:
            raise Unsupported('symbolic integer %s used as a concrete index' % p)
        if c.seq is not None:
            # exhaustive if the value is bounded on this path
            if c.entails('>=', p) and c.entails('<=', p - Poly.of(4)):
                for n in range(4):
                    if c.decide('==', p - Poly.of(n)):
                        return n
                return 4
            raise Unsupported('concrete value of the integer %s' % p)
        c.bounded = True
        vs = sorted(p.vars(), key=str)
        if any(isinstance(v, tuple) and v[0] == 'idx' for v in vs):
            pass
        elif len(vs) > 1 or p != Poly.var(vs[0]):
            # concretize the variables one by one
            for v in vs:
                SInt(Poly.var(v)).__index__()
            p = c.norm(p)
            if p.is_const():
                return p.const()
        for n in range(1, CONCRETE + 1):
            if c.decide('==', p - Poly.of(n)):
                return n
        if c.decide('==', p):
            return 0
        raise Cut('dimension %s > %d' % (p, CONCRETE))

    __int__ = __index__

    def __repr__(self):
        return str(ctx().norm(self.p))

    def __round__(self):
        return self


def isint(x):
    import numpy as np
    return isinstance(x, (SInt, int, np.integer)) and not isinstance(x, bool) or isinstance(x, bool)


def P(x):
    """normalized Poly of an integer"""
    c = ctx()
    p = Poly.of(x)
    return c.norm(p) if c is not None else p


def peq(a, b):
    return P(a) == P(b)
