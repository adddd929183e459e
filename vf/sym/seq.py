"""Sequences with a symbolic number of elements and the loop rule."""
import builtins
import itertools
import sys
import types

from .ctx import ctx, Poly, SInt, mk, P, Unsupported, PathEnd, isint, STAMP, written

_stamp = STAMP


class LoopDone(PathEnd):
    """An arbitrary iteration was executed and its obligations are recorded"""


def fresh_index(name, lo, hi):
    """An arbitrary integer with lo <= i < hi (the path ends if there is none)"""
    c = ctx()
    v = ('idx', c.new(name))
    c.zvar(v)
    p = Poly.var(v)
    c.assume('>=', p - P(lo))
    c.assume('<', p - P(hi))
    import z3
    if c.check() == z3.unsat:
        raise PathEnd('empty range')
    if P(hi) - P(lo) == Poly.of(1):
        c.assume('==', p - P(lo))
    return mk(p)


def issym(n):
    return isinstance(n, SInt)


def smin(ns):
    r = ns[0]
    for n in ns[1:]:
        if n < r:
            r = n
    return r


def freeze(f):
    """The function with the present values of its free variables"""
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = []
    for x in f.__closure__:
        try:
            cells.append(types.CellType(freeze(x.cell_contents) if isinstance(x.cell_contents, types.FunctionType)
                                        and x.cell_contents.__name__ == '<lambda>' else x.cell_contents))
        except ValueError:
            cells.append(x)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


class Seq(object):
    """Immutable sequence: length (int, symbolic, or None for infinite) and the element at each index"""

    def __init__(self, n, at=None):
        self.n = n
        self._at = at
        self.memo = {}
        self.safe = False           # evaluation of elements was checked

    def at(self, i):
        k = P(i)
        if k not in self.memo:
            self.memo[k] = self.get(mk(k))
        return self.memo[k]

    def get(self, i):
        return self._at(i)

    def __len__(self):
        if self.n is None:
            raise TypeError('object of type repeat has no len()')
        return self.n

    def __bool__(self):
        return bool(self.n != 0)

    def __iter__(self):
        return SIter(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, st = indices(i, self.n)
            return self.cut(lo, hi, st)
        if not isint(i):
            raise TypeError('list indices must be integers or slices')
        if i < 0:
            i = i + self.n
        if i < 0 or not i < self.n:
            raise IndexError('list index out of range')
        return self.at(i)

    def cut(self, lo, hi, st=1):
        if st == 1:
            return Cut(self, lo, hi - lo if hi > lo else 0, 1)
        if st == -1:
            return Cut(self, lo, lo - hi if lo > hi else 0, -1)
        raise Unsupported('slice with a step')

    def __add__(self, o):
        return SList(Cat(self, as_seq(o)))

    def __radd__(self, o):
        return SList(Cat(as_seq(o), self))

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of sequences')

    def __hash__(self):
        return id(self)


class Map(Seq):
    """Elements f(src[i]), evaluated when they are needed in the state at the time of the comprehension

    Iterators of the surrounding code which f advances have to be advanced once per element.
    """

    def __init__(self, f, src):
        Seq.__init__(self, src.n)
        self.f, self.src = f, src
        self.born = next(_stamp)
        self.iters = {}             # id -> (iterator, position at the beginning)

    def get(self, i):
        c = ctx()
        old = c.__dict__.get('element')
        c.element = self, i, {}
        bar = c.barrier
        c.barrier = next(_stamp) if bar is None else bar
        try:
            r = self.f(self.src.at(i))
            for it, n in c.element[2].values():
                if n != 1:
                    raise Unsupported('iterator is advanced more than once per element')
            if c.element[2] or self.iters:
                if set(self.iters) != set(c.element[2]):
                    raise Unsupported('iterator is not advanced for every element')
            return r
        finally:
            c.element = old
            c.barrier = bar


class Cut(Seq):
    def __init__(self, src, lo, n, st):
        Seq.__init__(self, n)
        self.src, self.lo, self.st = src, lo, st
        self.safe = src.safe

    def get(self, i):
        return self.src.at(self.lo + i if self.st == 1 else self.lo - i)


class Cat(Seq):
    def __init__(self, a, b):
        Seq.__init__(self, a.n + b.n)
        self.a, self.b = a, b
        self.safe = a.safe and b.safe

    def get(self, i):
        if i < self.a.n:
            return self.a.at(i)
        return self.b.at(i - self.a.n)


class Patched(Seq):
    def __init__(self, old, idx, val):
        Seq.__init__(self, old.n)
        self.old, self.idx, self.val = old, idx, val
        self.safe = old.safe

    def get(self, i):
        if i == self.idx:
            return self.val
        return self.old.at(i)


class SRange(Seq):
    def __init__(self, lo, hi, st):
        if st == 1:
            n = hi - lo if hi > lo else 0
        elif st == -1:
            n = lo - hi if lo > hi else 0
        else:
            raise Unsupported('range with a step')
        Seq.__init__(self, n)
        self.start, self.stop, self.step = lo, hi, st
        self.safe = True

    def get(self, i):
        return self.start + i if self.step == 1 else self.start - i


class SList(object):
    """Mutable list of symbolic length"""

    def __init__(self, seq):
        self._cur = seq
        self.stamp = self.last = next(_stamp)

    @property
    def cur(self):
        e = ctx().__dict__.get('element')
        if e is not None and e[0].safe and self.stamp < e[0].born < self.last:
            raise Unsupported('list was changed after a comprehension that uses it')
        return self._cur

    @cur.setter
    def cur(self, seq):
        self._cur = seq
        self.last = next(_stamp)

    def __len__(self):
        return self.cur.n

    def __iter__(self):
        return SIter(self.cur)

    def __getitem__(self, i):
        r = self.cur[i]
        return SList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('assignment to a slice')
        if i < 0:
            i = i + self.cur.n
        if i < 0 or not i < self.cur.n:
            raise IndexError('list assignment index out of range')
        written(self.stamp)
        self.cur = Patched(self.cur, i, v)

    def append(self, x):
        written(self.stamp)
        self.cur = Cat(self.cur, as_seq([x]))

    def extend(self, x):
        written(self.stamp)
        self.cur = Cat(self.cur, as_seq(x))

    def __add__(self, o):
        return SList(Cat(self.cur, as_seq(o)))

    def __radd__(self, o):
        return SList(Cat(as_seq(o), self.cur))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __bool__(self):
        return bool(self.cur.n != 0)


class STuple(Seq):
    def __init__(self, src):
        Seq.__init__(self, src.n)
        self.src = src
        self.safe = src.safe

    def get(self, i):
        return self.src.at(i)


class SIter(object):
    """Iterator over a sequence"""
    LIMIT = 3

    def __init__(self, seq, pos=0):
        self.seq, self.pos, self.taken = seq, pos, 0
        self.stamp = next(_stamp)

    def __iter__(self):
        return self

    def __next__(self):
        c = ctx()
        e = c.__dict__.get('element')
        if e is not None and self.stamp < e[0].born:
            m, i, log = e
            k = id(self)
            if k not in m.iters:
                if m.safe:
                    raise Unsupported('iterator is not advanced for every element')
                m.iters[k] = (self, self.pos)
            log[k] = (self, log.get(k, (None, 0))[1] + 1)
            pos = m.iters[k][1] + i
            if self.seq.n is None or pos < self.seq.n:
                return self.seq.at(pos)
            raise StopIteration
        written(self.stamp)
        if self.taken >= self.LIMIT and self.seq.n is not None and issym(self.seq.n):
            raise Unsupported('loop over a sequence of symbolic length')
        self.taken += 1
        if self.seq.n is None or self.pos < self.seq.n:
            x = self.seq.at(self.pos)
            self.pos = self.pos + 1
            return x
        raise StopIteration

    def rest(self):
        """All remaining elements (consumes the iterator)"""
        written(self.stamp)
        r = self.seq if isinstance(self.pos, int) and self.pos == 0 else \
            (Seq(None, self.seq.at) if self.seq.n is None else self.seq.cut(self.pos, self.seq.n))
        if self.seq.n is not None:
            self.pos = self.seq.n
        return r


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, SList):
        return x.cur
    if isinstance(x, SIter):
        return x.rest()
    if isinstance(x, (list, tuple, range)):
        x = list(x)

        def at(i, x=x):
            for k, v in enumerate(x):
                if i == k:
                    return v
            raise IndexError(i)
        s = Seq(len(x), at)
        s.safe = True
        return s
    if isinstance(x, itertools.repeat):
        raise Unsupported('repeat')
    f = getattr(type(x), '__iter__', None)
    if f is not None:
        y = f(x)
        if isinstance(y, SIter):
            return y.rest()
    raise Unsupported('sequence of ' + type(x).__name__)


def symseq(x):
    """The sequence if x iterates over one of this module, else None"""
    if isinstance(x, (Seq, SList, SIter)):
        return x
    f = getattr(type(x), '__iter__', None)
    if isinstance(f, types.FunctionType):
        y = f(x)
        return y if isinstance(y, SIter) else None
    return None


def seqlen(x):
    s = x.seq if isinstance(x, SIter) else x.cur if isinstance(x, SList) else x
    return s.n


def symbolic(x):
    s = symseq(x)
    if s is None:
        return None
    n = seqlen(s)
    if n is None or issym(n):
        return s
    return None


def native(x):
    """Python sequence or iterator of the elements if the length is concrete"""
    s = symseq(x)
    if s is None:
        return x
    if isinstance(s, SIter):
        if s.seq.n is None:
            return s
        return iter([s.seq.at(i) for i in range(s.pos, s.seq.n)])
    s = as_seq(s)
    return s if s.n is None else [s.at(i) for i in range(s.n)]


def probe(seq):
    """The evaluation of an arbitrary element raises no exception and has no side effects"""
    if seq.safe:
        return seq
    c = ctx()
    c.forced = next(_stamp)
    ms = []
    x = seq
    while isinstance(x, Map):
        ms.append(x)
        x = x.src
    first = c.choice(2, 'element') == 0
    if first or any(calls_next(m) for m in ms):
        old = c.barrier
        c.barrier = next(_stamp)
        k = fresh_index('k', 0, seq.n)
        seq.at(k)
        c.barrier = old
        if first:
            raise LoopDone()
    seq.safe = True
    for m in ms:
        m.safe = True
        for it, pos in m.iters.values():
            it.pos = pos + seq.n
    return seq


def calls_next(m):
    """Whether the element function may advance an iterator"""
    f = getattr(m, 'orig', None)

    def names(code):
        yield from code.co_names
        for x in code.co_consts:
            if isinstance(x, types.CodeType):
                yield from names(x)
    return f is not None and isinstance(f, types.FunctionType) and 'next' in set(names(f.__code__))


# -- builtins as seen by the code -------------------------------------------------

def v_comp(kind, f, it, cond=None):
    s = symbolic(it)
    if s is None:
        it = native(it)
        if cond is None:
            g = (f(e)[0] for e in it)
        else:
            g = (f(e)[0] for e in it if cond(e))
        return list(g) if kind == 'list' else g
    if cond is not None:
        raise Unsupported('condition in a comprehension over a symbolic sequence')
    src = as_seq(s)
    m = Map(lambda e: f(e)[0], src)
    m.fun = m.orig = f
    if kind == 'list':
        return v_list(m)
    return SIter(m)


def v_flat(kind, outer):
    """Concatenation of sequences"""
    if symbolic(outer) is not None:
        raise Unsupported('concatenation of a symbolic number of sequences')
    if kind == 'list':
        parts = list(outer)
        if all(symbolic(x) is None for x in parts):
            return [y for x in parts for y in native(x)]
        return v_list(Iter.chain(*parts))
    outer = iter(outer)
    return Flat(outer)


class Flat(object):
    """Lazy concatenation"""

    def __init__(self, outer):
        self.outer, self.it = outer, None

    def __iter__(self):
        if self.it is None:
            parts = list(self.outer)
            self.it = Iter.chain(*parts) if any(symbolic(x) is not None for x in parts) else \
                iter([y for x in parts for y in native(x)])
        return self.it

    def __next__(self):
        return next(iter(self))


def force(s):
    """Fix the values of the free variables, check the evaluation"""
    x = s
    while isinstance(x, Map):
        g = getattr(x, 'fun', None)
        if g is not None:
            h = freeze(g)
            x.f = lambda e, h=h: h(e)[0]
            x.fun = None
        x = x.src
    return probe(s)


def v_list(x=()):
    s = symbolic(x)
    if s is None:
        return list(native(x))
    return SList(force(as_seq(s)))


def v_tuple(x=()):
    s = symbolic(x)
    if s is None:
        return tuple(native(x))
    return STuple(force(as_seq(s)))


def v_zip(*xs):
    ss = [symbolic(x) for x in xs]
    if all(s is None or seqlen(s) is None for s in ss):
        return zip(*[native(x) for x in xs])
    seqs = [as_seq(x) for x in xs]
    n = smin([s.n for s in seqs if s.n is not None])
    z = Seq(n, lambda i: tuple(s.at(i) for s in seqs))
    z.safe = all(s.safe for s in seqs)
    z.parts = seqs
    if not issym(n):
        return iter([z.at(i) for i in range(n)])
    return SIter(z)


def v_enumerate(x, start=0):
    s = symbolic(x)
    if s is None:
        return enumerate(native(x), start)
    s = as_seq(s)
    return SIter(Seq(s.n, lambda i: (i + start, s.at(i))))


def v_reversed(x):
    s = symbolic(x)
    if s is None:
        return reversed(native(x))
    s = as_seq(s)
    return SIter(Cut(s, s.n - 1, s.n, -1))


def v_range(*a):
    if not any(issym(x) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else a if len(a) == 3 else (a[0], a[1], 1)
    r = SRange(lo, hi, st)
    if not issym(r.n):
        return [r.at(i) for i in range(r.n)]
    return r


def v_iter(x, *a):
    s = symseq(x)
    if s is None:
        return iter(x, *a)
    return s if isinstance(s, SIter) else SIter(as_seq(s))


def v_map(f, *xs):
    if all(symbolic(x) is None for x in xs):
        return map(f, *[native(x) for x in xs])
    z = v_zip(*xs)
    return SIter(Map(lambda e: f(*e), as_seq(z)))


def v_all(x):
    s = symbolic(x)
    if s is None:
        return all(native(x))
    s = as_seq(s)
    c = ctx()
    if c.choice(2, 'all'):
        return True
    if not s.at(fresh_index('k', 0, s.n)):
        return False
    raise LoopDone()


def v_any(x):
    s = symbolic(x)
    if s is None:
        return any(native(x))
    s = as_seq(s)
    c = ctx()
    if c.choice(2, 'any'):
        return False
    if s.at(fresh_index('k', 0, s.n)):
        return True
    raise LoopDone()


def v_sum(x, *a):
    s = symbolic(x)
    if s is None:
        return sum(native(x), *a)
    s = as_seq(s)
    if a or not s.n > 0:
        raise Unsupported('sum over a symbolic sequence')
    v = s.at(0)
    if not isint(v):
        raise Unsupported('sum over a symbolic sequence')
    c = ctx()
    if c.choice(2, 'sum'):
        return v * s.n
    if s.at(fresh_index('k', 0, s.n)) != v:
        raise Unsupported('sum over a symbolic sequence')
    raise LoopDone()


def v_minmax(f):
    def g(*xs, **k):
        if len(xs) == 1 and symbolic(xs[0]) is not None:
            raise Unsupported('minimum/maximum of a symbolic sequence')
        if len(xs) == 1:
            return f(native(xs[0]), **k)
        return f(*xs, **k)
    return g


def v_iadd(a, b):
    if symbolic(b) is not None and isinstance(a, list):
        return SList(Cat(as_seq(a), force(as_seq(b))))
    a += native(b) if isinstance(a, list) else b
    return a


def indices(s, n):
    if isinstance(n, int) and not any(issym(x) for x in (s.start, s.stop, s.step)):
        return s.indices(n)
    st = 1 if s.step is None else s.step
    if st not in (1, -1):
        raise Unsupported('slice with a step')

    def fix(x, default, lo, hi):
        if x is None:
            return default
        if x < 0:
            x = x + n
        return lo if x < lo else hi if x > hi else x
    if st == 1:
        return fix(s.start, 0, 0, n), fix(s.stop, n, 0, n), 1
    return fix(s.start, n - 1, -1, n - 1), fix(s.stop, -1, -1, n - 1), -1


def v_indices(s, n):
    return indices(s, n) if isinstance(s, slice) else s.indices(n)


class Iter(object):
    """itertools as seen by the code"""

    def __getattr__(self, name):
        return getattr(itertools, name)

    @staticmethod
    def repeat(x, *a, **k):
        n = a[0] if a else k.get('times')
        if n is None:
            s = Seq(None, lambda i: x)
        elif issym(n):
            if n < 0:
                n = 0
            s = Seq(n, lambda i: x)
        else:
            return itertools.repeat(x, n)
        s.safe = True
        return SIter(s)

    @staticmethod
    def chain(*xs):
        if all(symbolic(x) is None for x in xs):
            return itertools.chain(*[native(x) for x in xs])
        r = None
        for x in xs:
            s = as_seq(x) if symseq(x) is not None or isinstance(x, (list, tuple)) else as_seq(list(x))
            r = s if r is None else Cat(r, s)
        return SIter(r)

    @staticmethod
    def islice(x, *a):
        if symbolic(x) is None and not any(issym(y) for y in a):
            return itertools.islice(native(x), *a)
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2 and a[2] not in (None, 1):
            raise Unsupported('islice with a step')
        s = as_seq(x)
        lo = 0 if lo is None else lo
        hi = s.n if hi is None or hi > s.n else hi
        if lo > hi:
            lo = hi
        return SIter(s.cut(lo, hi))


# -- loops -------------------------------------------------------------------

class Poison(object):
    """Local variable whose value is not known after a loop"""

    def _no(self, *a, **k):
        raise Unsupported('a variable of a loop is used without being part of its invariant')
    __getattr__ = __call__ = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __mul__ = __rmul__ = _no
    __sub__ = __rsub__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __neg__ = __index__ = _no
    __hash__ = None


POISON = Poison()


class Native(object):
    sym = False

    def __init__(self, x):
        self.x = x

    def __iter__(self):
        return iter(self.x)


class Loop(object):
    """Loop over a sequence of symbolic length: invariant at entry, one arbitrary iteration or exit"""
    sym = True

    def __init__(self, name, seq, simple, names):
        self.name, self.seq, self.simple, self.names = name, seq, simple, names
        self.state = 'entry'
        self.values = {}
        self.rule = None

    def __iter__(self):
        return self

    def local(self, x):
        return self.values.get(x, POISON)

    def __next__(self):
        c = ctx()
        loc = sys._getframe(1).f_locals
        n = self.seq.n
        if self.state == 'entry':
            if not n > 0:
                self.state = 'done'
                self.values = dict((x, loc[x]) for x in self.names if x in loc)
                raise StopIteration
            for r in c.__dict__.get('rules', ()):
                if r.applies(self, loc):
                    self.rule = r
                    break
            if self.rule is None and not self.simple:
                raise Unsupported('loop without an invariant: ' + self.name)
            if self.rule is None and c.__dict__.get('skip'):
                self.state = 'done'
                raise StopIteration
            if self.rule is None and c.__dict__.get('witness') is not None:
                # a loop which only checks something: execute one given iteration, too
                w, c.witness = c.witness, None
                if w >= 0 and w < n:
                    return self.seq.at(w)
            if self.rule is not None:
                self.rule.enter(self, loc)
                self.rule.check(self, loc, 0)
            if c.choice(2, 'loop ' + self.name) == 0:
                k = fresh_index('i', 0, n)
                self.k = k
                self.state = 'body'
                if self.rule is not None:
                    self.values = self.rule.havoc(self, loc, k) or {}
                else:
                    self.old = c.__dict__.get('barrier')
                    c.barrier = next(_stamp)
                return self.seq.at(k)
            self.state = 'done'
            if self.rule is not None:
                self.values = self.rule.havoc(self, loc, n) or {}
            raise StopIteration
        if self.state == 'body':
            if self.rule is not None:
                self.rule.check(self, loc, self.k + 1)
            raise LoopDone()
        raise StopIteration


def v_loop(name, x, simple, names):
    s = symbolic(x)
    if s is None:
        return Native(native(x))
    return Loop(name, as_seq(s), simple, names)


class Rule(object):
    """Contract of a loop"""

    def applies(self, loop, loc):
        return False

    def enter(self, loop, loc):
        pass

    def check(self, loop, loc, k):
        """The invariant after k iterations, as obligations"""

    def havoc(self, loop, loc, k):
        """Values of the assigned local variables in an arbitrary state which satisfies the invariant"""
        return {}


RUNTIME = dict(vf__flat=v_flat, vf__comp=v_comp, vf__loop=v_loop, vf__iadd=v_iadd, vf__indices=v_indices)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.kinds)

    def __call__(cls, *a):
        return cls.make(*a)


class VList(metaclass=_Meta):
    kinds, make = (list, SList), staticmethod(v_list)


class VTuple(metaclass=_Meta):
    kinds, make = (tuple, STuple), staticmethod(v_tuple)


import collections.abc      # noqa: E402
collections.abc.Sequence.register(STuple)
collections.abc.Sequence.register(SList)


def repeat(x, n):
    """Python list or tuple times a symbolic integer"""
    if len(x) != 1:
        raise Unsupported('repeated sequence')
    if n < 0:
        n = 0
    s = Seq(n, lambda i: x[0])
    s.safe = True
    return SList(s) if isinstance(x, list) else STuple(s)


BUILTINS = dict(list=VList, tuple=VTuple, zip=v_zip, enumerate=v_enumerate, reversed=v_reversed, range=v_range,
                iter=v_iter, map=v_map, all=v_all, any=v_any, sum=v_sum, min=v_minmax(min), max=v_minmax(max))
