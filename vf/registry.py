"""Registry of contract clauses.

A clause is a function ``clause(env)`` which states one contract: it builds
arbitrary inputs that satisfy the precondition through ``env``, calls the real
code (``env.mp`` is the package under verification) and states the
postconditions with ``env.eq`` / ``env.check`` / ``env.raises``.

The same clause text is evaluated in two environments:

* ``sym``  (deductive): dimensions, ranks and all tensor entries are symbolic,
  postconditions become proof obligations, see :mod:`vf.sym`.
* ``real`` (run-time contract evaluation): concrete inputs, real numpy; used to
  replay/search counterexamples and as the labelled bounded stand-in.
"""
CLAUSES = {}
KNOWN = set()      # known findings met while evaluating clauses


class Clause(object):
    def __init__(self, pid, name, fn, funcs, sym, real, doc, weight, seq=None):
        self.pid, self.name, self.fn = pid, name, fn
        self.funcs, self.sym, self.real, self.doc = funcs, sym, real, doc
        self.weight = weight
        self.seq = seq      # chains of arbitrary length (deductive only): name of the clause to search failing inputs

    @property
    def key(self):
        return '{}/{}'.format(self.pid, self.name)


def clause(pid, funcs, sym=True, real=True, name=None, weight=1.0):
    def deco(fn):
        n = name or fn.__name__
        c = Clause(pid, n, fn, tuple(funcs), sym, real, (fn.__doc__ or '').strip(),
                   weight)
        assert c.key not in CLAUSES, c.key
        CLAUSES[c.key] = c
        return fn
    return deco


def unbounded(pid, funcs, search, name=None):
    """Contract for chains with an arbitrary number of sites; ``search``: clause for failing inputs"""
    def deco(fn):
        n = name or fn.__name__
        c = Clause(pid, n, fn, tuple(funcs), True, False, (fn.__doc__ or '').strip(), 1.0, search)
        assert c.key not in CLAUSES, c.key
        CLAUSES[c.key] = c
        return fn
    return deco


def for_property(pid):
    import importlib
    importlib.import_module('vf.clauses.' + pid.lower())
    importlib.import_module('vf.clauses.unb')
    importlib.import_module('vf.clauses.unb2')
    return [c for c in CLAUSES.values() if c.pid == pid]


class Reject(Exception):
    """The chosen inputs do not satisfy the precondition: skip the case."""


class ContractViolation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, '{}: {}'.format(label, detail))
        self.label, self.detail = label, detail
