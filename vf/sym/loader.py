"""Executes the sources of /repo/mpnum with numpy replaced by symbolic rules.

The text which is executed is the text of the files (no transformation): the
package is imported by Python's own import system from the given directory
while the names ``numpy``, ``scipy``, ``six`` and ``collections`` refer to the
stand-ins below.
"""
import collections
import collections.abc
import itertools
import sys
import types
import warnings

import numpy
import numpy.testing
import scipy
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg

from . import nplib
from .ctx import SInt

_loaded = {}


def _six():
    six = types.ModuleType('six')
    moves = types.ModuleType('six.moves')
    from itertools import zip_longest
    moves.range, moves.zip, moves.zip_longest = range, zip, zip_longest
    moves.map, moves.filter = map, filter
    moves.reduce = __import__('functools').reduce
    moves.input = input
    six.moves = moves
    six.string_types = (str,)
    six.iteritems = lambda d: iter(d.items())
    six.itervalues = lambda d: iter(d.values())
    six.PY2, six.PY3 = False, True
    return six, moves


def _collections():
    m = types.ModuleType('collections')
    m.__dict__.update({k: v for k, v in collections.__dict__.items() if not k.startswith('__')})
    for n in collections.abc.__all__:
        setattr(m, n, getattr(collections.abc, n))
    m.__path__ = []
    return m


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        return int(x, *a)


class SymIntType(metaclass=_IntMeta):
    """The builtin ``int`` as seen by the code: keeps symbolic integers"""


def sym_len(x):
    """The builtin ``len`` as seen by the code: may be symbolic"""
    if hasattr(type(x), '__len__'):
        return type(x).__len__(x)
    return len(x)


def _late_imports(mods, fake):
    """Import statements executed inside functions of the package find the same modules"""
    import builtins
    orig = builtins.__import__
    ids = {id(m.__dict__) for m in mods.values()}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if globals is None or id(globals) not in ids:
            return orig(name, globals, locals, fromlist, level)
        new = dict(fake)
        new.update(mods)
        saved = {k: sys.modules.get(k) for k in new}
        sys.modules.update(new)
        try:
            return orig(name, globals, locals, fromlist, level)
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
    builtins.__import__ = imp


def load(path, seq=False):
    """The package mpnum from directory ``path`` (symbolic version)

    ``seq``: for chains of symbolic length; loops are made explicit, see :mod:`vf.sym.desugar`
    """
    if (path, seq) in _loaded:
        return _loaded[path, seq]
    np_ = nplib.make()
    six, moves = _six()
    fake = {
        'numpy': np_, 'numpy.linalg': np_.linalg, 'numpy.testing': np_.testing, 'numpy.random': np_.random,
        'six': six, 'six.moves': moves, 'collections': _collections(), 'collections.abc': collections.abc,
    }
    sc = nplib.Module('scipy', scipy, 'scipy.')
    for n, mod in (('linalg', scipy.linalg), ('sparse', scipy.sparse)):
        sub = nplib.Module('scipy.' + n, mod, 'scipy.%s.' % n)
        sc.__dict__[n] = sub
        fake['scipy.' + n] = sub
    sub = nplib.Module('scipy.sparse.linalg', scipy.sparse.linalg, 'scipy.sparse.linalg.')
    sc.sparse.__dict__['linalg'] = sub
    fake['scipy.sparse.linalg'] = sub
    fake['scipy'] = sc
    np_.__path__ = []
    sc.__path__ = []
    saved = {k: sys.modules.get(k) for k in fake}
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'mpnum' or k.startswith('mpnum.')}
    wb = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    sys.path.insert(0, path)
    if seq:
        from . import desugar
        from . import seq as Q
        desugar.RUNTIME.update(Q.RUNTIME)
        finder = desugar.Finder(path)
        sys.meta_path.insert(0, finder)
    try:
        sys.modules.update(fake)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import mpnum
            import mpnum.special
            import mpnum.utils
            import mpnum.utils.physics
            try:
                import mpnum.povm
            except Exception:
                pass
        mods = {k: v for k, v in sys.modules.items() if k == 'mpnum' or k.startswith('mpnum.')}
    finally:
        if seq:
            sys.meta_path.remove(finder)
        sys.path.remove(path)
        sys.dont_write_bytecode = wb
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        for k in [k for k in sys.modules if k == 'mpnum' or k.startswith('mpnum.')]:
            del sys.modules[k]
        sys.modules.update(old)
    for m in mods.values():
        m.__dict__['int'] = SymIntType
        m.__dict__['len'] = sym_len
        if seq:
            m.__dict__.update(Q.BUILTINS)
            for k, v in list(m.__dict__.items()):
                if v is itertools:
                    m.__dict__[k] = Q.Iter()
                elif isinstance(v, type) and v.__module__ == m.__name__ and '__len__' in v.__dict__ \
                        and '__bool__' not in v.__dict__:
                    # truth value of an object of symbolic length
                    v.__bool__ = lambda self: bool(type(self).__len__(self) != 0)
    if not mpnum.__file__.startswith(path):
        raise RuntimeError('wrong package: %s' % mpnum.__file__)
    _late_imports(mods, fake)
    _loaded[path, seq] = (mpnum, np_, mods)
    return _loaded[path, seq]
