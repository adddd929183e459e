"""Arrays with a symbolic number of axes: the legs of an arbitrary number of sites in row-major order

Only the operations which keep the order of all these legs have a rule.
"""
from .ctx import Unsupported
from . import arr as A
from .arr import asarray


def combine(x):
    """Combine all axes except for the first and the last one"""
    x = asarray(x)
    s = x.shape
    n = 1
    for d in s[1:-1]:
        n = n * d
    return x.reshape((s[0], n, s[-1]))


class Packed(object):
    """Axes: left bond, legs of all sites (combined), right bond; without bonds if closed"""

    def __init__(self, arr, closed=False):
        self.arr, self.closed = arr, closed

    @staticmethod
    def of(x):
        if isinstance(x, Packed):
            return x
        return Packed(combine(x))

    @property
    def dtype(self):
        return self.arr.dtype

    def copy(self):
        return Packed(self.arr.copy(), self.closed)

    def conj(self):
        return Packed(self.arr.conj(), self.closed)

    def view(self):
        return Packed(self.arr, self.closed)

    def __getitem__(self, key):
        if not self.closed and isinstance(key, tuple) and len(key) == 3 and key[1] is Ellipsis:
            return Packed(self.arr[key[0], :, key[2]], True)
        raise Unsupported('element of an array with a symbolic number of axes')

    def __getattr__(self, name):
        raise Unsupported('attribute %s of an array with a symbolic number of axes' % name)

    def _no(self, *a, **k):
        raise Unsupported('operation on an array with a symbolic number of axes')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __neg__ = __len__ = __iter__ = _no
    __eq__ = __lt__ = __gt__ = _no
    __hash__ = object.__hash__


def tensordot(a, b, axes):
    """Contraction of the right bond of one with the left bond of the other"""
    try:
        x, y = axes
        x, y = (x[0] if len(x) == 1 else None) if isinstance(x, (tuple, list)) else x, \
            (y[0] if len(y) == 1 else None) if isinstance(y, (tuple, list)) else y
    except TypeError:
        x, y = (-1, 0) if axes == 1 else (None, None)
    if isinstance(b, Packed) or a.closed or x != -1 or y != 0:
        raise Unsupported('contraction of arrays with a symbolic number of axes')
    r = A.tensordot(a.arr, combine(b), (-1, 0))
    s = r.shape
    return Packed(r.reshape((s[0], s[1] * s[2], s[3])))
