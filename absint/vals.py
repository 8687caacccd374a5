"""Values of the abstract interpreter."""
import numpy as np
from fractions import Fraction
from .terms import (AnalysisError, FALSE, ONE, Poly, TRUE, Tree, ZERO, cmp_eq, cmp_ge, const, float_const, leaf,
                    t_ite, tmap, ptrunc, t_not, poly_is_int)


class Num:
    """A number: its value, its type, and whether it is a C value."""
    __slots__ = ('t', 'ty', 'c')

    def __init__(self, t, ty, c=False):
        if not isinstance(t, Tree):
            t = leaf(t if isinstance(t, Poly) else const(t))
        self.t, self.ty, self.c = t, ty, c

    def __repr__(self):
        return 'Num(%r:%s)' % (self.t, self.ty)

    @property
    def const(self):
        if self.t.cond is None and self.t.leaf.is_const:
            return self.t.leaf.value
        return None


def num(x, ty=None):
    if isinstance(x, bool):
        return Num(TRUE if x else FALSE, 'bool')
    if isinstance(x, (bool, np.bool_)):
        return Num(TRUE if x else FALSE, 'b1')
    if isinstance(x, int):
        return Num(const(x), ty or 'int')
    if isinstance(x, np.integer):
        return Num(const(int(x)), ty or DT(x.dtype))
    if isinstance(x, Fraction):
        return Num(const(x), ty or 'float')
    if isinstance(x, np.floating) and not isinstance(x, float):
        return Num(float_const(float(x)), ty or DT(x.dtype))
    if isinstance(x, (float, np.floating)):
        return Num(float_const(float(x)), ty or ('float' if type(x) is float else 'f8'))
    raise AnalysisError('not a number: %r' % (x,))


def DT(d):
    d = np.dtype(d)
    return d.kind + str(d.itemsize) if d.kind in 'biuf' else d.kind


WEAK = {'int': 1, 'float': 1.0, 'bool': True}


def py_value(v):
    """A C number as the Python object it is converted to."""
    if isinstance(v, Num) and v.c:
        return Num(v.t, 'bool' if is_bool_ty(v.ty) else ('int' if is_int_ty(v.ty) else 'float'))
    return v


def is_int_ty(ty):
    return ty in ('int', 'bool') or ty[0] in 'iub' and ty not in ('bool',) or ty == 'b1'


def is_float_ty(ty):
    return ty == 'float' or (ty[0] == 'f' and ty != 'float')


def is_bool_ty(ty):
    return ty in ('bool', 'b1')


def is_unsigned(ty):
    return ty[0] == 'u'


def np_operand(ty):
    if ty in WEAK:
        return WEAK[ty]
    return np.ones((), np.dtype(ty))[()]


class Ref:
    """A mutable object in the heap."""
    __slots__ = ('oid', 'kind', 'cls')

    def __init__(self, oid, kind, cls=None):
        self.oid, self.kind, self.cls = oid, kind, cls

    def __repr__(self):
        return '<%s %d%s>' % (self.kind, self.oid, ' ' + self.cls.name if self.cls else '')


class Buf:
    __slots__ = ('oid', 'shape', 'dtype', 'name', 'depth', 'owner')

    def __init__(self, oid, shape, dtype, name, depth, owner=None):
        self.oid, self.shape, self.dtype, self.name, self.depth, self.owner = oid, shape, dtype, name, depth, owner


class Arr:
    """A (strided) view on a buffer: numpy array or Cython memoryview."""
    __slots__ = ('buf', 'shape', 'map', 'kind', 'copied')

    def __init__(self, buf, shape, map, kind='np', copied=None):
        self.buf, self.shape, self.map, self.kind, self.copied = buf, tuple(shape), tuple(map), kind, copied

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def index(self, idx):
        """Buffer index of a view index (Polys)."""
        from .terms import padd, pmul
        out = []
        for m in self.map:
            if m[0] is None:
                out.append(m[1])
            else:
                d, off, st = m
                i = idx[d]
                if st is not ONE:
                    i = pmul(i, st)
                out.append(padd(i, off) if off is not ZERO else i)
        return out

    def whole(self):
        return (len(self.map) == len(self.shape) and len(self.buf.shape) == len(self.shape)
                and all(m[0] == k and m[1] is ZERO and m[2] is ONE for k, m in enumerate(self.map))
                and all(a is b for a, b in zip(self.shape, self.buf.shape)))

    def __repr__(self):
        return '<%s array %s %s>' % (self.kind, self.dtype, self.shape)


class DaskArr:
    """A lazy array: its value is an Arr or a BlockValue."""

    def __init__(self, value, shape, chunks, dtype, name=None, info=None):
        self.value, self.shape, self.chunks, self.dtype, self.name = value, tuple(shape), chunks, dtype, name
        self.info = info or {}

    @property
    def ndim(self):
        return len(self.shape)


class BlockValue:
    """Result of map_blocks or of an explicit graph: described, not computed."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class XArr:
    """An xarray.DataArray."""

    def __init__(self, data, dims, coords=None, attrs=None):
        self.data, self.dims, self.coords = data, tuple(dims), dict(coords or {})

    @property
    def shape(self):
        return self.data.shape

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def ndim(self):
        return len(self.data.shape)


class Frame:
    """A pandas DataFrame or Series."""

    def __init__(self, data, index, kind='frame', missing=None, f=None):
        self.data, self.index, self.kind, self.f = data, index, kind, f
        self.missing = missing


class FuncV:
    def __init__(self, node, module, frame, defaults, kwdefaults, name, cls=None):
        self.node, self.module, self.frame = node, module, frame
        self.defaults, self.kwdefaults, self.name, self.cls = defaults, kwdefaults, name, cls
        self.is_gen = None
        self.wraps = None
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.name


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class ClassV:
    def __init__(self, name, bases, ns, module, ctypes=None, cy=False):
        self.name, self.bases, self.ns, self.module, self.ctypes, self.cy = name, bases, ns, module, ctypes or {}, cy
        self.mro = self._mro()

    def _mro(self):
        seqs = [[self]] + [list(b.mro) if isinstance(b, ClassV) else [b] for b in self.bases] + [list(self.bases)]
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError('inconsistent class hierarchy')
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def find(self, name):
        for c in self.mro:
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name], c
        return None, None

    def find_ctype(self, name):
        for c in self.mro:
            if isinstance(c, ClassV) and name in c.ctypes:
                return c.ctypes[name]
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class ModV:
    def __init__(self, name, frame, src=None):
        self.name, self.frame, self.src = name, frame, src

    def __repr__(self):
        return '<module %s>' % self.name


class Lib:
    """Something in a library, by its dotted name."""
    _tab = {}

    def __new__(cls, path):
        r = cls._tab.get(path)
        if r is None:
            r = object.__new__(cls)
            r.path = path
            cls._tab[path] = r
        return r

    def __repr__(self):
        return '<lib %s>' % self.path


class LibMethod:
    def __init__(self, name, obj):
        self.name, self.obj = name, obj

    def __repr__(self):
        return '<method %s of %r>' % (self.name, self.obj)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ExcClass:
    def __init__(self, py):
        self.py = py

    def __repr__(self):
        return '<exception class %s>' % self.py.__name__


class ExcV:
    def __init__(self, cls, args=(), where=None):
        self.cls, self.args, self.where = cls, args, where

    @property
    def name(self):
        return self.cls.py.__name__ if isinstance(self.cls, ExcClass) else self.cls.name

    def is_a(self, c):
        if isinstance(c, ExcClass):
            if isinstance(self.cls, ExcClass):
                return issubclass(self.cls.py, c.py)
            return any(isinstance(b, ExcClass) and issubclass(b.py, c.py) for b in self.cls.mro)
        return isinstance(self.cls, ClassV) and c in self.cls.mro

    def __repr__(self):
        return '<%s%r>' % (self.name, tuple(a for a in self.args))


class Choice:
    """a where cond holds, else b."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return 'Choice(%r, %r, %r)' % (self.cond, self.a, self.b)


class SliceV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return 'slice(%r, %r, %r)' % (self.start, self.stop, self.step)


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step      # Num


class Opaque:
    """A library object known only by how it was made."""

    def __init__(self, kind, key=None, **kw):
        self.kind, self.key = kind, key
        self.__dict__.update(kw)

    def __repr__(self):
        return '<opaque %s>' % self.kind


class CTypeV:
    def __init__(self, ty):
        self.ty = ty


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Poison:
    """A value that the analysis lost; using it is an analysis error."""

    def __init__(self, why):
        self.why = why


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Prop:
    def __init__(self, fget):
        self.fget = fget


class Static:
    def __init__(self, func):
        self.func = func


class ClassM:
    def __init__(self, func):
        self.func = func


def truth(t):
    """Boolean tree of a numeric tree."""
    return tmap(lambda p: t_not(cmp_eq(p)), t)
