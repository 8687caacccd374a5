"""Models of the libraries that the code calls: builtins, numpy, libc, functools, dask, xarray, scipy, pandas."""
import ast
import copy
import itertools
import math
import numpy as np
from fractions import Fraction
from .terms import (ATOMS, AnalysisError, FALSE, ONE, PI, Poly, TRUE, Tree, ZERO, atom_poly, cmp_eq, cmp_ge, cmp_gt, const,
                    leaf, lin_split, mk_atom, padd, pdiv, pfloordiv, pmod, pmul, pneg, poly_is_int, psub, pscale, sym,
                    t_and, t_ite, t_not, t_or, tadd, tapply, tdiv, tfn, tmap, tmul, tneg, tsub, ptrunc, node, tree_leaves)
from . import arrays as A
from .vals import *
from .nparr import NP, t_abs, t_max, t_min, t_round, raise_split, bound_sym


def setup(I):
    I.nparr = NP(I)


def M():
    from . import interp
    return interp


def UNB():
    return M().UNBOUND


# ------------------------------------------------------------------ dtypes

DTYPES = {'float32': 'f4', 'single': 'f4', 'float64': 'f8', 'double': 'f8', 'float_': 'f8', 'float16': 'f2',
          'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'int_': 'i8', 'intp': 'i8', 'long': 'i8',
          'intc': 'i4', 'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'uintp': 'u8', 'uint': 'u8',
          'bool_': 'b1', 'bool': 'b1', 'float': 'f8', 'int': 'i8', 'float32_t': 'f4', 'float64_t': 'f8', 'int64_t': 'i8',
          'int32_t': 'i4', 'object': 'O', 'object_': 'O', 'longlong': 'i8', 'ulong': 'u8', 'short': 'i2', 'byte': 'i1',
          'ubyte': 'u1', 'longdouble': 'f16', 'half': 'f2'}


def mk_dtype(ty):
    ty = {'int': 'i8', 'float': 'f8', 'bool': 'b1'}.get(ty, ty)
    return Opaque('dtype', ty, ty=ty)


def dtype_of(I, x):
    """'f4', ... of something that names a dtype, or None."""
    x = I.settle(x)
    if isinstance(x, Opaque) and x.kind == 'dtype':
        return x.ty
    if isinstance(x, Lib):
        p = x.path.split('.')
        if p[0] in ('numpy', 'builtins') and p[-1] in DTYPES:
            return DTYPES[p[-1]]
        return None
    if isinstance(x, Builtin):
        return {'float': 'f8', 'int': 'i8', 'bool': 'b1'}.get(x.name)
    if isinstance(x, CTypeV):
        return x.ty if isinstance(x.ty, str) else None
    if isinstance(x, str):
        try:
            return DT(np.dtype(x))
        except TypeError:
            return None
    if isinstance(x, (Arr, DaskArr, XArr)):
        return x.dtype
    return None


def need_dtype(I, x, default=None):
    x = I.settle(x)
    if x is None:
        return default
    if isinstance(x, Choice):
        return need_dtype_choice(I, x)
    d = dtype_of(I, x)
    if d is None:
        I.error('TypeError', 'not a dtype')
    return d


def need_dtype_choice(I, x):
    from .interp import NeedSplit
    raise NeedSplit(x.cond, 'dtype')


# ------------------------------------------------------------------ numbers

def to_number(I, v):
    v = I.settle(v)
    if isinstance(v, Num):
        return v
    if isinstance(v, (Arr, DaskArr, XArr)):
        if isinstance(v, XArr):
            v = v.data
        if isinstance(v, DaskArr):
            I.compute_event(v, 'conversion to a number')
            v = I.nparr.lazy_value(v)
        return I.nparr.to_scalar(v)
    I.error('TypeError', 'a number is required')


def index_of(I, x):
    x = I.settle(x)
    if isinstance(x, Num) and is_int_ty(x.ty):
        return x
    if isinstance(x, Arr) and is_int_ty(x.dtype) and not x.shape:
        return I.nparr.to_scalar(x)
    I.error('TypeError', 'slice indices must be integers')


def dim_num(I, d, v):
    c = isinstance(v, Arr) and (v.kind == 'mv' or I.fns[-1].is_c)
    return Num(leaf(d), 'i8' if c else 'int', c)


def length(I, v):
    v = I.settle(v)
    if isinstance(v, Choice):
        return I.choose(v, lambda x: length(I, x))
    if isinstance(v, (tuple, str, bytes)):
        return num(len(v))
    if isinstance(v, Ref):
        if v.kind in ('list', 'gen'):
            rec = I.get(v)
            if isinstance(rec, tuple) and rec and rec[0] == 'choice-list':
                f = lambda r: (t_ite(r[1], f(r[2]), f(r[3])) if r and r[0] == 'choice-list' else leaf(const(len(r))))
                return Num(f(rec), 'int')
            if v.kind == 'gen':
                I.error('TypeError', 'object of type generator has no len()')
            return num(len(I.list_items(v)))
        if v.kind in ('dict', 'set'):
            return num(len(I.get(v)))
        if v.kind == 'inst':
            return I.call(I.getattr(v, '__len__'), [], {})
    if isinstance(v, RangeV):
        st = I.concrete(v.step)
        if st is None:
            I.fail('range with an unknown step')
        if st == 0:
            I.error('ValueError', 'range() arg 3 must not be zero')
        d = tsub(v.stop.t, v.start.t)
        t = tmap(lambda p: pneg(pfloordiv(p, const(-st))), d)
        return Num(I.simp(t_max(I.simp(t), leaf(ZERO))), 'int')
    if isinstance(v, XArr):
        return length(I, v.data)
    if isinstance(v, (Arr, DaskArr)):
        if not v.shape:
            I.error('TypeError', 'len() of unsized object')
        return Num(leaf(v.shape[0]), 'int')
    if isinstance(v, Frame):
        return length(I, v.index if v.index is not None else v.data)
    if isinstance(v, SeqV):
        return v.count
    if isinstance(v, Opaque) and v.kind == 'ndindex':
        return num(len(v.items))
    I.error('TypeError', 'object has no len()')


class SeqV:
    """A tuple of unknown length: every item looks like `item`, which depends on the generic index `k`."""

    def __init__(self, count, item, total=None, first=None, last=None):
        self.count, self.item, self.total, self.first, self.last = count, item, total, first, last


# ------------------------------------------------------------------ names

CONSTS = {'numpy.pi': ('pi',), 'math.pi': ('pi',), 'libc.math.M_PI': ('pi',), 'numpy.newaxis': None,
          'cython.parallel': None}


def lib_attr(I, lib, name):
    p = lib.path + '.' + name
    if p in ('numpy.pi', 'math.pi', 'libc.math.M_PI'):
        return Num(leaf(PI), 'f8' if lib.path == 'libc.math' else 'float', lib.path == 'libc.math')
    if p == 'libc.math.M_PI_2':
        return Num(leaf(pscale(PI, Fraction(1, 2))), 'f8', True)
    if p == 'numpy.newaxis':
        return None
    if p in ('numpy.e', 'math.e'):
        return num(math.e)
    if p in ('numpy.nan', 'math.nan', 'numpy.inf', 'math.inf', 'numpy.NaN'):
        return Num(leaf(atom_poly(mk_atom('nan' if name.lower() == 'nan' else 'inf', ()))), 'float')
    if lib.path == 'numpy' and I.fns[-1].is_c and name in front_basic():
        pass
    if lib.path == 'numpy':
        if name.endswith('_t') and name[:-2] + '_t' in DTYPES:
            return CTypeV(DTYPES[name])
        if not hasattr(np, name) and name not in ('import_array', 'ndarray') and not name.endswith('_t'):
            I.error('AttributeError', "module 'numpy' has no attribute %r" % name)
    if p == 'geotiepoints.version.get_versions':
        return Builtin('get_versions', lambda I, a, k: I.new_dict({('s', 'version'): ('version', 'unknown')}))
    return Lib(p)


def front_basic():
    from . import front
    return front.BASIC


_builtins = {}


def builtin(I, name):
    if name == 'None':
        return None
    b = _builtins.get(name)
    if b is not None:
        return b
    if name in M().EXC:
        return M().EXC[name]
    f = globals().get('b_' + name)
    if f is not None:
        b = Builtin(name, f)
        _builtins[name] = b
        return b
    if name == 'object':
        return Lib('builtins.object')
    if name == 'type':
        return Lib('builtins.type')
    if name == 'NotImplemented':
        return Opaque('NotImplemented')
    if name == '__debug__':
        return num(True)
    if name == 'property':
        return Builtin('property', lambda I, a, k: Prop(a[0]))
    if name == 'staticmethod':
        return Builtin('staticmethod', lambda I, a, k: Static(a[0]))
    if name == 'classmethod':
        return Builtin('classmethod', lambda I, a, k: ClassM(a[0]))
    if name == 'Ellipsis':
        return Ellipsis
    return None


def b_len(I, a, k):
    n = length(I, a[0])
    return n


def b_range(I, a, k):
    a = [to_index(I, x) for x in a]
    if len(a) == 1:
        return RangeV(num(0), a[0], num(1))
    if len(a) == 2:
        return RangeV(a[0], a[1], num(1))
    return RangeV(*a)


def to_index(I, x):
    x = I.settle(x)
    if isinstance(x, Choice):
        return I.choose(x, lambda y: to_index(I, y))
    if isinstance(x, Arr):
        if x.shape or not is_int_ty(x.dtype):
            I.error('TypeError', 'only integer scalar arrays can be converted to a scalar index')
        return I.nparr.to_scalar(x)
    if not isinstance(x, Num) or not is_int_ty(x.ty):
        I.error('TypeError', 'object cannot be interpreted as an integer')
    return x


def b_enumerate(I, a, k):
    st = I.int_of(a[1]) if len(a) > 1 else (I.int_of(k['start']) if 'start' in k else 0)
    return I.new_ref('gen', tuple((num(i + st), v) for i, v in enumerate(I.iterate(a[0]))))


def b_zip(I, a, k):
    its = []
    for x in a:
        its.append(I.iterate(x))
    if 'strict' in k and len({len(i) for i in its}) > 1:
        I.error('ValueError', 'zip() arguments have different lengths')
    return I.new_ref('gen', tuple(tuple(t) for t in zip(*its)))


def b_map(I, a, k):
    if len(a) == 2 and isinstance(I.settle(a[1]), SeqV):
        return map_seq(I, a[1], lambda v: I.call(a[0], [v], {}))
    its = [I.iterate(x) for x in a[1:]]
    return I.new_ref('gen', tuple(I.call(a[0], list(t), {}) for t in zip(*its)))


def map_seq(I, s, fn):
    g = lambda v: None if v is None else fn(v)
    return SeqV(s.count, fn(s.item), None, g(s.first), g(s.last))


def b_filter(I, a, k):
    out = []
    for v in I.iterate(a[1]):
        c = I.truth(v if a[0] is None else I.call(a[0], [v], {}))
        d = I.decide(c)
        if d is None:
            raise M().NeedSplit(I.simp(c), 'filter')
        if d:
            out.append(v)
    return I.new_ref('gen', tuple(out))


def b_sum(I, a, k):
    r = a[1] if len(a) > 1 else k.get('start', num(0))
    v = I.settle(a[0])
    if isinstance(v, SeqV):
        if v.total is None:
            I.fail('sum of a sequence of unknown length')
        return v.total
    for x in I.iterate(v):
        r = I.binop(ast.Add, r, x)
    return r


def _minmax(I, a, k, name):
    if len(a) == 1:
        v = I.settle(a[0])
        items = list(I.iterate(v))
        if not items:
            if 'default' in k:
                return k['default']
            I.error('ValueError', '%s() arg is an empty sequence' % name)
    else:
        items = list(a)
    if 'key' in k and k['key'] is not None:
        I.fail('%s with a key' % name)
    r = items[0]
    for x in items[1:]:
        r = _mm2(I, r, x, name)
    return r


def _mm2(I, x, y, name):
    x, y = I.settle(x), I.settle(y)
    if isinstance(x, Choice):
        return I.choose(x, lambda v: _mm2(I, v, y, name))
    if isinstance(y, Choice):
        return I.choose(y, lambda v: _mm2(I, x, v, name))
    if isinstance(x, Num) and isinstance(y, Num):
        f = t_min if name == 'min' else t_max
        t = f(x.t, y.t)
        if x.ty == y.ty:
            return Num(t, x.ty, x.c and y.c)
        from .interp import c_promote
        if x.c or y.c:
            return Num(t, c_promote(x.ty, y.ty), True)
        if x.ty in WEAK and y.ty in WEAK:
            return Num(t, 'float' if 'float' in (x.ty, y.ty) else 'int')
        return Num(t, I.nparr.ufunc_type('minimum', [x.ty, y.ty]))
    c = I.truth(I.compare(ast.Lt if name == 'min' else ast.Gt, y, x))
    return I.split(c, lambda: y, lambda: x)


def b_min(I, a, k):
    return _minmax(I, a, k, 'min')


def b_max(I, a, k):
    return _minmax(I, a, k, 'max')


def b_abs(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, Num):
        return Num(t_abs(v.t), 'int' if v.ty == 'bool' else v.ty, v.c)
    return I.nparr.ufunc('absolute', [v])


def b_all(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, SeqV):
        return Num(all_seq(I, v), 'bool')
    r = TRUE
    for x in I.iterate(v):
        r = t_and(r, I.truth(x))
    return Num(r, 'bool')


def all_seq(I, v):
    """all() over a sequence of unknown length: only the generic item is known."""
    t = I.force(I.truth(v.item))
    if t is TRUE:
        return TRUE
    if t is FALSE:
        return FALSE
    return node(mk_atom('lam', ('all', t, ()), True), TRUE, FALSE)


def b_any(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, SeqV):
        t = I.force(I.truth(v.item))
        if t is TRUE or t is FALSE:
            return Num(t, 'bool')
        return Num(node(mk_atom('lam', ('any', t, ()), True), TRUE, FALSE), 'bool')
    r = FALSE
    for x in I.iterate(v):
        r = t_or(r, I.truth(x))
    return Num(r, 'bool')


def b_list(I, a, k):
    if not a:
        return I.new_list(())
    return I.new_list(I.iterate(a[0]))


def b_tuple(I, a, k):
    if not a:
        return ()
    v = I.settle(a[0])
    if isinstance(v, SeqV):
        return v
    if isinstance(v, Choice):
        return I.choose(v, lambda x: b_tuple(I, [x], {}))
    return tuple(I.iterate(v))


def b_dict(I, a, k):
    d = {}
    if a:
        v = I.settle(a[0])
        if isinstance(v, Ref) and v.kind == 'dict':
            d.update(I.get(v))
        else:
            for it in I.iterate(v):
                x, y = I.iterate(it)
                d[I.key(x)] = (x, y)
    for n, v in k.items():
        d[('s', n)] = (n, v)
    return I.new_dict(d)


def b_set(I, a, k):
    return I.new_ref('set', {I.key(v): v for v in I.iterate(a[0])} if a else {})


b_frozenset = b_set


def b_int(I, a, k):
    if not a:
        return num(0)
    v = I.settle(a[0])
    if isinstance(v, Choice):
        return I.choose(v, lambda x: b_int(I, [x], {}))
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            I.error('ValueError')
    n = to_number(I, v)
    c = n.c
    return Num(n.t if is_int_ty(n.ty) else tmap(ptrunc, n.t), 'int', False)


def b_float(I, a, k):
    if not a:
        return num(0.0)
    v = I.settle(a[0])
    if isinstance(v, str):
        return num(float(v))
    n = to_number(I, v)
    return Num(n.t, 'float', False)


def b_bool(I, a, k):
    return Num(I.truth(a[0]) if a else FALSE, 'bool')


def b_str(I, a, k):
    return a[0] if a and isinstance(a[0], str) else '<string>'


b_repr = b_str
b_format = b_str


def b_print(I, a, k):
    return None


def b_round(I, a, k):
    n = to_number(I, a[0])
    if len(a) > 1:
        I.fail('round to digits')
    return Num(t_round(n.t), 'int')


def b_divmod(I, a, k):
    return (I.binop(ast.FloorDiv, a[0], a[1]), I.binop(ast.Mod, a[0], a[1]))


def b_pow(I, a, k):
    return I.binop(ast.Pow, a[0], a[1])


def b_sorted(I, a, k):
    items = list(I.iterate(a[0]))
    if k.get('key') is not None:
        keys = [I.call(k['key'], [x], {}) for x in items]
    else:
        keys = items
    vals = []
    for x in keys:
        if isinstance(x, str):
            vals.append(x)
        else:
            c = I.concrete(to_number(I, x))
            if c is None:
                I.fail('sort of unknown values')
            vals.append(c)
    order = sorted(range(len(items)), key=lambda i: vals[i])
    rev = k.get('reverse')
    if rev is not None and I.decide(I.truth(rev)):
        order = sorted(range(len(items)), key=lambda i: vals[i], reverse=True)
    return I.new_list([items[i] for i in order])


def b_reversed(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, RangeV):
        n = length(I, v)
        last = I.binop(ast.Add, v.start, I.binop(ast.Mult, I.binop(ast.Sub, n, num(1)), v.step))
        st = I.unary(ast.USub, v.step)
        return RangeV(last, I.binop(ast.Sub, v.start, v.step), st)
    return I.new_ref('gen', tuple(reversed(I.iterate(v))))


def b_iter(I, a, k):
    return I.new_ref('gen', tuple(I.iterate(a[0])))


def b_next(I, a, k):
    g = a[0]
    if not (isinstance(g, Ref) and g.kind == 'gen'):
        I.error('TypeError', 'not an iterator')
    items = I.get(g)
    if not items:
        if len(a) > 1:
            return a[1]
        I.error('StopIteration')
    I.put(g, tuple(items[1:]))
    return items[0]


def b_slice(I, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_callable(I, a, k):
    v = I.settle(a[0])
    return num(isinstance(v, (FuncV, BoundV, Builtin, ClassV, Lib, LibMethod, Partial)))


def b_id(I, a, k):
    v = a[0]
    return Num(leaf(atom_poly(mk_atom('id', (str(I.key(v)),), True))), 'int')


def b_hash(I, a, k):
    return b_id(I, a, k)


def b_hasattr(I, a, k):
    v, n = I.settle(a[0]), a[1]
    if isinstance(v, Choice):
        return I.choose(v, lambda x: b_hasattr(I, [x, n], {}))
    return num(has_attr(I, v, n))


def has_attr(I, v, n):
    if isinstance(v, Ref) and v.kind == 'inst':
        if n in I.get(v):
            return True
        return v.cls.find(n)[1] is not None or v.cls.find_ctype(n) is not None and False
    if isinstance(v, ModV):
        return n in I.get(v.frame)
    if isinstance(v, ClassV):
        return v.find(n)[1] is not None
    if isinstance(v, Lib):
        return True
    return attribute(I, v, n) is not UNB()


def b_getattr(I, a, k):
    if len(a) > 2 and not has_attr(I, I.settle(a[0]), a[1]):
        return a[2]
    return I.getattr(a[0], a[1])


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_vars(I, a, k):
    return I.getattr(a[0], '__dict__')


def b_isinstance(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, Choice):
        return I.choose(v, lambda x: b_isinstance(I, [x, a[1]], {}))
    return num(is_instance(I, v, a[1]))


def b_issubclass(I, a, k):
    c = a[0]
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return num(any(x in c.mro for x in cs) if isinstance(c, ClassV) else False)


def is_instance(I, v, c):
    if isinstance(c, tuple):
        return any(is_instance(I, v, x) for x in c)
    if isinstance(c, ClassV):
        return isinstance(v, Ref) and v.cls is not None and c in v.cls.mro or isinstance(v, ExcV) and v.is_a(c)
    if isinstance(c, ExcClass):
        return isinstance(v, ExcV) and v.is_a(c)
    if isinstance(c, Builtin):
        n = c.name
        if n in ('tuple',):
            return isinstance(v, (tuple, SeqV))
        if n in ('list', 'dict', 'set', 'frozenset'):
            return isinstance(v, Ref) and v.kind == {'frozenset': 'set'}.get(n, n)
        if n == 'str':
            return isinstance(v, str)
        if n == 'int':
            return isinstance(v, Num) and v.ty in ('int', 'bool') or isinstance(v, Num) and v.c and is_int_ty(v.ty)
        if n == 'float':
            return isinstance(v, Num) and (v.ty == 'float' or v.ty == 'f8')
        if n == 'bool':
            return isinstance(v, Num) and v.ty == 'bool'
        if n == 'slice':
            return isinstance(v, SliceV)
        if n == 'range':
            return isinstance(v, RangeV)
    if isinstance(c, Lib):
        p = c.path
        if p in ('numpy.ndarray',):
            return isinstance(v, Arr) and v.kind == 'np'
        if p in ('dask.array.Array', 'dask.array.core.Array'):
            return isinstance(v, DaskArr)
        if p in ('xarray.DataArray', 'xarray.core.dataarray.DataArray'):
            return isinstance(v, XArr)
        if p == 'pandas.DataFrame':
            return isinstance(v, Frame)
        if p in ('numbers.Number', 'numbers.Real'):
            return isinstance(v, Num)
        if p in ('numbers.Integral', 'numpy.integer'):
            return isinstance(v, Num) and is_int_ty(v.ty) and (p != 'numpy.integer' or v.ty not in WEAK)
        if p in ('numpy.floating',):
            return isinstance(v, Num) and is_float_ty(v.ty) and v.ty != 'float'
        if p == 'builtins.object':
            return True
        if p == 'builtins.type':
            return isinstance(v, (ClassV, Lib))
        if p in ('collections.abc.Sequence',):
            return isinstance(v, (tuple, str)) or isinstance(v, Ref) and v.kind == 'list' or isinstance(v, RangeV)
        if p in ('collections.abc.Iterable',):
            return isinstance(v, (tuple, str, Arr)) or isinstance(v, Ref) and v.kind in ('list', 'dict', 'set', 'gen')
        if p in ('numpy.generic',):
            return isinstance(v, Num) and v.ty not in WEAK
        d = dtype_of(I, c)
        if d is not None:
            return isinstance(v, Num) and v.ty == d
    I.fail('isinstance of %r' % (c,))


def b___import__(I, a, k):
    I.fail('__import__')


def b_open(I, a, k):
    I.fail('open')


# ------------------------------------------------------------------ attributes

ARR_METHODS = {'astype', 'copy', 'flatten', 'ravel', 'reshape', 'squeeze', 'transpose', 'sum', 'min', 'max', 'mean', 'any',
               'all', 'tolist', 'item', 'fill', 'prod', 'argmin', 'argmax', 'clip', 'repeat', 'dot', 'take', 'nonzero',
               'swapaxes', 'round', 'view', 'cumsum', 'sort', 'put', 'resize', 'conj', 'std', 'var', 'searchsorted',
               'setflags', 'byteswap', 'partition', 'argsort', 'itemset', 'tobytes', 'diagonal', 'trace', 'ptp'}
DASK_METHODS = {'compute', 'rechunk', 'astype', 'map_blocks', 'persist', 'copy', 'reshape', 'transpose', 'max', 'min',
                'sum', 'mean', 'any', 'all', 'squeeze', 'ravel', 'flatten', 'clip', 'round', 'repeat', 'map_overlap',
                'compute_chunk_sizes', 'to_delayed', 'store', 'visualize', 'view', 'dot', 'std', 'var', 'prod'}
X_METHODS = {'assign_coords', 'interp', 'drop_vars', 'where', 'compute', 'load', 'copy', 'astype', 'max', 'min', 'sum',
             'mean', 'transpose', 'rename', 'chunk', 'isel', 'sel', 'squeeze', 'all', 'any', 'persist', 'to_numpy',
             'reset_coords', 'item', 'clip', 'expand_dims', 'stack', 'assign_attrs', 'equals', 'identical', 'reset_index',
             'interp_like', 'fillna', 'shift', 'pad', 'coarsen', 'rolling', 'groupby', 'isnull', 'notnull', 'round'}
FRAME_METHODS = {'reindex', 'apply', 'to_numpy', 'interpolate', 'transpose', 'copy', 'astype'}
LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'index', 'count', 'copy', 'reverse', 'sort', 'clear', 'remove'}
DICT_METHODS = {'get', 'items', 'keys', 'values', 'update', 'pop', 'setdefault', 'copy', 'clear'}
SET_METHODS = {'add', 'update', 'discard', 'remove', 'union', 'difference', 'intersection', 'issubset', 'copy'}
STR_METHODS = {'join', 'format', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'rpartition',
               'partition', 'encode', 'title', 'capitalize', 'lstrip', 'rstrip', 'zfill', 'count', 'find'}


def attribute(I, o, name):
    U = UNB()
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, DaskArr):
        return dask_attr(I, o, name)
    if isinstance(o, XArr):
        return x_attr(I, o, name)
    if isinstance(o, Frame):
        if name == 'T':
            return Frame(I.nparr.transpose(o.data), None, 'frame')
        if name == 'values':
            return o.data
        if name == 'index':
            return o.index
        if name == 'shape':
            return tuple(Num(leaf(d), 'int') for d in o.data.shape)
        return LibMethod(name, o) if name in FRAME_METHODS else U
    if isinstance(o, Num):
        if name in ('real',):
            return o
        if name == 'imag':
            return num(0)
        if o.ty not in WEAK or o.ty == 'float':
            if name == 'dtype' and o.ty not in WEAK:
                return mk_dtype(o.ty)
            if o.ty not in WEAK:
                if name == 'ndim':
                    return num(0)
                if name == 'shape':
                    return ()
                if name == 'size':
                    return num(1)
                if name in ('item', 'astype', 'squeeze', 'copy', 'min', 'max', 'all', 'any', 'sum', 'round', 'tolist',
                            'reshape', 'ravel', 'mean'):
                    return LibMethod(name, o)
        if name in ('is_integer', 'conjugate', 'bit_length'):
            return LibMethod(name, o)
        return U
    if isinstance(o, Opaque):
        return opaque_attr(I, o, name)
    if isinstance(o, tuple):
        return LibMethod(name, o) if name in ('index', 'count') else U
    if isinstance(o, str):
        return LibMethod(name, o) if name in STR_METHODS else U
    if isinstance(o, Ref):
        ms = {'list': LIST_METHODS, 'dict': DICT_METHODS, 'set': SET_METHODS, 'gen': {'close', 'send'}}.get(o.kind, ())
        return LibMethod(name, o) if name in ms else U
    if isinstance(o, SliceV):
        return {'start': o.start, 'stop': o.stop, 'step': o.step}.get(name, U)
    if isinstance(o, RangeV):
        return {'start': o.start, 'stop': o.stop, 'step': o.step}.get(name, U)
    if isinstance(o, FuncV):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__wrapped__' and o.wraps is not None:
            return o.wraps
        if name == '__doc__':
            return ast.get_docstring(o.node) if isinstance(o.node, ast.FunctionDef) else None
        if name == '__module__':
            return o.module.name
        if name == '__dict__':
            return I.new_dict({})
        return o.attrs.get(name, U)
    if isinstance(o, BoundV):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.func
        return attribute(I, o.func, name)
    if isinstance(o, (Builtin, Partial)):
        if name == '__name__':
            return getattr(o, 'name', 'partial')
        if isinstance(o, Partial) and name in ('func', 'args', 'keywords'):
            return {'func': o.func, 'args': tuple(o.args), 'keywords': None}[name]
        return U
    if isinstance(o, ExcV):
        if name == 'args':
            return tuple(o.args)
        return U
    if isinstance(o, SeqV):
        return U
    if o is None:
        return U
    return U


def arr_attr(I, o, name):
    U = UNB()
    N = I.nparr
    if name == 'shape':
        return tuple(dim_num(I, d, o) for d in o.shape)
    if name == 'ndim':
        return num(o.ndim)
    if name == 'T':
        r = N.transpose(o)
        r.kind = o.kind
        return r
    if name == 'size':
        return Num(leaf(N.size(o)), 'int')
    if o.kind == 'mv':
        if name == 'base':
            return Arr(o.buf, o.shape, o.map, 'np', o.copied)
        if name == 'copy':
            return LibMethod('copy', o)
        return U
    if name == 'dtype':
        return mk_dtype(o.dtype)
    if name == 'itemsize':
        return num(np.dtype(o.dtype).itemsize)
    if name == 'nbytes':
        return Num(leaf(pmul(N.size(o), const(np.dtype(o.dtype).itemsize))), 'int')
    if name in ('real', 'data'):
        return o
    if name == 'flat':
        return N.reshape(o, [N.size(o)])
    if name == 'flags':
        return Opaque('flags', None, arr=o)
    if name == 'base':
        return None
    if name == '__array__':
        return LibMethod('__array__', o)
    if name in ARR_METHODS:
        return LibMethod(name, o)
    return U


def dask_attr(I, o, name):
    U = UNB()
    if name == 'shape':
        return tuple(Num(leaf(d), 'int') for d in o.shape)
    if name == 'ndim':
        return num(o.ndim)
    if name == 'dtype':
        return mk_dtype(o.dtype)
    if name == 'chunks':
        return chunks_value(I, o)
    if name == 'chunksize':
        ch = chunks_value(I, o)
        return tuple(_minmax(I, [x], {}, 'max') if not isinstance(x, SeqV) else I.fail('chunksize') for x in ch)
    if name == 'numblocks':
        return tuple(length(I, x) for x in chunks_value(I, o))
    if name == 'npartitions':
        r = num(1)
        for x in chunks_value(I, o):
            r = I.binop(ast.Mult, r, length(I, x))
        return r
    if name == 'size':
        r = ONE
        for d in o.shape:
            r = pmul(r, d)
        return Num(leaf(r), 'int')
    if name == 'name':
        return o.name or '<dask name>'
    if name == 'T':
        return call_method(I, o, 'transpose', [], {})
    if name in ('__dask_graph__', 'dask', '_meta', 'blocks', '__dask_keys__'):
        return Opaque('dask-' + name, None, arr=o)
    if name in DASK_METHODS:
        return LibMethod(name, o)
    return U


def chunks_value(I, d):
    ch = d.chunks
    if ch is None:
        I.fail('chunks are not known')
    return tuple(c if isinstance(c, SeqV) else tuple(Num(leaf(x), 'int') for x in c) for c in ch)


def x_attr(I, o, name):
    U = UNB()
    if name == 'dims':
        return o.dims
    if name in ('data', 'variable'):
        return o.data
    if name == 'values':
        return I.nparr.as_array(o.data)
    if name == 'shape':
        return tuple(Num(leaf(d), 'int') for d in o.shape)
    if name == 'ndim':
        return num(o.ndim)
    if name == 'dtype':
        return mk_dtype(o.dtype)
    if name == 'size':
        return attribute(I, o.data, 'size')
    if name == 'coords':
        return I.new_dict({('s', k): (k, v) for k, v in o.coords.items()})
    if name == 'attrs':
        return I.new_dict({})
    if name == 'name':
        return None
    if name == 'T':
        return call_method(I, o, 'transpose', [], {})
    if name == 'chunks':
        return chunks_value(I, o.data) if isinstance(o.data, DaskArr) else None
    if name == 'sizes':
        return I.new_dict({('s', k): (k, Num(leaf(d), 'int')) for k, d in zip(o.dims, o.shape)})
    if name in o.coords:
        return o.coords[name]
    if name in X_METHODS:
        return LibMethod(name, o)
    return U


def opaque_attr(I, o, name):
    U = UNB()
    if o.kind == 'dtype':
        d = np.dtype(o.ty)
        if name == 'kind':
            return d.kind
        if name == 'itemsize':
            return num(d.itemsize)
        if name == 'name':
            return d.name
        if name == 'type':
            return Lib('numpy.' + d.name)
        if name == 'char':
            return d.char
        return U
    if o.kind == 'flags':
        v = o.arr
        if name in ('c_contiguous', 'contiguous', 'C_CONTIGUOUS'):
            return num(bool(I.contiguous(v)))
        if name == 'writeable':
            return num(True)
        return U
    if o.kind == 'finfo':
        return Num(leaf(atom_poly(mk_atom('finfo', (name, o.key)))), 'float')
    if o.kind in ('rgi', 'spline') and name in ('grid', 'values', 'tck', 'method', 'degrees', 'fp', 'get_knots', 'ev'):
        return LibMethod(name, o)
    return LibMethod(name, o)


def getitem(I, o, idx):
    U = UNB()
    if isinstance(o, XArr):
        if isinstance(idx, str):
            if idx in o.coords:
                return o.coords[idx]
            I.error('KeyError', idx)
        r = I.getitem(o.data, idx)
        items = list(idx) if isinstance(idx, tuple) else [idx]
        dims = []
        k = 0
        if any(x is Ellipsis for x in items):
            j = [i for i, x in enumerate(items) if x is Ellipsis][0]
            items[j:j + 1] = [SliceV(None, None, None)] * (o.ndim - len(items) + 1)
        items += [SliceV(None, None, None)] * (o.ndim - len(items))
        for x, d in zip(items, o.dims):
            if isinstance(x, Num) and not is_bool_ty(x.ty):
                continue
            dims.append(d)
        if isinstance(r, Num):
            r = I.nparr.as_array(r)
        return XArr(r, dims)
    if isinstance(o, DaskArr):
        return dask_getitem(I, o, idx)
    if isinstance(o, SeqV):
        if isinstance(idx, Num):
            i = I.concrete(idx)
            if i == 0 and o.first is not None:
                return o.first
            if i == -1 and o.last is not None:
                return o.last
            return o.item
        return U
    if isinstance(o, Opaque):
        if o.kind == 'flags':
            return attribute(I, o, idx if isinstance(idx, str) else '?')
        return Opaque('item', (o, idx))
    if isinstance(o, Lib) or isinstance(o, Builtin):
        return o
    if isinstance(o, Frame):
        I.fail('item of a DataFrame')
    return U


def dask_getitem(I, o, idx):
    if isinstance(o.value, Arr):
        items = list(idx) if isinstance(idx, tuple) else [idx]
        r = I.getitem(o.value, idx)
        if isinstance(r, Num):
            r = I.nparr.as_array(r)
            return DaskArr(r, (), (), r.dtype)
        ch = slice_chunks(I, o, items, r)
        return DaskArr(r, r.shape, ch, r.dtype)
    items = list(idx) if isinstance(idx, tuple) else [idx]
    if all(isinstance(x, Num) for x in items[:1]) and len(items) == 1:
        k = I.concrete(items[0])
        n = o.shape[0]
        if k is None:
            I.fail('index of a lazy array')
        if n.is_const and not -n.value <= k < n.value:
            I.error('IndexError', 'index out of bounds')
        if k < 0:
            k = int(n.value) + k
        return DaskArr(BlockValue('index', base=o, index=int(k)), o.shape[1:], o.chunks[1:] if o.chunks else None, o.dtype)
    v = I.nparr.lazy_value(o)
    return dask_getitem(I, DaskArr(v, o.shape, o.chunks, o.dtype), idx)


def slice_chunks(I, o, items, r):
    if o.chunks is None:
        return None
    if any(x is Ellipsis or isinstance(x, (Arr, Ref, tuple)) for x in items):
        return None
    out = []
    k = 0
    j = 0
    for x in items:
        if x is None:
            out.append((ONE,))
            j += 1
            continue
        if isinstance(x, Num):
            k += 1
            continue
        if x.start is x.stop is x.step is None:
            out.append(o.chunks[k])
        else:
            out.append((r.shape[j],))
        k += 1
        j += 1
    out += list(o.chunks[k:])
    return tuple(out)


def iterate(I, v):
    if isinstance(v, Opaque):
        if v.kind == 'ndindex':
            return tuple(tuple(num(i) for i in t) for t in v.items)
        if v.kind == 'meshgrid':
            return v.items
    if isinstance(v, DaskArr):
        n = v.shape[0]
        if not n.is_const or n.value > 4000:
            raise M().NeedUnroll('iteration over a lazy array')
        return tuple(I.getitem(v, num(k)) for k in range(int(n.value)))
    if isinstance(v, XArr):
        n = v.shape[0]
        if not n.is_const or n.value > 4000:
            raise M().NeedUnroll('iteration over a DataArray')
        return tuple(I.getitem(v, num(k)) for k in range(int(n.value)))
    if isinstance(v, SeqV):
        c = I.concrete(v.count)
        if c is None:
            raise M().NeedUnroll('iteration over a sequence of unknown length')
    return None


# ------------------------------------------------------------------ lazy values

def block_value(I, d):
    """The value of a lazy array, as its blocks would be computed."""
    if isinstance(d, DaskArr):
        b = d.value
        if isinstance(b, Arr):
            return b
        c = getattr(b, 'cache', None)
        if c is not None and c[0] is I:
            return c[1]
        I.lazy_depth += 1
        try:
            r = _block_value(I, d, b)
        finally:
            I.lazy_depth -= 1
        b.cache = (I, r)
        return r
    return d


def _block_value(I, d, b):
    if b.kind == 'index':
        base = block_value(I, b.base)
        return I.nparr.getitem(base, num(b.index))
    if b.kind == 'map_blocks':
        blocks = map_blocks_blocks(I, b)
        return assemble(I, blocks)
    if b.kind == 'graph':
        return assemble(I, graph_blocks(I, d))
    if b.kind == 'astype':
        return I.nparr.astype(block_value(I, b.base), b.dtype)
    I.fail('lazy value %s' % b.kind)


def graph_blocks(I, d):
    """The blocks of an explicit graph: position -> computed block."""
    b = d.value
    if b.graph is None:
        I.fail('graph of unknown form')
    tasks = {}
    for key, task in b.graph.values():
        if isinstance(key, tuple):
            name, pos = key[0], tuple(I.concrete(x) for x in key[1:])
            tasks[(name, pos)] = task
    need = list(itertools.product(*[range(len(c)) for c in d.chunks]))
    out = {}
    for pos in need:
        t = tasks.get((b.name, pos))
        if t is None:
            I.error('KeyError', 'the graph has no task for block %s' % (pos,))
        out[pos] = I.run_task(lambda: run_graph_task(I, t))
    return out


def run_graph_task(I, t):
    t = I.settle(t) if not isinstance(t, tuple) else t
    if isinstance(t, tuple) and t and callable_value(t[0]):
        return I.call(t[0], [run_graph_task(I, x) for x in t[1:]], {})
    if isinstance(t, Ref) and t.kind == 'list':
        return I.new_list([run_graph_task(I, x) for x in I.list_items(t)])
    if isinstance(t, (Arr, XArr, DaskArr)) or t is None or isinstance(t, (Num, str, Partial, BoundV, SliceV)):
        return t
    if isinstance(t, tuple):
        return tuple(run_graph_task(I, x) for x in t)
    return t


def callable_value(v):
    return isinstance(v, (FuncV, BoundV, Partial, Lib, Builtin, LibMethod, ClassV))


def assemble(I, blocks):
    """Nested dict position -> block, concatenated."""
    keys = sorted(blocks)
    nd = len(keys[0])

    def go(prefix, axis):
        if axis == nd:
            return blocks[prefix]
        ks = sorted({k[axis] for k in keys if k[:axis] == prefix})
        parts = [go(prefix + (k,), axis + 1) for k in ks]
        return parts[0] if len(parts) == 1 else I.nparr.concat(parts, axis)
    return go((), 0)


def map_blocks_blocks(I, b):
    """The blocks of a map_blocks call: block position -> value of the function."""
    arrs = [x for x in b.args if isinstance(x, DaskArr)]
    n = max(len(x.shape) for x in arrs)
    ch = arrs[0].chunks
    for x in arrs:
        if isinstance(x.chunks[0], SeqV) or any(isinstance(c, SeqV) for c in x.chunks):
            I.fail('blocks of unknown number')
    nb = [len(c) for c in ch]
    out = {}
    for pos in itertools.product(*[range(k) for k in nb]):
        args = [block_of(I, x, pos) if isinstance(x, DaskArr) else x for x in b.args]
        r = I.run_task(lambda: I.call(b.func, args, dict(b.kwargs)))
        if isinstance(r, Num):
            r = I.nparr.as_array(r)
        off = r.ndim - len(pos)
        out[(0,) * max(off, 0) + pos] = r
    return out


def block_of(I, x, pos):
    v = I.nparr.lazy_value(x)
    sl = []
    for k, p in enumerate(pos):
        c = x.chunks[k]
        st = ZERO
        for y in c[:p]:
            st = padd(st, y)
        sl.append(SliceV(Num(leaf(st), 'int'), Num(leaf(padd(st, c[p])), 'int'), None))
    r = I.nparr.view(v, sl)
    return r


# ------------------------------------------------------------------ calls

def call(I, path, args, kwargs):
    for k, a in enumerate(args):
        if isinstance(a, Choice) and path not in ('functools.partial',):
            return I.choose(a, lambda x: call(I, path, args[:k] + [x] + args[k + 1:], kwargs))
    for n, a in kwargs.items():
        if isinstance(a, Choice) and path not in ('functools.partial',):
            return I.choose(a, lambda x: call(I, path, args, dict(kwargs, **{n: x})))
    f = FUNCS.get(path)
    if f is not None:
        return f(I, args, kwargs)
    root, _, name = path.rpartition('.')
    if root in ('numpy', 'dask.array') and name in I.nparr.fns or path == 'numpy.invert':
        return np_ufunc(I, name, args, kwargs)
    if root in ('libc.math', 'math', 'cmath'):
        return c_math(I, name, args)
    d = dtype_of(I, Lib(path))
    if d is not None:
        v = I.settle(args[0]) if args else num(0)
        if isinstance(v, (Arr, DaskArr, XArr)) and v.shape:
            return I.nparr.astype(I.nparr.as_array(v), d)
        n = to_number(I, v)
        return Num(I.nparr.convert(n.t, n.ty, d), d)
    if path.split('.')[0] in ('warnings', 'logging') or path.endswith(('.warn', '.debug', '.info', '.warning')):
        return None
    if root == 'numpy' and name in ('import_array',):
        return None
    # constant folding of pure functions
    I.fail('call of %s' % path)


def np_ufunc(I, name, args, kwargs):
    out = kwargs.pop('out', None)
    dt = kwargs.pop('dtype', None)
    where = kwargs.pop('where', None)
    if where is not None or kwargs.get('casting') is not None:
        I.fail('ufunc with where')
    nin = 1 if name in UNARY else 2
    if len(args) > nin:
        out = args[nin]
        args = args[:nin]
    if isinstance(out, tuple):
        out = out[0]
    r = I.nparr.ufunc(name, args)
    if dt is not None:
        r = cast(I, r, need_dtype(I, dt))
    if out is not None:
        I.nparr.assign_array(out, r)
        return out
    return r


UNARY = {'negative', 'positive', 'absolute', 'abs', 'fabs', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'asin', 'acos',
         'arctan', 'atan', 'deg2rad', 'radians', 'rad2deg', 'degrees', 'sign', 'square', 'reciprocal', 'logical_not',
         'isnan', 'isinf', 'isfinite', 'floor', 'ceil', 'trunc', 'rint', 'exp', 'log', 'log10', 'conjugate', 'invert'}


def cast(I, v, d):
    if isinstance(v, Num):
        return Num(I.nparr.convert(v.t, v.ty, d), d)
    if isinstance(v, XArr):
        return XArr(cast(I, v.data, d), v.dims, v.coords)
    if isinstance(v, DaskArr):
        if isinstance(v.value, BlockValue):
            return DaskArr(BlockValue('astype', base=v, dtype=d), v.shape, v.chunks, d)
        return DaskArr(I.nparr.astype(v.value, d), v.shape, v.chunks, d)
    return I.nparr.astype(v, d)


C_FN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2',
        'sqrt': 'sqrt', 'fabs': 'absolute', 'floor': 'floor', 'ceil': 'ceil', 'pow': 'power', 'hypot': 'hypot',
        'trunc': 'trunc', 'rint': 'rint', 'fmin': 'minimum', 'fmax': 'maximum', 'exp': 'exp', 'log': 'log',
        'copysign': 'copysign', 'radians': 'deg2rad', 'degrees': 'rad2deg'}


def c_math(I, name, args):
    base = name[:-1] if name.endswith('f') and name[:-1] in C_FN else name
    if base not in C_FN:
        if name in ('isnan', 'isinf'):
            return Num(FALSE, 'bool', True)
        if name == 'fmod':
            x, y = [to_number(I, a).t for a in args]
            return Num(tsub(x, tmul(y, tmap(ptrunc, I.safe_div(x, y)))), 'f8', True)
        if name in ('floor', 'ceil', 'gcd', 'prod'):
            pass
        I.fail('C function %s' % name)
    ns = [to_number(I, a) for a in args]
    t = I.nparr.fns[C_FN[base]](*[n.t for n in ns])
    c = any(n.c for n in ns)
    if not c and base in ('floor', 'ceil', 'trunc') and not I.fns[-1].is_c:
        return Num(t, 'int')
    return Num(t, 'f8' if c or I.fns[-1].is_c else 'float', c or I.fns[-1].is_c)


def kw(args, kwargs, names, *defaults):
    """Positional or keyword arguments by name."""
    out = []
    nd = len(names) - len(defaults)
    for k, n in enumerate(names):
        if k < len(args):
            out.append(args[k])
        elif n in kwargs:
            out.append(kwargs[n])
        elif k >= nd:
            out.append(defaults[k - nd])
        else:
            raise AnalysisError('missing argument %s' % n)
    return out


def known(I, path, kwargs, names):
    bad = set(kwargs) - set(names)
    if bad:
        I.fail('%s called with %s' % (path, sorted(bad)))


FUNCS = {}


def lib(*paths):
    def deco(f):
        for p in paths:
            FUNCS[p] = f
        return f
    return deco


def shape_arg(I, s):
    s = I.settle(s)
    if isinstance(s, Num):
        return (shape_dim(I, s),)
    return tuple(shape_dim(I, x) for x in I.iterate(s))


def shape_dim(I, x):
    x = to_index(I, x)
    p = I.poly(x, 'shape')
    c = I.decide(cmp_ge(p))
    if c is not True:
        if not (p.is_const and p.value == -1):
            I.error_if(t_not(cmp_ge(p)), 'ValueError', 'negative dimensions are not allowed')
    return p


# --- construction

@lib('numpy.empty')
def np_empty(I, a, k):
    shape, dt = kw(a, k, ['shape', 'dtype'], None)
    d = need_dtype(I, dt, 'f8')
    w = I.loc()
    return I.new_array(shape_arg(I, shape), d, A.Uninit('np.empty at %s:%s' % w, is_int_ty(d)), name='np.empty')


def filled(I, shape, d, v):
    return I.lam_array(shape, d, lambda idx: v, A.free_of(v, list(shape)), True)


@lib('numpy.zeros')
def np_zeros(I, a, k):
    shape, dt = kw(a, k, ['shape', 'dtype'], None)
    d = need_dtype(I, dt, 'f8')
    return filled(I, shape_arg(I, shape), d, FALSE if d == 'b1' else leaf(ZERO))


@lib('numpy.ones')
def np_ones(I, a, k):
    shape, dt = kw(a, k, ['shape', 'dtype'], None)
    d = need_dtype(I, dt, 'f8')
    return filled(I, shape_arg(I, shape), d, TRUE if d == 'b1' else leaf(ONE))


@lib('numpy.full')
def np_full(I, a, k):
    shape, v, dt = kw(a, k, ['shape', 'fill_value', 'dtype'], None)
    v = to_number(I, v)
    d = need_dtype(I, dt, I.nparr.storage(v.ty))
    return filled(I, shape_arg(I, shape), d, I.nparr.convert(v.t, v.ty, d))


def like(I, a, k, name):
    v = I.settle(a[0])
    d = need_dtype(I, k.get('dtype', a[1] if len(a) > 1 and name != 'full' else None), v.dtype)
    shape = shape_arg(I, k['shape']) if k.get('shape') is not None else tuple(v.shape)
    if isinstance(v, (DaskArr, XArr)):
        I.fail('%s_like of a lazy array' % name)
    if name == 'empty':
        return I.new_array(shape, d, A.Uninit('np.empty_like at %s:%s' % I.loc(), is_int_ty(d)), name='np.empty_like')
    if name == 'full':
        x = to_number(I, a[1] if len(a) > 1 else k['fill_value'])
        return filled(I, shape, d, I.nparr.convert(x.t, x.ty, d))
    t = ZERO if name == 'zeros' else ONE
    if d == 'b1':
        return filled(I, shape, d, FALSE if name == 'zeros' else TRUE)
    return filled(I, shape, d, leaf(t))


for _n in ('empty', 'zeros', 'ones', 'full'):
    FUNCS['numpy.%s_like' % _n] = (lambda nm: lambda I, a, k: like(I, a, k, nm))(_n)


@lib('numpy.arange')
def np_arange(I, a, k):
    k = dict(k)
    dt = k.pop('dtype', None)
    if len(a) > 3:
        dt = a[3]
        a = a[:3]
    a = list(a)
    start, stop, step = num(0), None, num(1)
    if len(a) == 1 and 'start' not in k and 'stop' not in k:
        stop = a[0]
    else:
        vals = dict(zip(['start', 'stop', 'step'], a))
        vals.update({x: k[x] for x in ('start', 'stop', 'step') if x in k})
        start, stop = vals.get('start', num(0)), vals.get('stop')
        if stop is None:
            start, stop = num(0), start
    if len(a) == 3:
        step = a[2]
    step = k.get('step', step)
    if step is None:
        step = num(1)
    start, stop, step = [to_number(I, x) for x in (start, stop, step)]
    strip = lambda n: Num(n.t, {'i4': 'i4'}.get(n.ty, n.ty) if not n.c else ('int' if is_int_ty(n.ty) else 'float'))
    return I.nparr.arange(strip(start), strip(stop), strip(step), None if dt is None else need_dtype(I, dt))


@lib('numpy.linspace')
def np_linspace(I, a, k):
    s, e, n, ep, rs, dt = kw(a, k, ['start', 'stop', 'num', 'endpoint', 'retstep', 'dtype'], num(50), num(True), num(False), None)
    return I.nparr.linspace(to_number(I, s), to_number(I, e), to_index(I, n), I.decide(I.truth(ep)),
                            None if dt is None else need_dtype(I, dt))


def plain(v):
    return v.data if isinstance(v, XArr) else v


@lib('numpy.asarray', 'numpy.asanyarray')
def np_asarray(I, a, k):
    v, dt = kw(a, k, ['a', 'dtype'], None)
    return I.nparr.as_array(v, None if dt is None else need_dtype(I, dt))


@lib('numpy.ascontiguousarray')
def np_asc(I, a, k):
    v, dt = kw(a, k, ['a', 'dtype'], None)
    r = I.nparr.as_array(v, None if dt is None else need_dtype(I, dt))
    if not r.shape:
        r = I.nparr.view(r, [None])
    if not I.contiguous(r):
        return I.nparr.copy(r)
    return r


@lib('numpy.array')
def np_array(I, a, k):
    v, dt = kw(a, k, ['object', 'dtype'], None)
    d = None if dt is None else need_dtype(I, dt)
    cp = k.get('copy')
    x = I.settle(v)
    r = I.nparr.as_array(x, d)
    if isinstance(x, (Arr, XArr)) and (cp is None or I.decide(I.truth(cp))):
        same = r.buf is (x.buf if isinstance(x, Arr) else getattr(plain(x), 'buf', None))
        if same:
            r = I.nparr.copy(r)
    nd = k.get('ndmin')
    if nd is not None:
        n = I.int_of(nd)
        while r.ndim < n:
            r = I.nparr.view(r, [None] + [SliceV(None, None, None)] * r.ndim)
    return r


@lib('numpy.copy')
def np_copy(I, a, k):
    return I.nparr.copy(I.nparr.as_array(a[0]))


@lib('numpy.atleast_1d')
def np_al1(I, a, k):
    r = I.nparr.as_array(a[0])
    return r if r.shape else I.nparr.view(r, [None])


@lib('numpy.atleast_2d')
def np_al2(I, a, k):
    r = I.nparr.as_array(a[0])
    while r.ndim < 2:
        r = I.nparr.view(r, [None] + [SliceV(None, None, None)] * r.ndim)
    return r


@lib('numpy.meshgrid')
def np_meshgrid(I, a, k):
    ix = k.get('indexing', 'xy')
    sparse = k.get('sparse')
    arrs = [I.nparr.as_array(x) for x in a]
    arrs = [x if x.ndim == 1 else I.nparr.reshape(x, [const(-1)]) for x in arrs]
    n = len(arrs)
    shape = [x.shape[0] for x in arrs]
    order = list(range(n))
    if ix == 'xy' and n > 1:
        order[0], order[1] = 1, 0
        shape[0], shape[1] = shape[1], shape[0]
    out = []
    for j, x in enumerate(arrs):
        f = I.snapshot(x)
        d = order[j]
        if sparse is not None and I.decide(I.truth(sparse)):
            sh = [ONE] * n
            sh[d] = x.shape[0]
            out.append(I.lam_array(sh, x.dtype, lambda idx, f=f, d=d: f((idx[d],)), f.free))
        else:
            out.append(I.lam_array(shape, x.dtype, lambda idx, f=f, d=d: f((idx[d],)), f.free))
    return tuple(out)


@lib('numpy.broadcast_to')
def np_bto(I, a, k):
    v = I.nparr.as_array(a[0])
    sh = shape_arg(I, a[1])
    full = I.nparr.broadcast([v.shape, sh])
    g = I.nparr.broadcast_fn(v, sh)
    return I.lam_array(sh, v.dtype, lambda idx: g(idx), g.free)


# --- shapes

def seq_items(I, v):
    return [I.settle(x) for x in I.iterate(v)]


def any_dask(items):
    return any(isinstance(x, (DaskArr,)) for x in items)


def stack_like(I, items, fn):
    # numpy does not know DataArrays: they are converted (and computed); dask keeps what is lazy under them
    if any(isinstance(x, XArr) for x in items):
        items = [(I.nparr.as_array(x) if not any_dask(items) else plain(x)) if isinstance(x, XArr) else x for x in items]
    if any_dask(items):
        vals = [I.nparr.lazy_value(x) if isinstance(x, DaskArr) else x for x in items]
        r = fn(vals)
        return DaskArr(r, r.shape, None, r.dtype)
    return fn(items)


@lib('numpy.vstack', 'dask.array.vstack', 'numpy.row_stack')
def np_vstack(I, a, k):
    items = seq_items(I, a[0])
    return stack_like(I, items, lambda it: I.nparr.concat([np_al2(I, [x], {}) for x in it], 0))


@lib('numpy.hstack', 'dask.array.hstack')
def np_hstack(I, a, k):
    items = seq_items(I, a[0])

    def go(it):
        it = [np_al1(I, [x], {}) for x in it]
        return I.nparr.concat(it, 0 if it[0].ndim == 1 else 1)
    return stack_like(I, items, go)


@lib('numpy.dstack')
def np_dstack(I, a, k):
    items = seq_items(I, a[0])

    def go(it):
        out = []
        for x in it:
            x = np_al2(I, [x], {})
            out.append(x if x.ndim > 2 else I.nparr.expand_dims(x, 2))
        return I.nparr.concat(out, 2)
    return stack_like(I, items, go)


@lib('numpy.column_stack')
def np_colstack(I, a, k):
    items = seq_items(I, a[0])

    def go(it):
        out = []
        for x in it:
            x = I.nparr.as_array(x)
            out.append(I.nparr.expand_dims(x, 1) if x.ndim == 1 else x)
        return I.nparr.concat(out, 1)
    return stack_like(I, items, go)


@lib('numpy.concatenate', 'dask.array.concatenate', 'numpy.concat')
def np_concat(I, a, k):
    arrs, ax = kw(a, k, ['arrays', 'axis'], num(0))
    dt = k.get('dtype')
    items = seq_items(I, arrs)
    if ax is None:
        items = [I.nparr.reshape(I.nparr.as_array(x), [const(-1)]) for x in items]
        ax = num(0)
    n = I.int_of(ax)
    return stack_like(I, items, lambda it: I.nparr.concat(it, n, None if dt is None else need_dtype(I, dt)))


@lib('numpy.append')
def np_append(I, a, k):
    arr, v, ax = kw(a, k, ['arr', 'values', 'axis'], None)
    return np_concat(I, [(arr, v)], {'axis': ax})


@lib('numpy.insert')
def np_insert(I, a, k):
    arr, pos, v, ax = kw(a, k, ['arr', 'obj', 'values', 'axis'], None)
    x = I.nparr.as_array(arr)
    if ax is None:
        if x.ndim != 1:
            I.fail('numpy.insert without an axis')
        ax = num(0)
    axis = I.int_of(ax)
    n = x.shape[axis]
    p = I.int_of(pos)
    pre = [SliceV(None, None, None)] * x.ndim
    post = list(pre)
    pre[axis] = SliceV(None, num(p), None)
    post[axis] = SliceV(num(p), None, None)
    val = I.nparr.as_array(v)
    if val.ndim < x.ndim:
        sh = list(x.shape)
        sh[axis] = ONE
        if val.ndim == x.ndim - 1 and val.ndim > 0:
            val = I.nparr.expand_dims(val, axis)
        else:
            g = I.nparr.broadcast_fn(val, sh)
            val = I.lam_array(sh, val.dtype, g, g.free)
    return I.nparr.concat([I.nparr.view(x, pre), val, I.nparr.view(x, post)], axis, x.dtype)


@lib('numpy.stack', 'dask.array.stack')
def np_stack(I, a, k):
    arrs, ax = kw(a, k, ['arrays', 'axis'], num(0))
    n = I.int_of(ax)
    return stack_like(I, seq_items(I, arrs), lambda it: I.nparr.stack(it, n))


def split_points(I, v, axis, spec):
    n = v.shape[axis]
    s = I.settle(spec)
    if isinstance(s, Num):
        c = I.int_of(s)
        nn = n
        if not nn.is_const:
            q = pfloordiv(nn, const(c))
            I.error_if(t_not(cmp_eq(psub(pmul(q, const(c)), nn))), 'ValueError', 'array split does not result in an equal division')
            return [pscale(q, j) for j in range(1, c)]
        if nn.value % c:
            I.error('ValueError', 'array split does not result in an equal division')
        return [const(nn.value // c * j) for j in range(1, c)]
    return [I.poly(to_index(I, x)) for x in I.iterate(s)]


def np_split_axis(axis):
    def f(I, a, k):
        v = I.nparr.as_array(a[0])
        ax = axis
        if ax is None:
            ax = I.int_of(k.get('axis', a[2] if len(a) > 2 else num(0)))
        pts = split_points(I, v, ax, a[1] if len(a) > 1 else k['indices_or_sections'])
        out = []
        prev = None
        for p in pts + [None]:
            sl = [SliceV(None, None, None)] * v.ndim
            sl[ax] = SliceV(None if prev is None else Num(leaf(prev), 'int'), None if p is None else Num(leaf(p), 'int'), None)
            out.append(I.nparr.view(v, sl))
            prev = p
        return I.new_list(out)
    return f


FUNCS['numpy.vsplit'] = np_split_axis(0)
FUNCS['numpy.hsplit'] = np_split_axis(1)
FUNCS['numpy.split'] = np_split_axis(None)


@lib('numpy.array_split')
def np_array_split(I, a, k):
    v = I.nparr.as_array(a[0])
    s = I.settle(a[1])
    ax = I.int_of(k.get('axis', a[2] if len(a) > 2 else num(0)))
    if isinstance(s, Num):
        c = I.int_of(s)
        n = v.shape[ax]
        if not n.is_const:
            I.fail('array_split of unknown size')
        n = int(n.value)
        sizes = [n // c + (1 if j < n % c else 0) for j in range(c)]
        pts = list(itertools.accumulate(sizes))[:-1]
        a = [v, tuple(num(p) for p in pts)]
    return np_split_axis(ax)(I, [v, a[1]], {})


@lib('numpy.expand_dims')
def np_expand(I, a, k):
    v, ax = kw(a, k, ['a', 'axis'])
    return I.nparr.expand_dims(v, I.int_of(ax))


@lib('numpy.squeeze')
def np_squeeze(I, a, k):
    v, ax = kw(a, k, ['a', 'axis'], None)
    return I.nparr.squeeze(v, None if ax is None else I.int_of(ax))


@lib('numpy.transpose')
def np_transpose(I, a, k):
    v, ax = kw(a, k, ['a', 'axes'], None)
    return I.nparr.transpose(v, None if ax is None else [I.int_of(x) for x in I.iterate(ax)])


@lib('numpy.moveaxis', 'numpy.rollaxis')
def np_moveaxis(I, a, k):
    v = I.nparr.as_array(a[0])
    s, d = I.int_of(a[1]) % v.ndim, I.int_of(a[2]) % v.ndim
    order = [x for x in range(v.ndim) if x != s]
    order.insert(d, s)
    return I.nparr.transpose(v, order)


@lib('numpy.swapaxes')
def np_swapaxes(I, a, k):
    v = I.nparr.as_array(a[0])
    s, d = I.int_of(a[1]) % v.ndim, I.int_of(a[2]) % v.ndim
    order = list(range(v.ndim))
    order[s], order[d] = order[d], order[s]
    return I.nparr.transpose(v, order)


@lib('numpy.reshape')
def np_reshape(I, a, k):
    v, s = kw(a, k, ['a', 'shape'])
    return I.nparr.reshape(v, shape_arg(I, s))


@lib('numpy.ravel')
def np_ravel(I, a, k):
    return I.nparr.reshape(I.nparr.as_array(a[0]), [const(-1)])


@lib('numpy.repeat')
def np_repeat(I, a, k):
    v, r, ax = kw(a, k, ['a', 'repeats', 'axis'], None)
    v = I.nparr.as_array(v)
    n = I.poly(to_index(I, r))
    if ax is None:
        v = I.nparr.reshape(v, [const(-1)])
        axis = 0
    else:
        axis = I.int_of(ax) % v.ndim
    f = I.snapshot(v)
    sh = list(v.shape)
    sh[axis] = pmul(sh[axis], n)

    def el(idx):
        i = list(idx)
        i[axis] = pfloordiv(idx[axis], n)
        return f(tuple(i))
    return I.lam_array(sh, v.dtype, el, f.free)


@lib('numpy.tile')
def np_tile(I, a, k):
    v = I.nparr.as_array(a[0])
    reps = shape_arg(I, a[1])
    while len(reps) < v.ndim:
        reps = (ONE,) + reps
    while v.ndim < len(reps):
        v = I.nparr.expand_dims(v, 0)
    f = I.snapshot(v)
    sh = [pmul(d, r) for d, r in zip(v.shape, reps)]
    old = v.shape

    def el(idx):
        return f(tuple(i if r.is_const and r.value == 1 else (ZERO if d.is_const and d.value == 1 else pmod(i, d))
                       for i, d, r in zip(idx, old, reps)))
    return I.lam_array(sh, v.dtype, el, f.free)


@lib('numpy.flip', 'numpy.flipud', 'numpy.fliplr')
def np_flip(I, a, k):
    I.fail('flip')


@lib('numpy.diff')
def np_diff(I, a, k):
    v = I.nparr.as_array(a[0])
    ax = I.int_of(k['axis']) % v.ndim if 'axis' in k else v.ndim - 1
    s1 = [SliceV(None, None, None)] * v.ndim
    s2 = list(s1)
    s1[ax] = SliceV(num(1), None, None)
    s2[ax] = SliceV(None, num(-1), None)
    return I.nparr.ufunc('subtract', [I.nparr.view(v, s1), I.nparr.view(v, s2)])


@lib('numpy.shape')
def np_shape(I, a, k):
    return attribute(I, I.nparr.as_array(a[0]) if not isinstance(a[0], (Arr, DaskArr, XArr)) else a[0], 'shape')


@lib('numpy.ndim')
def np_ndim(I, a, k):
    v = I.settle(a[0])
    return num(0) if isinstance(v, Num) else num(v.ndim if isinstance(v, (Arr, DaskArr, XArr)) else I.nparr.as_array(v).ndim)


@lib('numpy.size')
def np_size(I, a, k):
    return Num(leaf(I.nparr.size(I.nparr.as_array(a[0]))), 'int')


@lib('numpy.ndindex')
def np_ndindex(I, a, k):
    if len(a) == 1 and not isinstance(a[0], Num):
        dims = [I.int_of(x) for x in I.iterate(a[0])]
    else:
        dims = [I.int_of(x) for x in a]
    return Opaque('ndindex', None, items=list(itertools.product(*[range(d) for d in dims])))


# --- queries

@lib('numpy.where')
def np_where(I, a, k):
    if len(a) == 1:
        return np_nonzero(I, a, k)
    a = [I.settle(x) for x in a]
    if any(isinstance(x, XArr) for x in a):
        # numpy.where does not know DataArrays
        a = [x.data if isinstance(x, XArr) and any_dask(a) else I.nparr.as_array(x) if isinstance(x, XArr) else x for x in a]
    return I.nparr.where(*a)


@lib('dask.array.where', 'xarray.where')
def x_where(I, a, k):
    return I.nparr.where(*a)


def bool_positions(I, v):
    v = I.nparr.as_array(v)
    if v.dtype != 'b1':
        v = I.nparr.ufunc('not_equal', [v, num(0)])
    if v.ndim != 1:
        I.fail('positions in a mask of several dimensions')
    return I.nparr.mask_positions(v)


@lib('numpy.nonzero', 'numpy.flatnonzero')
def np_nonzero(I, a, k):
    pos = bool_positions(I, a[0])
    t = I.nparr.table([leaf(const(p)) for p in pos], 'i8') if pos else I.lam_array((ZERO,), 'i8', lambda i: leaf(ZERO))
    return (t,)


FUNCS['numpy.flatnonzero'] = lambda I, a, k: np_nonzero(I, a, k)[0]


@lib('numpy.argwhere')
def np_argwhere(I, a, k):
    pos = np_nonzero(I, a, k)[0]
    return I.nparr.expand_dims(pos, 1)


@lib('numpy.isin', 'numpy.in1d')
def np_isin(I, a, k):
    x, y = I.nparr.as_array(a[0]), I.nparr.as_array(a[1])
    if not (y.ndim == 1 and y.shape[0].is_const and y.shape[0].value <= 6000):
        I.fail('isin')
    fx, fy = I.snapshot(x), I.snapshot(y)
    n = int(y.shape[0].value)

    def el(idx):
        v = fx(idx)
        r = FALSE
        for j in range(n):
            r = t_or(r, tapply('eq', lambda p, q: cmp_eq(psub(p, q)), v, fy((const(j),))))
        return r
    return I.lam_array(x.shape, 'b1', el, fx.free | fy.free)


@lib('numpy.array_equal')
def np_array_equal(I, a, k):
    x, y = I.nparr.as_array(a[0]), I.nparr.as_array(a[1])
    if x.ndim != y.ndim:
        return num(False)
    r = TRUE
    for p, q in zip(x.shape, y.shape):
        r = t_and(r, I.simp(cmp_eq(psub(p, q))))
    if r is FALSE:
        return num(False)

    def same():
        n = I.nparr.reduce('all', I.nparr.ufunc('equal', [x, y]), None)
        return Num(n.t, 'bool')
    if r is TRUE:
        return same()
    return I.split(r, same, lambda: num(False))


@lib('numpy.allclose', 'numpy.isclose')
def np_allclose(I, a, k):
    return Num(leaf(ZERO), 'bool') if False else I.fail('allclose')


def red(name):
    def f(I, a, k):
        v, ax = kw(a, k, ['a', 'axis'], None)
        kd = k.get('keepdims')
        v = I.settle(v)
        if isinstance(v, Num):
            return Num(I.truth(v), 'bool') if name in ('any', 'all') else v
        if isinstance(v, Ref) or isinstance(v, (tuple, RangeV)):
            v = I.nparr.as_array(v)
        if ax is not None:
            ax = I.settle(ax)
        return I.nparr.reduce(name, v, ax, bool(kd is not None and I.decide(I.truth(kd))))
    return f


for _n, _r in (('max', 'max'), ('amax', 'max'), ('min', 'min'), ('amin', 'min'), ('sum', 'sum'), ('mean', 'mean'),
               ('prod', 'prod'), ('any', 'any'), ('all', 'all'), ('argmin', 'argmin'), ('argmax', 'argmax'),
               ('nanmax', 'max'), ('nanmin', 'min'), ('product', 'prod')):
    FUNCS['numpy.' + _n] = red(_r)
    FUNCS['dask.array.' + _n] = red(_r)


@lib('numpy.ptp')
def np_ptp(I, a, k):
    return I.binop(ast.Sub, red('max')(I, a, k), red('min')(I, a, k))


@lib('numpy.clip')
def np_clip(I, a, k):
    v, lo, hi = kw(a, k, ['a', 'a_min', 'a_max'], None, None)
    if lo is not None:
        v = I.nparr.ufunc('maximum', [v, lo])
    if hi is not None:
        v = I.nparr.ufunc('minimum', [v, hi])
    return v


@lib('numpy.result_type', 'numpy.promote_types')
def np_result_type(I, a, k):
    ops = []
    for x in a:
        x = I.settle(x)
        if isinstance(x, Num):
            ops.append(np_operand(x.ty))
        else:
            ops.append(np.dtype(need_dtype(I, x)))
    return mk_dtype(DT(np.result_type(*ops)))


@lib('numpy.issubdtype')
def np_issubdtype(I, a, k):
    d = np.dtype(need_dtype(I, a[0]))
    y = I.settle(a[1])
    if isinstance(y, Lib):
        return num(bool(np.issubdtype(d, getattr(np, y.path.split('.')[-1]))))
    return num(bool(np.issubdtype(d, np.dtype(need_dtype(I, y)))))


@lib('numpy.dtype')
def np_dtype(I, a, k):
    return mk_dtype(need_dtype(I, a[0]))


@lib('numpy.can_cast')
def np_can_cast(I, a, k):
    return num(bool(np.can_cast(np.dtype(need_dtype(I, a[0])), np.dtype(need_dtype(I, a[1])))))


@lib('numpy.finfo', 'numpy.iinfo')
def np_finfo(I, a, k):
    return Opaque('finfo', need_dtype(I, a[0]))


@lib('numpy.shares_memory', 'numpy.may_share_memory')
def np_shares(I, a, k):
    return num(a[0].buf is a[1].buf)


@lib('numpy.isscalar')
def np_isscalar(I, a, k):
    return num(isinstance(I.settle(a[0]), (Num, str)))


@lib('numpy.dot', 'numpy.matmul')
def np_dot(I, a, k):
    x, y = I.settle(a[0]), I.settle(a[1])
    if isinstance(x, Num) or isinstance(y, Num):
        return I.binop(ast.Mult, x, y)
    return I.nparr.array_binop(ast.MatMult, x, y)


@lib('numpy.outer')
def np_outer(I, a, k):
    x = I.nparr.reshape(I.nparr.as_array(a[0]), [const(-1)])
    y = I.nparr.reshape(I.nparr.as_array(a[1]), [const(-1)])
    return I.nparr.ufunc('multiply', [I.nparr.expand_dims(x, 1), y])


@lib('numpy.cumsum')
def np_cumsum(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, SeqV):
        I.fail('cumsum')
    v = I.nparr.as_array(v)
    if v.ndim != 1 or not v.shape[0].is_const:
        I.fail('cumsum of unknown size')
    f = I.snapshot(v)
    out = []
    acc = leaf(ZERO)
    for j in range(int(v.shape[0].value)):
        acc = tadd(acc, f((const(j),)))
        out.append(acc)
    return I.nparr.table(out, v.dtype if v.dtype[0] == 'f' else 'i8')


@lib('numpy.searchsorted', 'numpy.digitize')
def np_searchsorted(I, a, k):
    I.fail('searchsorted')


@lib('numpy.unique', 'numpy.sort')
def np_sort(I, a, k):
    I.fail('sort')


@lib('numpy.interp')
def np_interp(I, a, k):
    x, xp, fp = [I.nparr.as_array(v) for v in a[:3]]
    return interp1(I, x, xp, fp, 'hold')


@lib('numpy.copyto')
def np_copyto(I, a, k):
    if k.get('where') is not None:
        I.fail('copyto with where')
    I.nparr.assign_array(a[0], a[1])


@lib('numpy.vectorize', 'numpy.frompyfunc')
def np_vectorize(I, a, k):
    I.fail('vectorize')


@lib('numpy.einsum')
def np_einsum(I, a, k):
    I.fail('einsum')


# --- other modules

@lib('functools.wraps', 'functools.update_wrapper')
def f_wraps(I, a, k):
    f = a[0]

    def deco(I, b, kk):
        g = b[0]
        if isinstance(g, FuncV):
            g.wraps = f
        return g
    return Builtin('wraps', deco)


@lib('functools.partial')
def f_partial(I, a, k):
    return Partial(a[0], list(a[1:]), dict(k))


@lib('functools.lru_cache', 'functools.cache')
def f_cache(I, a, k):
    if a and isinstance(a[0], FuncV):
        return cached_function(I, a[0])
    return Builtin('lru_cache', lambda I, b, kk: cached_function(I, b[0]))


def cached_function(I, f):
    I.event('cache', 'a result cache shared between calls')
    if not isinstance(f, FuncV):
        I.fail('result cache of %r' % (f,))
    g = copy.copy(f)
    g.attrs = dict(f.attrs)
    g.attrs['__cache__'] = I.new_dict({})
    return g


def cached_call(I, f, args, kwargs):
    """A function decorated with lru_cache: arguments that compare equal share the first result."""
    key = ('s', tuple([cache_key(I, x) for x in args] + [('kw', n, cache_key(I, x)) for n, x in kwargs.items()]))
    ref = f.attrs['__cache__']
    d = I.get(ref)
    if key in d:
        return d[key][1]
    r = I.call_function(f, args, kwargs)
    d = dict(I.get(ref))
    d[key] = (key, r)
    I.put(ref, d)
    return r


def cache_key(I, v):
    v = I.settle(v)
    if isinstance(v, Num):
        t = I.simp(v.t) if v.t.cond is not None else v.t
        if t.cond is not None:
            I.fail('cache key that depends on a condition')
        return ('num', t.leaf.value if t.leaf.is_const else t.leaf)
    if v is None or isinstance(v, (str, bool)):
        return ('py', v)
    if isinstance(v, tuple):
        return tuple(cache_key(I, x) for x in v)
    if isinstance(v, (Lib, LibMethod)):
        return ('lib', getattr(v, 'path', None) or (id(v.obj), v.name))
    if isinstance(v, Ref) and v.kind == 'inst':
        if v.cls.find('__eq__')[0] is not None or v.cls.find('__hash__')[0] is not None:
            I.fail('cache key with its own comparison')
        return ('inst', v.oid)
    if isinstance(v, (FuncV, ClassV, DaskArr)):
        return ('obj', id(v))
    if isinstance(v, (Arr, XArr, Ref)):
        I.error('TypeError', 'unhashable type')
    return ('obj', repr(v))


@lib('functools.reduce')
def f_reduce(I, a, k):
    items = list(I.iterate(a[1]))
    r = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


@lib('abc.abstractmethod')
def abc_am(I, a, k):
    a[0].attrs['__abstract__'] = True
    return a[0]


def identity_deco(I, a, k):
    return Builtin('decorator', lambda I, b, kk: b[0])


for _n in ('boundscheck', 'wraparound', 'cdivision', 'initializedcheck', 'nonecheck', 'infer_types', 'locals', 'profile',
           'embedsignature', 'binding'):
    FUNCS['cython.' + _n] = identity_deco


def _prange(I, a, k):
    k = {x: v for x, v in k.items() if x not in ('nogil', 'schedule', 'chunksize', 'num_threads', 'use_threads_if')}
    r = b_range(I, a, k)
    r = RangeV(r.start, r.stop, r.step)
    r.parallel = True
    return r


FUNCS['cython.parallel.prange'] = _prange
FUNCS['cython.prange'] = _prange
FUNCS['cython.parallel.parallel'] = lambda I, a, k: Opaque('parallel')
FUNCS['cython.parallel.threadid'] = lambda I, a, k: Num(leaf(sym('thread', True, 0)), 'i4', True)


@lib('itertools.product')
def it_product(I, a, k):
    its = [I.iterate(x) for x in a]
    rep = I.int_of(k['repeat']) if 'repeat' in k else 1
    return I.new_ref('gen', tuple(itertools.product(*(its * rep))))


@lib('itertools.chain')
def it_chain(I, a, k):
    return I.new_ref('gen', tuple(itertools.chain(*[I.iterate(x) for x in a])))


@lib('itertools.chain.from_iterable')
def it_chain_fi(I, a, k):
    return I.new_ref('gen', tuple(itertools.chain(*[I.iterate(x) for x in I.iterate(a[0])])))


@lib('itertools.accumulate')
def it_accumulate(I, a, k):
    out = []
    for x in I.iterate(a[0]):
        out.append(x if not out else I.binop(ast.Add, out[-1], x))
    return I.new_ref('gen', tuple(out))


@lib('itertools.repeat')
def it_repeat(I, a, k):
    return I.new_ref('gen', (a[0],) * I.int_of(a[1]))


@lib('copy.copy')
def cp_copy(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, Ref) and v.kind in ('list', 'dict', 'set', 'inst'):
        return I.new_ref(v.kind, I.get(v), v.cls)
    if isinstance(v, Arr):
        return I.nparr.copy(v)
    return v


@lib('copy.deepcopy')
def cp_deepcopy(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, Ref) and v.kind == 'list':
        return I.new_list([cp_deepcopy(I, [x], {}) for x in I.list_items(v)])
    if isinstance(v, tuple):
        return tuple(cp_deepcopy(I, [x], {}) for x in v)
    if isinstance(v, (Arr, Ref)):
        return cp_copy(I, [v], {})
    return v


@lib('contextlib.contextmanager')
def cl_cm(I, a, k):
    I.fail('context manager')


@lib('operator.mul')
def op_mul(I, a, k):
    return I.binop(ast.Mult, a[0], a[1])


@lib('math.prod')
def m_prod(I, a, k):
    r = num(1)
    for x in I.iterate(a[0]):
        r = I.binop(ast.Mult, r, x)
    return r


@lib('warnings.warn')
def w_warn(I, a, k):
    return None


@lib('builtins.type')
def b_type(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, Ref) and v.cls is not None:
        return v.cls
    if isinstance(v, Arr):
        return Lib('numpy.ndarray')
    if isinstance(v, DaskArr):
        return Lib('dask.array.Array')
    if isinstance(v, XArr):
        return Lib('xarray.DataArray')
    if isinstance(v, tuple):
        return builtin(I, 'tuple')
    if isinstance(v, str):
        return builtin(I, 'str')
    if isinstance(v, Ref):
        return builtin(I, v.kind)
    if isinstance(v, Num):
        if v.ty in WEAK:
            return builtin(I, v.ty)
        return Lib('numpy.' + np.dtype(v.ty).name)
    if v is None:
        return Lib('builtins.NoneType')
    if isinstance(v, Opaque):
        return Lib('type.' + v.kind)
    return Lib('builtins.type')


# ------------------------------------------------------------------ methods

def call_method(I, o, name, a, k):
    for j, x in enumerate(a):
        if isinstance(x, Choice):
            return I.choose(x, lambda v: call_method(I, o, name, a[:j] + [v] + a[j + 1:], k))
    if isinstance(o, Arr):
        return arr_method(I, o, name, a, k)
    if isinstance(o, DaskArr):
        return dask_method(I, o, name, a, k)
    if isinstance(o, XArr):
        return x_method(I, o, name, a, k)
    if isinstance(o, Frame):
        return frame_method(I, o, name, a, k)
    if isinstance(o, Num):
        if name in ('item', 'squeeze', 'copy', 'min', 'max', 'sum', 'tolist', 'mean', 'conjugate'):
            return o
        if name == 'astype':
            return cast(I, o, need_dtype(I, a[0]))
        if name in ('any', 'all'):
            return Num(I.truth(o), 'b1')
        if name in ('reshape', 'ravel'):
            r = I.nparr.as_array(o)
            return I.nparr.reshape(r, shape_arg(I, a[0]) if a else [ONE])
        if name == 'is_integer':
            return Num(tapply('eq', lambda p, q: cmp_eq(psub(p, q)), o.t, tmap(ptrunc, o.t)), 'bool')
        if name == 'round':
            return b_round(I, [o] + a, k)
        I.fail('method %s of a number' % name)
    if isinstance(o, str):
        if name in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'split', 'replace', 'rpartition', 'partition') and \
                all(isinstance(x, str) for x in a):
            r = getattr(o, name)(*a)
            return num(r) if isinstance(r, bool) else (I.new_list(r) if isinstance(r, list) else r)
        if name == 'join':
            items = I.iterate(a[0])
            return o.join(items) if all(isinstance(x, str) for x in items) else '<string>'
        return '<string>'
    if isinstance(o, tuple):
        items = o
        if name == 'index':
            for j, x in enumerate(items):
                d = I.decide(I.equal(x, a[0]))
                if d:
                    return num(j)
                if d is None:
                    raise M().NeedSplit(I.simp(I.equal(x, a[0])), 'index')
            I.error('ValueError', 'not in tuple')
        if name == 'count':
            r = num(0)
            for x in items:
                r = I.binop(ast.Add, r, Num(t_ite(I.equal(x, a[0]), leaf(ONE), leaf(ZERO)), 'int'))
            return r
    if isinstance(o, Ref):
        return ref_method(I, o, name, a, k)
    if isinstance(o, Opaque):
        return opaque_method(I, o, name, a, k)
    I.fail('method %s of %r' % (name, o))


def ref_method(I, o, name, a, k):
    if o.kind in ('list', 'gen'):
        items = I.list_items(o)
        if name == 'append':
            I.put(o, items + (a[0],))
            return None
        if name == 'extend':
            I.put(o, items + tuple(I.iterate(a[0])))
            return None
        if name == 'insert':
            p = I.int_of(a[0])
            l = list(items)
            l.insert(p, a[1])
            I.put(o, tuple(l))
            return None
        if name == 'pop':
            l = list(items)
            p = I.int_of(a[0]) if a else -1
            if not -len(l) <= p < len(l):
                I.error('IndexError', 'pop from empty list')
            r = l.pop(p)
            I.put(o, tuple(l))
            return r
        if name == 'copy':
            return I.new_list(items)
        if name == 'reverse':
            I.put(o, tuple(reversed(items)))
            return None
        if name == 'clear':
            I.put(o, ())
            return None
        if name in ('index', 'count'):
            return call_method(I, tuple(items), name, a, k)
        if name == 'sort':
            r = b_sorted(I, [o], k)
            I.put(o, I.get(r))
            return None
        if name == 'remove':
            j = I.int_of(call_method(I, tuple(items), 'index', a, {}))
            l = list(items)
            del l[j]
            I.put(o, tuple(l))
            return None
        return None
    if o.kind == 'dict':
        d = I.get(o)
        if name == 'get':
            kk = I.key(a[0])
            return I.settle(d[kk][1]) if kk in d else (a[1] if len(a) > 1 else None)
        if name == 'items':
            return I.new_ref('gen', tuple((x, y) for x, y in d.values()))
        if name == 'keys':
            return I.new_ref('gen', tuple(x for x, y in d.values()))
        if name == 'values':
            return I.new_ref('gen', tuple(y for x, y in d.values()))
        if name == 'update':
            n = dict(d)
            if a:
                n.update(I.get(b_dict(I, [a[0]], {})))
            for x, y in k.items():
                n[('s', x)] = (x, y)
            I.put(o, n)
            return None
        if name == 'pop':
            kk = I.key(a[0])
            if kk not in d:
                if len(a) > 1:
                    return a[1]
                I.error('KeyError')
            n = dict(d)
            r = n.pop(kk)
            I.put(o, n)
            return r[1]
        if name == 'setdefault':
            kk = I.key(a[0])
            if kk in d:
                return I.settle(d[kk][1])
            n = dict(d)
            n[kk] = (a[0], a[1] if len(a) > 1 else None)
            I.put(o, n)
            return n[kk][1]
        if name == 'copy':
            return I.new_dict(d)
        if name == 'clear':
            I.put(o, {})
            return None
    if o.kind == 'set':
        d = I.get(o)
        if name == 'add':
            n = dict(d)
            n[I.key(a[0])] = a[0]
            I.put(o, n)
            return None
        if name in ('union', 'update'):
            n = dict(d)
            for it in a:
                n.update({I.key(x): x for x in I.iterate(it)})
            if name == 'update':
                I.put(o, n)
                return None
            return I.new_ref('set', n)
        if name in ('difference', 'intersection'):
            ks = {I.key(x) for it in a for x in I.iterate(it)}
            return I.new_ref('set', {x: v for x, v in d.items() if (x in ks) == (name == 'intersection')})
        if name == 'issubset':
            return num(set(d) <= {I.key(x) for x in I.iterate(a[0])})
        if name == 'copy':
            return I.new_ref('set', dict(d))
        if name in ('discard', 'remove'):
            n = dict(d)
            n.pop(I.key(a[0]), None)
            I.put(o, n)
            return None
    I.fail('method %s of %s' % (name, o.kind))


def arr_method(I, v, name, a, k):
    N = I.nparr
    if name == 'astype':
        d = need_dtype(I, a[0] if a else k['dtype'])
        cp = k.get('copy')
        if cp is not None and d == v.dtype and I.decide(I.truth(cp)) is False:
            return v
        return N.astype(v, d)
    if name in ('copy',):
        r = N.copy(v)
        r.kind = v.kind
        return r
    if name == 'flatten':
        r = N.reshape(v, [const(-1)])
        return N.copy(r)
    if name == 'ravel':
        return N.reshape(v, [const(-1)])
    if name == 'reshape':
        if len(a) == 1 and not isinstance(a[0], Num):
            return N.reshape(v, shape_arg(I, a[0]))
        return N.reshape(v, [shape_dim(I, x) for x in a])
    if name == 'squeeze':
        ax = a[0] if a else k.get('axis')
        return N.squeeze(v, None if ax is None else I.int_of(ax))
    if name == 'transpose':
        if not a:
            return N.transpose(v)
        ax = I.iterate(a[0]) if len(a) == 1 and not isinstance(a[0], Num) else a
        return N.transpose(v, [I.int_of(x) for x in ax])
    if name in ('sum', 'min', 'max', 'mean', 'any', 'all', 'prod', 'argmin', 'argmax'):
        return red(name)(I, [v] + a, k)
    if name == 'tolist':
        def go(x):
            if isinstance(x, Num):
                return Num(x.t, 'int' if is_int_ty(x.ty) and not is_bool_ty(x.ty) else 'bool' if is_bool_ty(x.ty) else 'float')
            return I.new_list([go(y) for y in I.iterate(x)])
        return go(v)
    if name == 'item':
        if a:
            return I.getitem(v, a[0] if len(a) == 1 else tuple(a))
        n = N.to_scalar(v)
        return Num(n.t, 'int' if is_int_ty(n.ty) else 'float')
    if name == 'fill':
        N.assign_array(v, a[0])
        return None
    if name == 'clip':
        return np_clip(I, [v] + a, {'a_min': k.get('min'), 'a_max': k.get('max')} if k else {})
    if name == 'repeat':
        return np_repeat(I, [v] + a, k)
    if name == 'dot':
        return np_dot(I, [v] + a, k)
    if name == 'nonzero':
        return np_nonzero(I, [v], {})
    if name == 'swapaxes':
        return np_swapaxes(I, [v] + a, k)
    if name == 'cumsum':
        return np_cumsum(I, [v] + a, k)
    if name == '__array__':
        return v
    if name == 'view':
        if not a:
            return v
    if name == 'take':
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        if ax is None and v.ndim == 1:
            return I.getitem(v, a[0])
        axis = I.int_of(ax) % v.ndim
        sl = [SliceV(None, None, None)] * v.ndim
        sl[axis] = a[0]
        return I.getitem(v, tuple(sl))
    if name in ('sort', 'put', 'resize', 'setflags', 'itemset', 'partition', 'byteswap'):
        N.check_writable(v)
    I.fail('array method %s' % name)


# ------------------------------------------------------------------ dask

def dask_like(I, d, r):
    return DaskArr(r, r.shape, d.chunks if len(r.shape) == len(d.shape) else None, r.dtype)


def dask_method(I, d, name, a, k):
    if name in ('compute', 'persist'):
        I.compute_event(d, name)
        v = I.nparr.lazy_value(d)
        return v if name == 'compute' else dask_like(I, d, v)
    if name == 'rechunk':
        return rechunk(I, d, a[0] if a else k.get('chunks', 'auto'))
    if name == 'astype':
        return cast(I, d, need_dtype(I, a[0]))
    if name == 'copy':
        return d
    if name == 'map_blocks':
        return da_map_blocks(I, [a[0], d] + a[1:], k)
    if name in ('max', 'min', 'sum', 'mean', 'any', 'all', 'prod'):
        return red(name)(I, [d] + a, k)
    if isinstance(d.value, Arr) and name in ('transpose', 'reshape', 'squeeze', 'ravel', 'flatten', 'clip', 'repeat'):
        r = arr_method(I, d.value, name, a, k)
        ch = tuple(reversed(d.chunks)) if name == 'transpose' and not a and d.chunks else None
        return DaskArr(r, r.shape, ch, r.dtype)
    I.fail('dask method %s' % name)


def concrete_chunks(I, c):
    return not isinstance(c, SeqV) and all(x.is_const for x in c)


def rechunk(I, d, spec):
    spec = I.settle(spec)
    nd = d.ndim
    if isinstance(spec, str):
        I.calls.append(('rechunk', d, spec, I.loc(), I.st))
        return DaskArr(d.value, d.shape, tuple(SeqV(num(1), Num(leaf(sym('chunk', True, 1)), 'int')) for _ in range(nd)), d.dtype,
                       info=dict(d.info))
    if isinstance(spec, Ref) and spec.kind == 'dict':
        m = {}
        for kk, vv in I.get(spec).values():
            m[I.int_of(kk) % nd] = vv
        specs = [m.get(j, 'keep') for j in range(nd)]
    elif isinstance(spec, Num):
        specs = [spec] * nd
    else:
        specs = list(I.iterate(spec))
        if len(specs) != nd:
            I.error('ValueError', 'Provided chunks are not consistent with shape')
    chunks = []
    for j, (s, n) in enumerate(zip(specs, d.shape)):
        s = I.settle(s)
        if s == 'keep' or s is None:
            chunks.append(d.chunks[j])
        else:
            chunks.append(chunk_dim(I, s, n))
    I.calls.append(('rechunk', d, tuple(chunks), I.loc(), I.st))
    return DaskArr(d.value, d.shape, tuple(chunks), d.dtype, info=dict(d.info))


def chunk_dim(I, s, n):
    """Chunks of one dimension of size n."""
    if isinstance(s, SeqV):
        return s
    if isinstance(s, str):
        return SeqV(num(1), Num(leaf(sym('chunk', True, 1)), 'int'))
    if isinstance(s, Num):
        c = I.concrete(s)
        if c is not None and c == -1:
            return (n,)
        p = I.poly(to_index(I, s), 'chunk size')
        if p.is_const and n.is_const:
            p, m = int(p.value), int(n.value)
            if p <= 0:
                I.error('ValueError', 'chunk size must be positive')
            return tuple(const(x) for x in [p] * (m // p) + ([m % p] if m % p else [])) or (ZERO,)
        d = I.decide(cmp_ge(psub(p, n)))
        if d is True:
            return (n,)
        # chunks of size p and a remainder
        I.require('chunks', cmp_gt(p), 'chunk size may not be positive')
        return regular_chunks(I, p, n)
    items = [I.poly(to_index(I, x)) for x in I.iterate(s)]
    tot = ZERO
    for x in items:
        tot = padd(tot, x)
    I.error_if(t_not(cmp_eq(psub(tot, n))), 'ValueError', 'Chunks do not add up to shape')
    return tuple(items)


def regular_chunks(I, p, n):
    """All the chunks are p, but the last may be the remainder: 1 <= c <= p and (c = p or c = n - j p)."""
    j = sym('j', True, 0)
    rem = psub(n, pmul(j, p))
    # item: p where p <= n - j p, else the remainder
    t = t_ite(cmp_ge(psub(rem, p)), leaf(p), leaf(rem))
    cnt = leaf(pneg(pfloordiv(pneg(n), p)))
    s = SeqV(Num(cnt, 'int'), Num(t, 'int'), Num(leaf(n), 'int'))
    s.index, s.size, s.n = j, p, n
    s.first = Num(t_ite(cmp_ge(psub(n, p)), leaf(p), leaf(n)), 'int')
    return s


@lib('dask.array.core.normalize_chunks')
def da_normalize_chunks(I, a, k):
    spec, shape = kw(a, k, ['chunks', 'shape'], None)
    shape = [I.poly(to_index(I, x)) for x in I.iterate(shape)]
    spec = I.settle(spec)
    if isinstance(spec, (Num, str)):
        specs = [spec] * len(shape)
    else:
        specs = list(I.iterate(spec))
        if len(specs) == 1 and len(shape) > 1 and isinstance(specs[0], Num):
            specs = specs * len(shape)
        if len(specs) != len(shape):
            I.error('ValueError', 'Chunks and shape must be of the same length/dimension')
    out = []
    for s, n in zip(specs, shape):
        s = I.settle(s)
        if s is None:
            s = num(-1)
        if isinstance(s, str):
            # any size may come out: half of the array, say
            if n.is_const and n.value > 1:
                h = int(n.value) // 2
                out.append((const(h), psub(n, const(h))))
            else:
                out.append((n,))
            continue
        out.append(chunk_dim(I, s, n))
    return tuple(tuple(Num(leaf(x), 'int') for x in c) if not isinstance(c, SeqV) else c for c in out)


@lib('dask.base.tokenize', 'dask.tokenize')
def da_tokenize(I, a, k):
    return token_string(I, a, k)


def token_string(I, a, k):
    key = tuple(token_key(I, x) for x in a) + tuple((n, token_key(I, v)) for n, v in sorted(k.items()))
    t = TokenStr('tok')
    t.key = key
    return t


class TokenStr(str):
    """A string that stands for a hash of known values."""
    key = None

    def __add__(self, other):
        r = TokenStr(str(self) + str(other))
        r.key = (self.key, getattr(other, 'key', str(other)))
        return r

    def __radd__(self, other):
        r = TokenStr(str(other) + str(self))
        r.key = (str(other), self.key)
        return r


def token_key(I, v):
    """What a token depends on: enough to tell values apart."""
    v = I.settle(v)
    if isinstance(v, Num):
        return ('num', I.force(v.t), v.ty)
    if isinstance(v, TokenStr):
        return ('tok', v.key)
    if isinstance(v, str) or v is None:
        return ('str', v)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(token_key(I, x) for x in v)
    if isinstance(v, Ref):
        if v.kind in ('list', 'gen'):
            return ('list',) + tuple(token_key(I, x) for x in I.list_items(v))
        if v.kind == 'dict':
            return ('dict',) + tuple((token_key(I, x), token_key(I, y)) for x, y in I.get(v).values())
        return ('inst', v.oid)
    if isinstance(v, Arr):
        f = I.snapshot(v)
        b = tuple(bound_sym(7, j) for j in range(v.ndim))
        return ('arr', tuple(v.shape), v.dtype, I.force(f(b)))
    if isinstance(v, DaskArr):
        return ('dask', id(v.value))
    if isinstance(v, XArr):
        return ('xarr', token_key(I, v.data), v.dims)
    if isinstance(v, Opaque):
        if v.kind == 'dtype':
            return ('dtype', v.ty)
        return ('opaque', getattr(v, 'uid', id(v)))
    if isinstance(v, ClassV):
        return ('class', v.name, id(v))
    if isinstance(v, SliceV):
        return ('slice', token_key(I, v.start), token_key(I, v.stop), token_key(I, v.step))
    if isinstance(v, Partial):
        return ('partial', token_key(I, v.func), tuple(token_key(I, x) for x in v.args),
                tuple((n, token_key(I, x)) for n, x in sorted(v.kwargs.items())))
    if isinstance(v, BoundV):
        return ('bound', id(v.func), token_key(I, v.self_))
    return ('id', id(v))


@lib('dask.array.Array', 'dask.array.core.Array')
def da_Array(I, a, k):
    dsk, name, chunks, dtype, meta, shape = kw(a, k, ['dask', 'name', 'chunks', 'dtype', 'meta', 'shape'], None, None, None)
    ch = []
    for c in I.iterate(chunks):
        if isinstance(c, SeqV):
            ch.append(c)
        else:
            ch.append(tuple(I.poly(to_index(I, x)) for x in I.iterate(c)))
    sh = []
    for c in ch:
        if isinstance(c, SeqV):
            sh.append(I.poly(c.total))
            continue
        t = ZERO
        for x in c:
            t = padd(t, x)
        sh.append(t)
    if shape is not None:
        for x, y in zip(I.iterate(shape), sh):
            if I.decide(cmp_eq(psub(I.poly(to_index(I, x)), y))) is not True:
                I.event('dask-shape', 'the declared shape differs from the chunks')
    d = need_dtype(I, dtype, 'f8') if dtype is not None else (meta.dtype if isinstance(meta, Arr) else None)
    g = dict(I.get(dsk)) if isinstance(dsk, Ref) and dsk.kind == 'dict' else None
    b = BlockValue('graph', graph=g, name=name, where=I.loc(), state=I.st)
    r = DaskArr(b, sh, tuple(ch), d, name)
    I.calls.append(('da.Array', r, None, I.loc(), I.st))
    return r


@lib('dask.array.map_blocks')
def da_map_blocks(I, a, k):
    func = a[0]
    args = [plain(I.settle(x)) for x in a[1:]]
    opts = {}
    for n in ('new_axis', 'chunks', 'dtype', 'meta', 'drop_axis', 'name', 'token', 'enforce_ndim'):
        if n in k:
            opts[n] = k[n]
    kwargs = {n: v for n, v in k.items() if n not in opts}
    arrs = [x for x in args if isinstance(x, DaskArr)]
    if not arrs:
        I.fail('map_blocks without lazy arrays')
    base = max(arrs, key=lambda x: len(x.shape))
    for x in arrs:
        if len(x.shape) != len(base.shape):
            I.fail('map_blocks of arrays of different dimensions')
        for c, e in zip(x.chunks, base.chunks):
            if isinstance(c, SeqV) or isinstance(e, SeqV):
                if c is not e and not (isinstance(c, SeqV) and isinstance(e, SeqV) and
                                       I.force(c.item.t) is I.force(e.item.t)):
                    I.event('dask-chunks', 'blocks of the inputs may not be aligned')
                continue
            if len(c) != len(e) or any(I.decide(cmp_eq(psub(p, q))) is not True for p, q in zip(c, e)):
                I.event('dask-chunks', 'blocks of the inputs may not be aligned')
    d = need_dtype(I, opts['dtype']) if opts.get('dtype') is not None else None
    meta = opts.get('meta')
    if d is None and isinstance(meta, Arr):
        d = meta.dtype
    if d is None:
        I.event('dask-meta', 'the result type of map_blocks is found by calling the function')
        d = base.dtype
    if meta is None:
        I.event('dask-meta', 'the result of map_blocks is found by calling the function on an empty array')
    ch = list(base.chunks)
    if opts.get('drop_axis') is not None:
        dr = [I.int_of(x) for x in ([opts['drop_axis']] if isinstance(opts['drop_axis'], Num) else I.iterate(opts['drop_axis']))]
        ch = [c for j, c in enumerate(ch) if j not in dr]
    if opts.get('new_axis') is not None:
        na = [I.int_of(x) for x in ([opts['new_axis']] if isinstance(opts['new_axis'], Num) else I.iterate(opts['new_axis']))]
        for x in sorted(na):
            ch.insert(x, (ONE,))
    if opts.get('chunks') is not None:
        spec = list(I.iterate(opts['chunks']))
        if len(spec) != len(ch):
            I.error('ValueError', 'Provided chunks have the wrong number of dimensions')
        out = []
        for s, c in zip(spec, ch):
            s = I.settle(s)
            if isinstance(s, Num):
                p = I.poly(to_index(I, s))
                out.append((p,) * len(c) if not isinstance(c, SeqV) else map_seq(I, c, lambda v: Num(leaf(p), 'int')))
            elif isinstance(s, SeqV):
                out.append(s)
            else:
                t = tuple(I.poly(to_index(I, x)) for x in I.iterate(s))
                if not isinstance(c, SeqV) and len(t) != len(c):
                    I.error('ValueError', 'Dimension has a different number of blocks than the chunks specified')
                out.append(t)
        ch = out
    shape = []
    for c in ch:
        if isinstance(c, SeqV):
            shape.append(I.poly(c.total) if c.total is not None else sym('total', True, 0))
        else:
            t = ZERO
            for x in c:
                t = padd(t, x)
            shape.append(t)
    b = BlockValue('map_blocks', func=func, args=args, kwargs=kwargs, where=I.loc(), state=I.st, opts=opts)
    r = DaskArr(b, shape, tuple(ch), d)
    I.calls.append(('map_blocks', r, b, I.loc(), I.st))
    return r


@lib('dask.array.from_array', 'dask.array.asarray')
def da_from_array(I, a, k):
    v = I.settle(a[0])
    if isinstance(v, DaskArr):
        return v
    v = I.nparr.as_array(v)
    ch = k.get('chunks', a[1] if len(a) > 1 else None)
    d = DaskArr(v, v.shape, tuple((n,) for n in v.shape), v.dtype)
    return d if ch is None or isinstance(ch, str) else rechunk(I, d, ch)


@lib('dask.array.map_overlap', 'dask.array.overlap.map_overlap')
def da_map_overlap(I, a, k):
    I.fail('map_overlap')


@lib('dask.compute')
def da_compute(I, a, k):
    out = []
    for x in a:
        x = I.settle(x)
        if isinstance(x, DaskArr):
            I.compute_event(x, 'dask.compute')
            out.append(I.nparr.lazy_value(x))
        elif isinstance(x, XArr) and isinstance(x.data, DaskArr):
            I.compute_event(x.data, 'dask.compute')
            out.append(XArr(I.nparr.lazy_value(x.data), x.dims, x.coords))
        else:
            out.append(x)
    return tuple(out)


# ------------------------------------------------------------------ xarray

@lib('xarray.DataArray')
def xr_DataArray(I, a, k):
    data, coords, dims = kw(a, k, ['data', 'coords', 'dims'], None, None)
    data = I.settle(data)
    if isinstance(data, XArr):
        if dims is None:
            return data
        data = data.data
    if not isinstance(data, (Arr, DaskArr)):
        data = I.nparr.as_array(data)
    n = len(data.shape)
    if dims is None:
        dims = tuple('dim_%d' % j for j in range(n))
    elif isinstance(dims, str):
        dims = (dims,)
    else:
        dims = tuple(I.iterate(dims))
    if len(dims) != n:
        I.error('ValueError', 'different number of dimensions on data and dims')
    c = {}
    if isinstance(coords, Ref) and coords.kind == 'dict':
        for kk, vv in I.get(coords).values():
            c[kk] = coord_value(I, vv)
    return XArr(data, dims, c)


def coord_value(I, v):
    v = I.settle(v)
    if isinstance(v, tuple):
        v = v[1]
    if isinstance(v, XArr):
        v = v.data
    return I.nparr.as_array(v)


def x_method(I, x, name, a, k):
    if name == 'assign_coords':
        m = dict(x.coords)
        src = {}
        if a:
            src = {kk: vv for kk, vv in I.get(a[0]).values()}
        src.update(k)
        for kk, vv in src.items():
            v = coord_value(I, vv)
            if kk in x.dims:
                n = x.shape[x.dims.index(kk)]
                I.error_if(t_not(cmp_eq(psub(v.shape[0], n))), 'ValueError', 'conflicting sizes for dimension %r' % kk)
            m[kk] = v
        return XArr(x.data, x.dims, m)
    if name == 'drop_vars':
        names = [a[0]] if isinstance(a[0], str) else list(I.iterate(a[0]))
        m = dict(x.coords)
        for n in names:
            if n not in m:
                I.error('ValueError', 'cannot drop %r' % n)
            del m[n]
        return XArr(x.data, x.dims, m)
    if name == 'interp':
        return x_interp(I, x, a, k)
    if name in ('compute', 'load'):
        if isinstance(x.data, DaskArr):
            I.compute_event(x.data, name)
            return XArr(I.nparr.lazy_value(x.data), x.dims, x.coords)
        return x
    if name in ('persist',):
        I.compute_event(x.data, name)
        return x
    if name == 'to_numpy':
        return I.nparr.as_array(x.data)
    if name == 'copy':
        d = x.data if isinstance(x.data, DaskArr) else I.nparr.copy(x.data)
        return XArr(d, x.dims, x.coords)
    if name == 'astype':
        return XArr(cast(I, x.data, need_dtype(I, a[0])), x.dims, x.coords)
    if name in ('max', 'min', 'sum', 'mean', 'any', 'all'):
        if a or k.get('dim') is not None or k.get('axis') is not None:
            I.fail('reduction along a dimension')
        return red(name)(I, [x], {})
    if name == 'where':
        if len(a) < 2:
            other = num(0)
            I.fail('where with missing values')
        return I.nparr.where(a[0], x, a[1])
    if name == 'transpose':
        dims = list(a) if a else list(reversed(x.dims))
        order = [x.dims.index(d) for d in dims]
        if isinstance(x.data, DaskArr):
            v = x.data
            if not isinstance(v.value, Arr):
                I.fail('transpose of a lazy array')
            r = I.nparr.transpose(v.value, order)
            return XArr(DaskArr(r, r.shape, tuple(v.chunks[j] for j in order) if v.chunks else None, r.dtype), dims, x.coords)
        return XArr(I.nparr.transpose(x.data, order), dims, x.coords)
    if name == 'rename':
        if a and isinstance(a[0], Ref):
            m = {kk: vv for kk, vv in I.get(a[0]).values()}
            return XArr(x.data, [m.get(d, d) for d in x.dims], {m.get(c, c): v for c, v in x.coords.items()})
        return x
    if name == 'chunk':
        d = x.data
        if not isinstance(d, DaskArr):
            d = DaskArr(d, d.shape, tuple((n,) for n in d.shape), d.dtype)
        return XArr(d, x.dims, x.coords)
    if name == 'isel':
        sel = {kk: vv for kk, vv in I.get(a[0]).values()} if a else dict(k)
        idx = tuple(sel.get(d, SliceV(None, None, None)) for d in x.dims)
        r = getitem(I, x, idx)
        return r
    if name == 'item':
        return to_number(I, x)
    if name == 'clip':
        return np_clip(I, [x] + a, {'a_min': k.get('min'), 'a_max': k.get('max')} if k else {})
    if name == 'reset_coords' or name == 'reset_index':
        m = {c: v for c, v in x.coords.items() if c in x.dims and name == 'reset_coords'}
        return XArr(x.data, x.dims, m)
    if name == 'assign_attrs':
        return x
    I.fail('DataArray method %s' % name)


def x_interp(I, x, a, k):
    k = dict(k)
    method = k.pop('method', 'linear')
    k.pop('assume_sorted', None)
    kwargs = k.pop('kwargs', None)
    targets = {kk: vv for kk, vv in I.get(a[0]).values()} if a else {}
    if a[1:]:
        method = a[1]
    for n in list(k):
        if n in x.dims:
            targets[n] = k.pop(n)
    if k or method != 'linear':
        I.fail('interp with %s %s' % (method, sorted(k)))
    fill = 'nan'
    if kwargs is not None:
        for kk, vv in I.get(kwargs).values():
            if kk == 'fill_value' and vv == 'extrapolate':
                fill = 'extrapolate'
            elif kk == 'fill_value' and vv is None:
                fill = 'extrapolate'
            elif kk in ('bounds_error',):
                pass
            else:
                I.fail('interp with %s' % kk)
    out = x
    for dim, t in targets.items():
        if dim not in x.dims:
            I.error('KeyError', dim)
        t = coord_value(I, t)
        ax = out.dims.index(dim)
        if dim in out.coords:
            c = out.coords[dim]
        else:
            n = out.shape[ax]
            c = I.lam_array((n,), 'i8', lambda idx: leaf(idx[0]), (), True)
        data = out.data
        lazy = isinstance(data, DaskArr)
        v = I.nparr.lazy_value(data) if lazy else data
        r = interp_axis(I, v, ax, c, t, fill)
        if lazy:
            ch = list(data.chunks) if data.chunks else None
            if ch is not None:
                ch[ax] = (t.shape[0],)
            # the type that is declared is that of the data
            r = DaskArr(r, r.shape, tuple(ch) if ch else None, data.dtype if data.dtype[0] == 'f' else 'f8')
        m = dict(out.coords)
        m[dim] = t
        out = XArr(r, out.dims, m)
    return out


def linear_coords(I, c):
    """(c0, step) of coordinates that are linear in the position, or None."""
    b = sym('%c', True, 0)
    t = I.force(I.snapshot(c)((b,)))
    if t.cond is not None:
        return None
    sp = lin_split(t.leaf, b.atoms()[0].id)
    if sp is None or b.atoms()[0].id in sp[0].syms or b.atoms()[0].id in sp[1].syms:
        return None
    return sp[1], sp[0]


def interp_axis(I, v, ax, c, t, fill):
    """Piecewise linear interpolation of v along ax, from the coordinates c to t."""
    f = I.snapshot(v)
    ft = I.snapshot(t)
    n = v.shape[ax]
    lin = linear_coords(I, c)
    sh = list(v.shape)
    sh[ax] = t.shape[0]
    ty = 'f8'     # scipy computes in double precision
    fc = I.snapshot(c)
    cs = None
    if lin is None:
        if not n.is_const:
            I.fail('interpolation from coordinates of unknown kind')
        cs = [I.force(fc((const(j),))) for j in range(int(n.value))]
    elif not I.st.facts.prove_gt(lin[1]):
        I.fail('interpolation coordinates are not increasing')

    def at(idx, p):
        i = list(idx)
        i[ax] = p
        return f(tuple(i))

    def pos(idx, x):
        if lin is not None:
            c0, st = lin
            q = pdiv(psub(x, c0), st)
            cell = pfloordiv(psub(x, c0), st)
            top = psub(n, const(2))
            # the last node belongs to the last cell
            def blend(j):
                w = leaf(psub(q, j))
                return tadd(tmul(tsub(leaf(ONE), w), at(idx, j)), tmul(w, at(idx, padd(j, ONE))))
            inner = t_ite(cmp_ge(psub(top, cell), True), blend_leaf(blend, cell), blend_leaf(blend, top))
            if fill == 'extrapolate':
                return t_ite(cmp_ge(cell, True), inner, blend(ZERO))
            ok = t_and(cmp_ge(psub(x, c0)), cmp_ge(psub(psub(n, ONE), q)))
            nan = leaf(atom_poly(mk_atom('nan', ())))
            return t_ite(ok, inner, nan)
        r = leaf(atom_poly(mk_atom('nan', ())))
        for j in range(len(cs) - 2, -1, -1):
            def seg(p, q2, j=j):
                w = leaf(pdiv(psub(x, p), psub(q2, p)))
                return tadd(tmul(tsub(leaf(ONE), w), at(idx, const(j))), tmul(w, at(idx, const(j + 1))))
            s = tapply(('seg', id(cs), j, tuple(idx)), lambda p, q2: seg(p, q2), cs[j], cs[j + 1])
            inside = t_and(tmap(lambda p: cmp_ge(psub(x, p)), cs[j]), tmap(lambda p: cmp_ge(psub(p, x)), cs[j + 1]))
            r = t_ite(inside, s, r)
        return r

    def el(idx):
        tt = ft((idx[ax],))
        if -1 in tt.syms:
            tt = A.expand(tt)
        return tmap(lambda x: pos(idx, x), tt)
    return I.lam_array(sh, ty, el, f.free | ft.free)


def blend_leaf(blend, j):
    return blend(j)


def interp1(I, x, xp, fp, fill):
    I.fail('numpy.interp')


# ------------------------------------------------------------------ pandas

@lib('pandas.DataFrame')
def pd_DataFrame(I, a, k):
    data, index = kw(a, k, ['data', 'index'], None)
    if isinstance(data, Frame):
        return data
    data = I.nparr.as_array(data)
    ix = None if index is None else I.nparr.as_array(index)
    if ix is not None:
        I.error_if(t_not(cmp_eq(psub(ix.shape[0], data.shape[0]))), 'ValueError', 'Shape of passed values')
    return Frame(data, ix, 'frame')


@lib('pandas.Series')
def pd_Series(I, a, k):
    return pd_DataFrame(I, a, k)


def concrete_index(I, ix):
    n = ix.shape[0]
    if not n.is_const:
        I.fail('index of unknown length')
    f = I.snapshot(ix)
    out = []
    for j in range(int(n.value)):
        t = I.force(f((const(j),)))
        if t.cond is not None or not t.leaf.is_const:
            I.fail('index with unknown labels')
        out.append(t.leaf.value)
    return out


def frame_method(I, o, name, a, k):
    if name == 'reindex':
        new = I.nparr.as_array(a[0] if a else k['index'])
        if k.get('method') is not None:
            I.fail('reindex with a method')
        old = concrete_index(I, o.index)
        lab = concrete_index(I, new)
        where = {}
        for j, v in enumerate(old):
            where.setdefault(v, j)
        if len(where) != len(old):
            I.error('ValueError', 'cannot reindex on an axis with duplicate labels')
        f = I.snapshot(o.data)
        src = [where.get(v) for v in lab]
        nan = leaf(atom_poly(mk_atom('nan', ())))
        fr = Frame(o.data, new, o.kind, src)
        fr.f = f
        return fr
    if name in ('apply', 'interpolate'):
        k = dict(k)
        k.pop('raw', None)
        if name == 'apply':
            fn = a[0]
            if isinstance(fn, FuncV) and len(a) == 1 and not k and len(o.data.shape) == 2:
                # every column alike: the function of all columns at once
                r = I.call(fn, [Frame(o.data, o.index, 'series', o.missing, o.f)], {})
                if not isinstance(r, Frame):
                    I.fail('apply of a function without a column as result')
                return Frame(r.data, r.index, 'frame', r.missing, r.f)
            ok = isinstance(fn, Lib) and fn.path == 'pandas.Series.interpolate'
            if not ok or len(a) > 1:
                I.fail('DataFrame.apply of %r' % (fn,))
            if k.pop('axis', None) not in (None, 'index') :
                I.fail('apply along an axis')
            a = ()
        method = a[0] if a else k.get('method') or 'linear'
        ax = k.get('axis')
        ax = I.concrete(ax) if isinstance(ax, Num) else {None: 0, 'index': 0}.get(ax, ax)
        limit = k.get('limit')
        limit = None if limit is None else I.concrete(limit)
        area = k.get('limit_area')
        way = k.get('limit_direction') or ('backward' if method in ('bfill', 'backfill') else 'forward')
        bad = [x for x in k if x not in ('method', 'axis', 'limit', 'limit_area', 'limit_direction', 'inplace')]
        if bad or ax != 0 or k.get('inplace') or method not in ('linear', 'index', 'values', 'pad', 'ffill', 'bfill',
                                                               'backfill', 'nearest', 'zero', 'slinear'):
            I.fail('interpolate with options')
        if k.get('limit') is not None and limit is None:
            I.fail('interpolate with an unknown limit')
        if limit is not None and limit < 1:
            I.error('ValueError', 'Limit must be greater than 0')
        if o.missing is None:
            return o
        src = o.missing
        f = o.f
        n = len(src)
        known_ = [j for j, s in enumerate(src) if s is not None]
        x = [Fraction(j) for j in range(n)]
        if method not in ('linear', 'pad', 'ffill', 'bfill', 'backfill') and o.index is not None:
            x = concrete_index(I, o.index)
        nan = leaf(atom_poly(mk_atom('nan', ())))

        def cell(j, rest):
            if src[j] is not None:
                return f((const(src[j]),) + rest)
            lo = [y for y in known_ if y < j]
            hi = [y for y in known_ if y > j]
            p, q = lo[-1] if lo else None, hi[0] if hi else None
            far = n + 1 if limit is None else limit
            reached = (way in ('forward', 'both') and p is not None and j - p <= far
                       or way in ('backward', 'both') and q is not None and q - j <= far)
            outside = p is None or q is None
            if not reached or area == 'inside' and outside or area == 'outside' and not outside:
                return nan

            def at(y):
                return f((const(src[y]),) + rest)
            if method in ('pad', 'ffill', 'zero') and p is not None:
                return at(p)
            if method in ('bfill', 'backfill') and q is not None:
                return at(q)
            if method in ('nearest', 'zero', 'slinear', 'pad', 'ffill', 'bfill', 'backfill') and outside:
                return nan
            if q is None:
                return at(p)
            if p is None:
                return at(q)
            if method == 'nearest':
                return at(p) if 2 * (x[j] - x[p]) <= x[q] - x[p] else at(q)
            w = const(Fraction(x[j] - x[p], x[q] - x[p]))
            return tadd(tmul(leaf(psub(ONE, w)), at(p)), tmul(leaf(w), at(q)))

        def el(idx):
            i = idx[0]
            if i.is_const:
                return cell(int(i.value), tuple(idx[1:]))
            r = cell(n - 1, tuple(idx[1:]))
            for j in range(n - 2, -1, -1):
                r = t_ite(cmp_ge(psub(const(j), i), True), cell(j, tuple(idx[1:])), r)
            return r
        sh = (const(n),) + tuple(o.data.shape[1:])
        d = I.lam_array(sh, o.data.dtype if o.data.dtype[0] == 'f' else 'f8', el, f.free)
        return Frame(d, o.index, o.kind)
    if name == 'to_numpy':
        if o.missing is not None:
            I.fail('missing values')
        return o.data
    if name == 'transpose':
        return Frame(I.nparr.transpose(o.data), None, 'frame')
    if name == 'copy':
        return o
    if name == 'astype':
        return Frame(I.nparr.astype(o.data, need_dtype(I, a[0])), o.index, o.kind, o.missing, o.f)
    I.fail('DataFrame method %s' % name)


# ------------------------------------------------------------------ scipy

class SplineRec:
    """A spline or grid interpolant, identified by how it was made."""
    pass


def new_opaque(I, kind, **kwargs):
    uid = len(I.calls)
    o = Opaque(kind, None, uid=uid, **kwargs)
    I.calls.append((kind, o, kwargs, I.loc(), I.st))
    return o


@lib('scipy.interpolate.RectBivariateSpline')
def sp_rbs(I, a, k):
    x, y, z = kw(a, k, ['x', 'y', 'z'])
    rest = dict(zip(['bbox', 'kx', 'ky', 's'], a[3:]))
    rest.update({n: v for n, v in k.items() if n not in ('x', 'y', 'z')})
    x, y, z = [I.nparr.as_array(v) for v in (x, y, z)]
    if x.ndim != 1 or y.ndim != 1 or z.ndim != 2:
        I.error('ValueError', 'x and y should be 1-dimensional')
    I.error_if(t_not(cmp_eq(psub(x.shape[0], z.shape[0]))), 'ValueError', 'x dimension of z must have same number of elements as x')
    I.error_if(t_not(cmp_eq(psub(y.shape[0], z.shape[1]))), 'ValueError', 'y dimension of z must have same number of elements as y')
    return new_opaque(I, 'spline', x=I.nparr.copy(x), y=I.nparr.copy(y), z=I.nparr.copy(z), opts=rest)


@lib('scipy.interpolate.RegularGridInterpolator')
def sp_rgi(I, a, k):
    pts, vals = kw(a, k, ['points', 'values'])
    rest = dict(zip(['method', 'bounds_error', 'fill_value'], a[2:]))
    rest.update({n: v for n, v in k.items() if n not in ('points', 'values')})
    P = [I.nparr.as_array(v) for v in I.iterate(pts)]
    V = I.nparr.as_array(vals)
    for j, p in enumerate(P):
        I.error_if(t_not(cmp_eq(psub(p.shape[0], V.shape[j]))), 'ValueError', 'There are points and values of different sizes')
    return new_opaque(I, 'rgi', points=[I.nparr.copy(p) for p in P], values=I.nparr.copy(V), opts=rest)


@lib('scipy.interpolate.splrep')
def sp_splrep(I, a, k):
    x, y = I.nparr.as_array(a[0]), I.nparr.as_array(a[1])
    rest = dict(k)
    for n, v in zip(['w', 'xb', 'xe', 'k', 'task', 's'], a[2:]):
        rest[n] = v
    I.error_if(t_not(cmp_eq(psub(x.shape[0], y.shape[0]))), 'TypeError', 'lengths of x and y differ')
    return new_opaque(I, 'tck', x=I.nparr.copy(x), y=I.nparr.copy(y), opts=rest)


@lib('scipy.interpolate.splev')
def sp_splev(I, a, k):
    x, tck = kw(a, k, ['x', 'tck'])
    der = k.get('der', a[2] if len(a) > 2 else num(0))
    x = I.nparr.as_array(x)
    f = I.snapshot(x)
    uid = tck.uid
    d = I.concrete(der)
    ext = I.concrete(k['ext']) if 'ext' in k else (I.concrete(a[3]) if len(a) > 3 else 0)

    def el(idx):
        return tmap(lambda p: atom_poly(mk_atom('splev', (uid, p, const(d), const(ext)))), f(idx))
    return I.lam_array(x.shape, 'f8', el, f.free)


def call_opaque(I, o, a, k):
    if o.kind in ('spline', 'rgi'):
        I.evaluations.append((o.kind, I.loc(), I.lazy_depth))
    if o.kind == 'spline':
        x, y = kw(a, k, ['x', 'y'])
        grid = k.get('grid', a[4] if len(a) > 4 else num(True))
        x, y = I.nparr.as_array(x), I.nparr.as_array(y)
        fx, fy = I.snapshot(x), I.snapshot(y)
        uid = o.uid
        dx, dy = k.get('dx', num(0)), k.get('dy', num(0))
        der = (const(I.concrete(dx)), const(I.concrete(dy)))
        extra = {n for n in k} - {'x', 'y', 'grid', 'dx', 'dy', 'mth'}
        if extra:
            I.fail('spline called with %s' % sorted(extra))
        if I.decide(I.truth(grid)):
            if x.ndim != 1 or y.ndim != 1:
                I.error('ValueError', 'x and y should be one-dimensional')

            def el(idx):
                return tapply(('spl', uid, der), lambda p, q: atom_poly(mk_atom('spl', (uid, p, q) + der)),
                              fx((idx[0],)), fy((idx[1],)))
            return I.lam_array((x.shape[0], y.shape[0]), 'f8', el, fx.free | fy.free)
        sh = I.nparr.broadcast([x.shape, y.shape])
        gx, gy = I.nparr.broadcast_fn(x, sh), I.nparr.broadcast_fn(y, sh)

        def el2(idx):
            return tapply(('spl', uid, der), lambda p, q: atom_poly(mk_atom('spl', (uid, p, q) + der)), gx(idx), gy(idx))
        return I.lam_array(sh, 'f8', el2, gx.free | gy.free)
    if o.kind == 'rgi':
        xi = a[0] if a else k['xi']
        k = {n: v for n, v in k.items() if n != 'xi'}
        if len(a) > 1:
            k['method'] = a[1]
        xi = I.settle(xi)
        if isinstance(xi, Arr):
            nd = len(o.points)
            f = I.snapshot(xi)
            comps = [I.nparr.getitem(xi, (Ellipsis, num(j))) for j in range(nd)]
        else:
            comps = [I.nparr.as_array(v) for v in I.iterate(xi)]
        sh = I.nparr.broadcast([c.shape for c in comps])
        gs = [I.nparr.broadcast_fn(c, sh) for c in comps]
        uid = o.uid
        opt = tuple(sorted((n, repr(token_key(I, v))) for n, v in k.items() if v is not None))
        vd = o.values.dtype
        ty = vd if vd[0] == 'f' else 'f8'

        def el(idx):
            return tapply(('rgi', uid, opt), lambda p, q: atom_poly(mk_atom('rgi', (uid, opt, p, q))), *[g(idx) for g in gs])
        if len(gs) != 2:
            I.fail('grid interpolation in %d dimensions' % len(gs))
        free = frozenset().union(*[g.free for g in gs])
        return I.lam_array(sh, ty, el, free)
    if o.kind == 'pool-result':
        return o.value
    I.fail('call of %r' % (o,))


def opaque_method(I, o, name, a, k):
    if o.kind == 'spline' and name in ('__call__', 'ev'):
        if name == 'ev':
            k = dict(k, grid=num(False))
        return call_opaque(I, o, a, k)
    if o.kind == 'rgi' and name == '__call__':
        return call_opaque(I, o, a, k)
    if o.kind == 'pool':
        done = I.list_items(o.state)
        if name in ('apply_async', 'apply', 'map', 'map_async', 'imap', 'starmap', 'starmap_async', 'imap_unordered') and done:
            I.error('ValueError', 'Pool not running')
        if name == 'apply_async':
            fn = a[0]
            args = list(I.iterate(a[1])) if len(a) > 1 else list(I.iterate(k['args'])) if 'args' in k else []
            kws = k.get('kwds', a[2] if len(a) > 2 else None)
            kws = {kv[0]: kv[1] for kv in I.get(kws).values()} if kws is not None else {}
            return Opaque('pool-result', None, value=run_task(I, fn, args, kws), pool=o)
        if name in ('apply',):
            return run_task(I, a[0], list(I.iterate(a[1])) if len(a) > 1 else [], {})
        if name in ('map', 'imap', 'map_async'):
            r = I.new_list([run_task(I, a[0], [x], {}) for x in I.iterate(a[1])])
            return r if name != 'map_async' else Opaque('pool-result', None, value=r, pool=o)
        if name in ('starmap', 'starmap_async'):
            r = I.new_list([run_task(I, a[0], list(I.iterate(x)), {}) for x in I.iterate(a[1])])
            return r if name == 'starmap' else Opaque('pool-result', None, value=r, pool=o)
        if name in ('imap_unordered',):
            I.event('order', 'the results of the tasks come in any order')
            return I.new_list([run_task(I, a[0], [x], {}) for x in I.iterate(a[1])])
        if name in ('close', 'join', 'terminate', '__exit__'):
            if name == 'join' and not done:
                I.error('ValueError', 'Pool is still running')
            name = {'__exit__': 'terminate'}.get(name, name)
            if name == 'terminate' and 'join' in done:
                return None
            I.put(o.state, done + (name,))
            return None
        if name == '__enter__':
            return o
    if o.kind == 'executor':
        done = I.list_items(o.state)
        if name in ('map', 'submit') and done:
            I.error('RuntimeError', 'cannot schedule new futures after shutdown')
        if name == 'map':
            its = [I.iterate(x) for x in a[1:]]
            return I.new_list([run_task(I, a[0], list(t), {}) for t in zip(*its)])
        if name == 'submit':
            return Opaque('pool-result', None, value=run_task(I, a[0], list(a[1:]), dict(k)), pool=o)
        if name in ('shutdown', '__exit__'):
            I.put(o.state, done + ('shutdown',))
        return None
    if o.kind == 'pool-result' and name in ('get', 'result'):
        done = I.list_items(o.pool.state)
        if 'terminate' in done and 'join' not in done[:done.index('terminate')]:
            I.event('race', 'a result is awaited although its pool may have been stopped before')
        return o.value
    if o.kind == 'pool-result' and name in ('wait', 'ready'):
        return None
    if o.kind == 'dtype' and name == 'newbyteorder':
        return o
    if o.kind == 'parallel':
        return None
    if o.kind in ('rgi', 'spline'):
        return Opaque('spline-data', (o.uid, name))
    I.fail('method %s of %r' % (name, o))


def run_task(I, fn, args, kwargs):
    """A task in another process: it gets copies of its arguments."""
    args = [I.nparr.copy(x) if isinstance(x, Arr) else x for x in args]
    return I.call(fn, args, kwargs)


@lib('multiprocessing.Pool', 'multiprocessing.pool.Pool', 'multiprocessing.pool.ThreadPool', 'multiprocessing.dummy.Pool')
def mp_pool(I, a, k):
    return Opaque('pool', state=I.new_list([]))


@lib('concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.ThreadPoolExecutor')
def cf_pool(I, a, k):
    return Opaque('executor', state=I.new_list([]))


@lib('multiprocessing.cpu_count', 'os.cpu_count')
def mp_cpus(I, a, k):
    return Num(leaf(sym('ncpu', True, 1)), 'int')


@lib('scipy.ndimage.map_coordinates')
def nd_map_coordinates(I, a, k):
    src, coords = kw(a, k, ['input', 'coordinates'])
    rest = dict(zip(['output', 'order', 'mode', 'cval', 'prefilter'], a[2:]))
    rest.update({n: v for n, v in k.items() if n not in ('input', 'coordinates')})
    out = I.settle(rest.get('output'))
    order = rest.get('order', num(3))
    order = I.concrete(order)
    mode = rest.get('mode', 'constant')
    v, c = I.nparr.as_array(src), I.nparr.as_array(coords)
    nd = v.ndim
    f, g = I.snapshot(v), I.snapshot(c)
    sh = tuple(c.shape[1:])
    n = v.shape
    uid = len(I.calls)
    I.calls.append(('map_coordinates', None, {'order': order, 'mode': mode}, I.loc(), I.st))
    if order == 1 and mode == 'nearest' and nd == 2:
        def clip(x, d):
            top = psub(d, ONE)
            return t_ite(cmp_ge(x), t_ite(cmp_ge(psub(top, x)), leaf(x), leaf(top)), leaf(ZERO))

        def el(idx):
            cy = I.base_simplify(g((ZERO,) + tuple(idx)))
            cx = I.base_simplify(g((ONE,) + tuple(idx)))
            if -1 in cy.syms:
                cy = A.expand(cy)
            if -1 in cx.syms:
                cx = A.expand(cx)
            cy = tmap(lambda p: clip(p, n[0]), cy)
            cx = tmap(lambda p: clip(p, n[1]), cx)

            def blend(y, x):
                def cell(p, d):
                    fl = pfloordiv(p, ONE) if not poly_is_int(p) else p
                    if poly_is_int(p):
                        return [(leaf(fl), ONE)]
                    w = psub(p, fl)
                    return [(leaf(fl), psub(ONE, w)), (leaf(padd(fl, ONE)), w)]
                r = leaf(ZERO)
                for iy, wy in cell(y, n[0]):
                    for ix, wx in cell(x, n[1]):
                        r = tadd(r, tmul(leaf(pmul(wy, wx)), f((iy.leaf, ix.leaf))))
                return r
            return tapply(('mapc', uid, tuple(idx)), blend, cy, cx)
    else:
        def el(idx):
            cs = [g((const(j),) + tuple(idx)) for j in range(nd)]
            opt = (uid, str(order), str(mode))
            return tapply(('mapc', opt), lambda p, q: atom_poly(mk_atom('mapc', (opt, p, q))), *cs[:2])
    if isinstance(out, Arr):
        for p, q in zip(out.shape, sh):
            I.error_if(t_not(cmp_eq(psub(p, q))), 'RuntimeError', 'output shape not correct')
        r = I.lam_array(sh, out.dtype, el, f.free | g.free)
        I.nparr.assign_array(out, r)
        return out
    dt = v.dtype if out is None else need_dtype(I, out)
    return I.lam_array(sh, dt, el, f.free | g.free)
