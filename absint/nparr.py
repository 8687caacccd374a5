"""Numpy arrays and Cython memoryviews over the array domain."""
import ast
import itertools
import numpy as np
from fractions import Fraction
from .terms import (ATOMS, AnalysisError, FALSE, ONE, PI, Poly, TRUE, Tree, ZERO, atom_poly, bool_atom, cmp_eq, cmp_ge,
                    cmp_gt, const, leaf, mk_atom, padd, pdiv, pfloordiv, pmod, pmul, pneg, poly_is_int, ppow, precip,
                    pscale, psub, ptrunc, sym, t_and, t_ite, t_not, t_or, tadd, tapply, tfn, tmap, tmul, tneg, tsub,
                    node, tree_leaves)
from . import arrays as A
from .vals import *

DEG2RAD = pscale(PI, Fraction(1, 180))
RAD2DEG = pscale(precip(PI), 180)

_bound = {}


def bound_sym(level, k):
    """A bound index variable of a canonical term."""
    r = _bound.get((level, k))
    if r is None:
        r = sym('%%%d_%d' % (level, k), True, 0)
        _bound[(level, k)] = r
    return r


def sign_first(p):
    """A fixed choice between p and -p."""
    if not p.terms or p.is_const:
        return True
    m = min((m for m in p.terms if m), key=lambda m: tuple((a, e) for a, e in m))
    return p.terms[m] > 0


def t_sign(t):
    return tmap(lambda p: t_ite(cmp_gt(p), leaf(ONE), t_ite(cmp_gt(pneg(p)), leaf(pneg(ONE)), leaf(ZERO))), t)


def t_abs(t):
    return tmap(lambda p: t_ite(cmp_ge(p), leaf(p), leaf(pneg(p))), t)


def t_min(a, b):
    return tapply('min', lambda p, q: t_ite(cmp_ge(psub(q, p)), leaf(p), leaf(q)), a, b)


def t_max(a, b):
    return tapply('max', lambda p, q: t_ite(cmp_ge(psub(p, q)), leaf(p), leaf(q)), a, b)


def t_floor(t):
    return tmap(lambda p: p if poly_is_int(p) else pfloordiv(p, ONE), t)


def t_round(t):
    def f(p):
        if p.is_const:
            return const(round(Fraction(p.value)))
        return p if poly_is_int(p) else atom_poly(mk_atom('rint', (p,), True))
    return tmap(f, t)


def t_opaque(name):
    return lambda *ts: _opq(name, ts)


def _opq(name, ts):
    if len(ts) == 1:
        return tmap(lambda p: atom_poly(mk_atom('f:' + name, (p,))), ts[0])
    return tapply('f:' + name, lambda p, q: atom_poly(mk_atom('f:' + name, (p, q))), ts[0], ts[1])


def b2(f):
    return lambda x, y: tapply(f, CMP[f], x, y)


CMP = {'lt': lambda p, q: cmp_gt(psub(q, p)), 'gt': lambda p, q: cmp_gt(psub(p, q)),
       'le': lambda p, q: cmp_ge(psub(q, p)), 'ge': lambda p, q: cmp_ge(psub(p, q)),
       'eq': lambda p, q: cmp_eq(psub(p, q))}


class NP:
    def __init__(self, interp):
        self.I = interp
        I = interp
        deg = lambda c: (lambda t: tmap(lambda p: pmul(p, c), t))
        self.fns = {
            'add': tadd, 'subtract': tsub, 'multiply': tmul,
            'divide': I.safe_div, 'true_divide': I.safe_div,
            'negative': tneg, 'positive': lambda t: t,
            'absolute': t_abs, 'abs': t_abs, 'fabs': t_abs,
            'sqrt': lambda t: tfn('sqrt', t),
            'sin': lambda t: tfn('sin', t), 'cos': lambda t: tfn('cos', t), 'tan': lambda t: tfn('tan', t),
            'arcsin': lambda t: tfn('asin', t), 'arccos': lambda t: tfn('acos', t),
            'asin': lambda t: tfn('asin', t), 'acos': lambda t: tfn('acos', t),
            'arctan': lambda t: tfn('atan2', t, leaf(ONE)), 'atan': lambda t: tfn('atan2', t, leaf(ONE)),
            'arctan2': lambda y, x: tfn('atan2', y, x), 'atan2': lambda y, x: tfn('atan2', y, x),
            'deg2rad': deg(DEG2RAD), 'radians': deg(DEG2RAD), 'rad2deg': deg(RAD2DEG), 'degrees': deg(RAD2DEG),
            'sign': t_sign, 'square': lambda t: tmul(t, t),
            'hypot': lambda x, y: tfn('sqrt', tadd(tmul(x, x), tmul(y, y))),
            'reciprocal': lambda t: I.safe_div(leaf(ONE), t),
            'minimum': t_min, 'maximum': t_max, 'fmin': t_min, 'fmax': t_max,
            'greater': b2('gt'), 'less': b2('lt'), 'greater_equal': b2('ge'), 'less_equal': b2('le'),
            'equal': b2('eq'), 'not_equal': lambda x, y: t_not(b2('eq')(x, y)),
            'logical_and': lambda x, y: t_and(truth(x), truth(y)),
            'logical_or': lambda x, y: t_or(truth(x), truth(y)),
            'logical_not': lambda x: t_not(truth(x)),
            'logical_xor': lambda x, y: t_ite(truth(x), t_not(truth(y)), truth(y)),
            'isnan': lambda t: FALSE, 'isinf': lambda t: FALSE, 'isfinite': lambda t: TRUE,
            'floor': t_floor, 'ceil': lambda t: tneg(t_floor(tneg(t))), 'trunc': lambda t: tmap(ptrunc, t),
            'rint': t_round, 'exp': t_opaque('exp'), 'log': t_opaque('log'), 'log10': t_opaque('log10'),
            'power': self.power, 'float_power': self.power,
            'floor_divide': self.floordiv, 'remainder': self.mod, 'mod': self.mod,
            'bitwise_and': lambda x, y: self.bits(ast.BitAnd, x, y), 'bitwise_or': lambda x, y: self.bits(ast.BitOr, x, y),
            'bitwise_xor': lambda x, y: self.bits(ast.BitXor, x, y),
            'copysign': lambda x, y: tmul(t_abs(x), tmap(lambda p: t_ite(cmp_ge(p), leaf(ONE), leaf(pneg(ONE))), y)),
            'conjugate': lambda t: t,
            'left_shift': lambda x, y: self.bits(ast.LShift, x, y),
            'right_shift': lambda x, y: self.bits(ast.RShift, x, y),
        }
        self._types = {}

    # ------------------------------------------------------------------ element functions
    def power(self, x, y):
        if y.cond is None and y.leaf.is_const:
            n = Fraction(y.leaf.value)
            if n.denominator == 1:
                n = int(n)
                if n >= 0:
                    return tmap(lambda p: ppow(p, n), x)
                return tmap(lambda p: ppow(precip(p), -n), x)
            if n == Fraction(1, 2):
                return tfn('sqrt', x)
        return tapply('pow', lambda p, q: atom_poly(mk_atom('pow', (p, q))), x, y)

    def floordiv(self, x, y):
        def d(p, q):
            if not q.terms:
                return atom_poly(mk_atom('div0', (p,), True))
            return pfloordiv(p, q)
        return tapply('//', d, x, y)

    def mod(self, x, y):
        return tsub(x, tmul(y, self.floordiv(x, y)))

    def bits(self, op, x, y):
        if op is ast.LShift:
            return tapply('<<', lambda p, q: pmul(p, const(2 ** int(q.value))), x, y)
        if op is ast.RShift:
            return tapply('>>', lambda p, q: pfloordiv(p, const(2 ** int(q.value))), x, y)
        f = {ast.BitAnd: t_and, ast.BitOr: t_or, ast.BitXor: lambda p, q: t_ite(p, t_not(q), q)}[op]

        def isb(t):
            return all(p.is_const and p.value in (0, 1) for p in tree_leaves(t))
        if isb(x) and isb(y):
            return f(x, y)

        def c(p, q):
            if p.is_const and q.is_const:
                a, b = int(p.value), int(q.value)
                return const({ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[op])
            if op is ast.BitAnd and q.is_const and q.value >= 0 and (int(q.value) & (int(q.value) + 1)) == 0:
                return pmod(p, const(q.value + 1))
            return atom_poly(mk_atom('f:' + op.__name__, (p, q), True))
        return tapply('bit' + op.__name__, c, x, y)

    # ------------------------------------------------------------------ types
    def ufunc_type(self, name, tys):
        key = (name, tuple(tys))
        r = self._types.get(key)
        if r is None:
            fn = getattr(np, {'abs': 'absolute', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
                              'atan2': 'arctan2', 'clip': 'clip'}.get(name, name))
            ops = []
            for t in tys:
                if isinstance(t, tuple):          # an array
                    ops.append(np.ones((1,), np.dtype(t[0])))
                else:
                    ops.append(np_operand(t))
            try:
                with np.errstate(all='ignore'):
                    if name == 'matmul':
                        r = DT(np.result_type(*ops))
                    else:
                        r = DT(fn(*ops).dtype)
            except TypeError:
                r = None
            self._types[key] = r
        if r is None:
            self.I.error('TypeError', 'ufunc %s not supported for the input types' % name)
        return r

    # ------------------------------------------------------------------ conversions
    def as_array(self, v, dtype=None):
        I = self.I
        v = I.settle(v)
        if isinstance(v, Choice):
            return I.choose(v, lambda x: self.as_array(x, dtype))
        if isinstance(v, Arr):
            if v.kind == 'mv':
                v = Arr(v.buf, v.shape, v.map, 'np', v.copied)
            if dtype is not None and dtype != v.dtype:
                return self.astype(v, dtype)
            return v
        if isinstance(v, XArr):
            return self.as_array(v.data, dtype)
        if isinstance(v, DaskArr):
            I.compute_event(v, 'conversion to a numpy array')
            return self.as_array(self.lazy_value(v), dtype)
        if isinstance(v, Frame):
            return self.as_array(v.data, dtype)
        if isinstance(v, Num):
            d = dtype or self.storage(v.ty)
            return self.scalar_array(self.convert(v.t, v.ty, d), d)
        if isinstance(v, (tuple, RangeV)) or isinstance(v, Ref) and v.kind in ('list', 'gen'):
            if isinstance(v, RangeV):
                r = self.arange(v.start, v.stop, v.step, dtype or 'i8')
                return r
            items = I.iterate(v)
            return self.from_items(items, dtype)
        if isinstance(v, Ref) and v.kind == 'inst':
            f, _ = v.cls.find('__array__')
            if f is not None:
                return self.as_array(I.call(BoundV(f, v), [], {}), dtype)
        if v is None:
            return self.new_object_array(v)
        I.fail('array of %r' % (v,))

    def new_object_array(self, v):
        self.I.fail('array of objects')

    def lazy_value(self, d):
        if isinstance(d.value, Arr):
            return d.value
        return self.I.libs.block_value(self.I, d)

    def storage(self, ty):
        return {'int': 'i8', 'float': 'f8', 'bool': 'b1'}.get(ty, ty)

    def scalar_array(self, t, dtype):
        return self.I.lam_array((), dtype, lambda idx: t, A.free_of(t), True)

    def from_items(self, items, dtype=None):
        I = self.I
        if not items:
            return I.lam_array((ZERO,), dtype or 'f8', lambda i: leaf(ZERO))
        items = [I.settle(x) for x in items]
        if all(isinstance(x, Num) for x in items):
            d = dtype or DT(np.result_type(*[np.array(np_operand(x.ty)) for x in items]))
            vals = [self.convert(x.t, x.ty, d) for x in items]
            return self.table(vals, d)
        arrs = [self.as_array(x) for x in items]
        return self.stack(arrs, 0, dtype)

    def table(self, vals, dtype):
        return self.I.new_array((const(len(vals)),), dtype, A.Tab(vals, is_int_ty(dtype)))

    def convert(self, t, src, dst):
        """The element value when stored in an array of another type."""
        if dst in ('b1', 'bool'):
            return t if is_bool_ty(src) else truth(t)
        if is_int_ty(dst) and not is_int_ty(src):
            return tmap(ptrunc, t)
        return t

    def astype(self, v, dtype):
        if v.whole() and is_int_ty(v.dtype) == is_int_ty(dtype) and not is_bool_ty(dtype) and not is_bool_ty(v.dtype):
            # the same values: an immutable content can be shared
            return self.I.new_array(v.shape, dtype, self.I.content(v.buf))
        f = self.I.snapshot(v)
        src = v.dtype
        r = self.I.lam_array(v.shape, dtype, lambda idx: self.convert(f(idx), src, dtype), f.free)
        return r

    def copy(self, v):
        if v.whole():
            return self.I.new_array(v.shape, v.dtype, self.I.content(v.buf))
        f = self.I.snapshot(v)
        return self.I.lam_array(v.shape, v.dtype, f, f.free)

    def arange(self, start, stop, step, dtype=None):
        I = self.I
        tys = [start.ty, stop.ty, step.ty]
        d = dtype or DT(np.result_type(*[np.array(np_operand(t)) for t in tys]))
        st = I.concrete(step)
        if st is None or st == 0:
            I.fail('arange with an unknown step')
        n = tmap(lambda p: pneg(pfloordiv(p, const(st))), tsub(start.t, stop.t))     # ceil((stop-start)/step)
        n = I.simp(t_max(n, leaf(ZERO)))
        n = I.poly(n, 'size of arange')
        s0, stt = start.t, step.t

        def f(idx):
            return tadd(s0, tmul(stt, leaf(idx[0])))
        a = I.lam_array((n,), d, lambda idx: self.convert(f(idx), 'i8' if is_int_ty(d) else d, d),
                        A.free_of(s0, stt), True)
        return a

    def size(self, v):
        n = ONE
        for d in v.shape:
            n = pmul(n, d)
        return n

    def to_scalar(self, v):
        I = self.I
        if isinstance(v, DaskArr):
            v = self.lazy_value(v)
        n = self.size(v)
        if not (n.is_const and n.value == 1):
            I.error('TypeError', 'only size-1 arrays can be converted to scalars')
        f = I.snapshot(v)
        return Num(f(tuple(ZERO for _ in v.shape)), v.dtype)

    # ------------------------------------------------------------------ broadcasting
    def same_dim(self, a, b):
        return a is b or self.I.st.facts.prove_eq(psub(a, b))

    def is_one(self, d):
        return d.is_const and d.value == 1

    def broadcast(self, shapes):
        I = self.I
        n = max(len(s) for s in shapes)
        out = [ONE] * n
        for s in shapes:
            for k, d in enumerate(s):
                j = n - len(s) + k
                if self.is_one(d):
                    continue
                if self.is_one(out[j]):
                    out[j] = d
                    continue
                if self.same_dim(out[j], d):
                    if d.is_const:
                        out[j] = d
                    continue
                # may be one
                for x in (d, out[j]):
                    c = I.decide(cmp_eq(psub(x, ONE)))
                    if c is None and not x.is_const:
                        raise_split(I, cmp_eq(psub(x, ONE)))
                I.error_if(t_not(cmp_eq(psub(out[j], d))), 'ValueError', 'operands could not be broadcast together')
        return tuple(out)

    def broadcast_fn(self, v, shape):
        """idx in the broadcast shape -> element Tree."""
        f = self.I.snapshot(v)
        off = len(shape) - v.ndim
        ones = [self.is_one(d) and not self.is_one(shape[off + k]) for k, d in enumerate(v.shape)]

        def g(idx):
            return f(tuple(ZERO if o else i for i, o in zip(idx[off:], ones)))
        g.free = f.free
        return g

    # ------------------------------------------------------------------ ufuncs
    def wrap_like(self, args, fn):
        """Apply fn to the plain arrays under DataArrays and lazy arrays."""
        I = self.I
        x = next((a for a in args if isinstance(a, XArr)), None)
        if x is not None:
            for a in args:
                if isinstance(a, XArr) and a.dims != x.dims:
                    if set(a.dims) != set(x.dims):
                        I.fail('DataArrays with different dimensions')
                    I.fail('DataArrays with reordered dimensions')
            r = self.wrap_like([a.data if isinstance(a, XArr) else a for a in args], fn)
            coords = dict(x.coords)
            if isinstance(r, (Arr, DaskArr)) and len(r.shape) == len(x.dims):
                return XArr(r, x.dims, coords)
            return XArr(r, ()) if isinstance(r, (Arr, DaskArr)) else r
        d = next((a for a in args if isinstance(a, DaskArr)), None)
        if d is not None:
            vals = [a.value if isinstance(a, DaskArr) else a for a in args]
            if any(isinstance(v, BlockValue) for v in vals):
                vals = [self.lazy_value(a) if isinstance(a, DaskArr) else a for a in args]
            r = fn(vals)
            if isinstance(r, Num):
                r = self.as_array(r)
            ch = d.chunks
            for a in args:
                if isinstance(a, DaskArr) and len(a.shape) == len(r.shape):
                    ch = a.chunks
            return DaskArr(r, r.shape, ch if len(r.shape) == len(d.shape) else None, r.dtype)
        return fn(args)

    def ufunc(self, name, args):
        I = self.I
        args = [I.settle(a) for a in args]
        for k, a in enumerate(args):
            if isinstance(a, Choice):
                return I.choose(a, lambda x: self.ufunc(name, args[:k] + [x] + args[k + 1:]))
        if any(isinstance(a, (XArr, DaskArr)) for a in args):
            return self.wrap_like(args, lambda vs: self.ufunc(name, vs))
        args = [a if isinstance(a, (Num, Arr)) else self.as_array(a) for a in args]
        args = [self.as_array(a) if isinstance(a, Arr) else a for a in args]
        if name == 'invert':
            x = args[0]
            ty = x.ty if isinstance(x, Num) else x.dtype
            el = t_not if is_bool_ty(ty) else (lambda t: tsub(tneg(t), leaf(ONE)))
            ty = 'b1' if is_bool_ty(ty) else ty
        else:
            el = self.fns.get(name)
            if el is None:
                I.fail('numpy function %s' % name)
            ty = self.ufunc_type(name, [(a.dtype,) if isinstance(a, Arr) else a.ty for a in args])
        if all(isinstance(a, Num) for a in args):
            t = el(*[a.t for a in args])
            return Num(t, ty)
        if all(isinstance(a, Num) or not a.shape for a in args):
            return Num(el(*[a.t if isinstance(a, Num) else self.to_scalar(a).t for a in args]), ty)
        return self.elementwise(el, args, ty)

    def elementwise(self, el, args, ty):
        I = self.I
        shape = self.broadcast([a.shape for a in args if isinstance(a, Arr)])
        fns = []
        free = set()
        for a in args:
            if isinstance(a, Num):
                t = a.t
                free |= A.free_of(t)
                fns.append(lambda idx, t=t: t)
            else:
                f = self.broadcast_fn(a, shape)
                free |= f.free
                fns.append(f)
        free |= A.free_of(list(shape))
        return I.lam_array(shape, ty, lambda idx: el(*[f(idx) for f in fns]), frozenset(free))

    UF = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply', ast.Div: 'divide', ast.FloorDiv: 'floor_divide',
          ast.Mod: 'remainder', ast.Pow: 'power', ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or',
          ast.BitXor: 'bitwise_xor', ast.LShift: 'left_shift', ast.RShift: 'right_shift'}

    def array_binop(self, op, a, b):
        I = self.I
        if isinstance(a, Frame) or isinstance(b, Frame):
            fr = a if isinstance(a, Frame) else b
            r = self.array_binop(op, a.data if isinstance(a, Frame) else a, b.data if isinstance(b, Frame) else b)
            return Frame(r, fr.index, fr.kind)
        if op is ast.MatMult:
            return self.wrap_like([a, b], lambda v: self.matmul(*v))
        for x in (a, b):
            if isinstance(x, Ref) and x.kind not in ('list', 'gen'):
                I.error('TypeError', 'unsupported operand')
            if isinstance(x, Opaque):
                return Opaque('arith', (op.__name__, a, b))
        return self.ufunc(self.UF[op], [a, b])

    def matmul(self, a, b):
        I = self.I
        a, b = self.as_array(a), self.as_array(b)
        n = a.shape[-1]
        m = b.shape[-2] if b.ndim > 1 else b.shape[0]
        I.error_if(t_not(cmp_eq(psub(n, m))), 'ValueError', 'matmul')
        n = n if n.is_const else m
        if not n.is_const:
            I.fail('matmul of unknown size')
        fa, fb = I.snapshot(a), I.snapshot(b)
        ty = DT(np.result_type(np.dtype(a.dtype), np.dtype(b.dtype)))
        sa = a.shape[:-1]
        if a.ndim > 2 or b.ndim > 2:
            I.fail('matmul of stacked matrices')
        sb = b.shape[1:] if b.ndim > 1 else ()

        def f(idx):
            ia, ib = idx[:len(sa)], idx[len(sa):]
            r = leaf(ZERO)
            for k in range(int(n.value)):
                r = tadd(r, tmul(fa(ia + (const(k),)), fb((const(k),) + ib)))
            return r
        r = I.lam_array(sa + sb, ty, f, fa.free | fb.free)
        return r if r.shape else self.to_scalar(r)

    def array_compare(self, op, a, b):
        nm = {ast.Lt: 'less', ast.Gt: 'greater', ast.LtE: 'less_equal', ast.GtE: 'greater_equal', ast.Eq: 'equal',
              ast.NotEq: 'not_equal'}[op]
        if isinstance(a, Ref) and a.kind not in ('list', 'gen') or isinstance(b, Ref) and b.kind not in ('list', 'gen'):
            return Num(FALSE if op is ast.Eq else TRUE, 'bool')
        return self.ufunc(nm, [a, b])

    # ------------------------------------------------------------------ where, clip
    def where(self, c, a, b):
        def go(vs):
            c, a, b = [v if isinstance(v, (Num, Arr)) else self.as_array(v) for v in vs]
            ta = [(x.dtype,) if isinstance(x, Arr) else x.ty for x in (a, b)]
            ty = self.ufunc_type('add' if not all(self._b(t) for t in ta) else 'logical_or', ta)
            el = lambda c, x, y: t_ite(truth_b(c), x, y)
            if all(isinstance(v, Num) for v in (c, a, b)):
                return self.as_array(Num(el(c.t, a.t, b.t), ty))
            return self.elementwise(el, [c, a, b], ty)
        return self.wrap_like([c, a, b], go)

    @staticmethod
    def _b(t):
        return is_bool_ty(t[0] if isinstance(t, tuple) else t)

    # ------------------------------------------------------------------ reductions
    def reduce(self, name, v, axis=None, keepdims=False):
        I = self.I
        if isinstance(v, (XArr, DaskArr)):
            def go(vs):
                return self.as_array(self.reduce(name, vs[0], axis, keepdims))
            if isinstance(v, XArr):
                d = v.data
                if isinstance(d, DaskArr):
                    r = go([self.lazy_value(d)])
                    return XArr(DaskArr(r, r.shape, (), r.dtype), ()) if axis is None else I.fail('reduction along an axis')
                if axis is not None:
                    I.fail('reduction along an axis')
                return XArr(go([d]), ())
            r = go([self.lazy_value(v)])
            return DaskArr(r, r.shape, (), r.dtype)
        v = self.as_array(v)
        if axis is not None and isinstance(axis, Num):
            axis = I.int_of(axis) % max(v.ndim, 1)
        if isinstance(axis, tuple):
            axes = sorted(I.int_of(x) % v.ndim for x in axis)
        else:
            axes = list(range(v.ndim)) if axis is None else [axis]
        f = I.snapshot(v)
        dims = [v.shape[a] for a in axes]
        keep = [k for k in range(v.ndim) if k not in axes]
        shape = tuple(v.shape[k] for k in keep)
        n = ONE
        for d in dims:
            n = pmul(n, d)
        if v.dtype == 'O':
            I.fail('reduction of objects')
        ty = {'any': 'b1', 'all': 'b1', 'argmin': 'i8', 'argmax': 'i8'}.get(name)
        if ty is None:
            if name in ('sum', 'prod'):
                ty = 'i8' if v.dtype in ('b1', 'i1', 'i2', 'i4', 'i8') else v.dtype
            elif name in ('mean', 'std', 'var', 'median'):
                ty = 'f8' if is_int_ty(v.dtype) else v.dtype
            else:
                ty = v.dtype

        def full(idx, sub):
            r = [None] * v.ndim
            for k, i in zip(keep, idx):
                r[k] = i
            for k, i in zip(axes, sub):
                r[k] = i
            return tuple(r)
        small = all(d.is_const for d in dims) and n.value <= 6000
        if small and name in ('min', 'max') and n.value > 6:
            # a fold of many unknown values says nothing that the reduction itself does not
            some = [f(full([ZERO] * len(keep), [const(x) for x in s])) for s in itertools.islice(
                itertools.product(*[range(int(d.value)) for d in dims]), 0, None, max(1, int(n.value) // 5))]
            small = all(t.cond is None and t.leaf.is_const for t in some)
        if small:
            ranges = [range(int(d.value)) for d in dims]
            if name in ('min', 'max') and n.value == 0:
                I.error('ValueError', 'zero-size array to reduction operation')

            def el(idx):
                items = (f(full(idx, [const(x) for x in s])) for s in itertools.product(*ranges))
                return self.fold(name, items, int(n.value), v.dtype)
        else:
            lvl = len(_bound)
            bs = [bound_sym(v.ndim, k) for k in range(len(dims))]
            facts = I.st.facts

            def el(idx):
                g = facts
                for b, d in zip(bs, dims):
                    for c in (cmp_ge(b), cmp_ge(psub(psub(d, b), ONE))):
                        g2 = g.assume(c)
                        if g2 is not None:
                            g = g2
                t = A.expand(f(full(idx, bs)), g)
                if name in ('any', 'all'):
                    t = truth_b(t) if v.dtype != 'b1' else t
                    t = g.simplify(t)
                    if t is TRUE or t is FALSE:
                        return t
                    return node(mk_atom('lam', (name, t, tuple(dims)), True), TRUE, FALSE)
                t = g.simplify(t)

                def lam(nm, x):
                    return leaf(atom_poly(mk_atom('lam', (nm, x, tuple(dims)), is_int_ty(ty))))
                if name in ('min', 'max'):
                    # the absolute value, and values with the sign reversed
                    if name == 'max' and t.cond is not None and t.cond.kind in ('gt', 'ge') and t.hi.cond is None \
                            and t.lo.cond is None and t.hi.leaf is pneg(t.lo.leaf) \
                            and t.cond.args[0] in (t.hi.leaf, t.lo.leaf):
                        up = t.hi.leaf if t.cond.args[0] is t.hi.leaf else None
                        if up is not None:
                            x = up if sign_first(up) else pneg(up)
                            a1, b1 = lam('max', leaf(x)), tmap(pneg, lam('min', leaf(x)))
                            return t_ite(cmp_ge(psub(a1.leaf, b1.leaf), True), a1, b1)
                    if t.cond is None and not sign_first(t.leaf):
                        return tmap(pneg, lam('min' if name == 'max' else 'max', leaf(pneg(t.leaf))))
                return lam(name, t)
        if not shape and not keepdims:
            t = el(())
            return Num(t, ty)
        if keepdims:
            shape2 = tuple(ONE if k in axes else v.shape[k] for k in range(v.ndim))
            return I.lam_array(shape2, ty, lambda idx: el(tuple(i for k, i in enumerate(idx) if k not in axes)), f.free)
        return I.lam_array(shape, ty, el, f.free)

    def fold(self, name, items, n, dtype):
        I = self.I
        if name == 'any':
            r = FALSE
            for t in items:
                r = t_or(r, truth_b(I.force(t)))
                if r is TRUE:
                    break
            return r
        if name == 'all':
            r = TRUE
            for t in items:
                r = t_and(r, truth_b(I.force(t)))
                if r is FALSE:
                    break
            return r
        r = None
        if name in ('argmin', 'argmax'):
            best = None
            for k, t in enumerate(items):
                if best is None:
                    best, arg = t, leaf(ZERO)
                    continue
                c = tapply('gt', lambda p, q: cmp_gt(psub(p, q)), *((t, best) if name == 'argmax' else (best, t)))
                best, arg = t_ite(c, t, best), t_ite(c, leaf(const(k)), arg)
            return arg
        for t in items:
            if r is None:
                r = t
            elif name in ('sum', 'mean'):
                r = tadd(r, t)
            elif name == 'prod':
                r = tmul(r, t)
            elif name == 'min':
                r = t_min(r, t)
            elif name == 'max':
                r = t_max(r, t)
            else:
                I.fail('reduction %s' % name)
        if r is None:
            r = leaf(ONE) if name == 'prod' else leaf(ZERO)
        if name == 'mean':
            r = tmul(r, leaf(const(Fraction(1, n)))) if n else leaf(atom_poly(mk_atom('div0', (ZERO,))))
        return r

    # ------------------------------------------------------------------ indexing
    def norm_index(self, v, idx):
        I = self.I
        items = list(idx) if isinstance(idx, tuple) else [idx]
        items = [I.settle(x) for x in items]
        n = 0
        for x in items:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, (Arr, XArr)) and self.elem_dtype(x) == 'b1':
                n += len(x.shape)
            else:
                n += 1
        if any(x is Ellipsis for x in items):
            k = [j for j, x in enumerate(items) if x is Ellipsis][0]
            items[k:k + 1] = [SliceV(None, None, None)] * (v.ndim - n)
        else:
            items += [SliceV(None, None, None)] * (v.ndim - n)
        if n > v.ndim:
            I.error('IndexError', 'too many indices for array')
        return items

    def elem_dtype(self, x):
        return x.dtype

    def slice_bounds(self, s, n):
        """(start, count, step) as Polys."""
        I = self.I
        step = 1
        if s.step is not None:
            step = I.int_of(s.step)
            if step == 0:
                I.error('ValueError', 'slice step cannot be zero')

        def clamp(x, lo, hi):
            x = I.settle(x)
            if isinstance(x, Choice):
                raise_split(I, x.cond)
            if not isinstance(x, Num):
                x = I.libs.index_of(I, x)
            t = x.t
            t = tmap(lambda p: t_ite(cmp_ge(p), leaf(p), leaf(padd(p, n))), I.simp(t))
            t = I.simp(t)
            t = t_max(I.simp(t_min(t, leaf(hi))), leaf(lo))
            return I.poly(I.simp(t), 'slice bound')
        if step > 0:
            a = ZERO if s.start is None else clamp(s.start, ZERO, n)
            b = n if s.stop is None else clamp(s.stop, ZERO, n)
            cnt = psub(b, a)
            if step != 1:
                cnt = pneg(pfloordiv(pneg(cnt), const(step)))
        else:
            top = psub(n, ONE)
            a = top if s.start is None else clamp(s.start, pneg(ONE), top)
            b = pneg(ONE) if s.stop is None else clamp(s.stop, pneg(ONE), top)
            cnt = pneg(pfloordiv(psub(b, a), const(-step)))
        cnt = I.poly(I.simp(t_max(leaf(cnt), leaf(ZERO))), 'slice length')
        return a, cnt, const(step)

    def int_index(self, x, n, v, k, flags):
        """A checked integer index as a Poly."""
        I = self.I
        t = x.t
        bc, wa, noexc = flags
        t = I.simp(t)
        if -1 in t.syms:
            t = I.force(t)

        def norm(t):
            if wa:
                return I.simp(tmap(lambda p: t_ite(cmp_ge(p), leaf(p), leaf(padd(p, n))), t))
            return t
        t2 = norm(t)
        ok = t_and(tmap(lambda p: cmp_ge(p), t2), tmap(lambda p: cmp_ge(psub(psub(n, p), ONE)), t2))
        if bc and not noexc:
            I.error_if(t_not(ok), 'IndexError', 'index is out of bounds')
        else:
            I.require('bounds', ok, 'index of dimension %d may be out of bounds (%s)' % (k, v.buf.name or 'array'),
                      buffer=v.buf.name)
        return t2

    def flags(self, v):
        """(boundscheck, wraparound, exceptions are lost)"""
        I = self.I
        fn = I.fns[-1]
        if v.kind == 'mv':
            d = fn.directives
            cy = getattr(fn.func.node, 'cy', None)
            return d.get('boundscheck', True), d.get('wraparound', True), bool(cy and cy['kind'] == 'cdef')
        return True, True, False

    def getitem(self, v, idx):
        I = self.I
        if isinstance(idx, str):
            I.error('IndexError', 'only integers, slices, ellipsis, None and arrays are valid indices')
        items = self.norm_index(v, idx)
        if all(isinstance(x, Num) and not is_bool_ty(x.ty) for x in items):
            fl = self.flags(v)
            ix = []
            for k, x in enumerate(items):
                if not is_int_ty(x.ty):
                    I.error('IndexError', 'only integers are valid indices')
                ix.append(self.int_index(x, v.shape[k], v, k, fl))
            if v.kind == 'mv':
                self.note_read(v, ix)
            t = self.read_at(v, ix)
            if v.dtype == 'O':
                I.fail('array of objects')
            return Num(t, v.dtype, v.kind == 'mv')
        if any(isinstance(x, (Arr, XArr, DaskArr)) or isinstance(x, Ref) or isinstance(x, (tuple, RangeV))
               or isinstance(x, Num) and is_bool_ty(x.ty) for x in items):
            return self.fancy(v, items)
        return self.view(v, items)

    def read_at(self, v, ix):
        I = self.I

        def go(i):
            return A.read(I.content(v.buf), v.index(i), I.st.facts)
        return A.lift_index(go, ix)

    def note_read(self, v, ix):
        I = self.I
        for L in I.loops:
            if L is not None and L.parallel and v.buf.depth <= L.depth:
                A.lift_index(lambda i: L.read_log.append((v.buf, tuple(v.index(i)), I.st.facts, I.loc())) or leaf(ZERO), ix)

    def view(self, v, items):
        """Basic indexing."""
        I = self.I
        shape, dims = [], []
        k = 0
        newmap = list(v.map)
        sel = {}
        for x in items:
            if x is None:
                shape.append(ONE)
                continue
            n = v.shape[k]
            if isinstance(x, SliceV):
                a, cnt, st = self.slice_bounds(x, n)
                sel[k] = (len(shape), a, st)
                shape.append(cnt)
            else:
                if not isinstance(x, Num):
                    x = I.libs.index_of(I, x)
                t = self.int_index(x, n, v, k, self.flags(v))
                sel[k] = (None, I.poly(t, 'index'), None)
            k += 1
        out = []
        for m in v.map:
            if m[0] is None:
                out.append(m)
                continue
            d, off, st = m
            nd, a, s2 = sel[d]
            base = padd(off, pmul(st, a))
            if nd is None:
                out.append((None, base))
            else:
                out.append((nd, base, pmul(st, s2)))
        return Arr(v.buf, shape, out, v.kind, v.copied)

    def mask_positions(self, m):
        """The positions where a concrete mask holds."""
        I = self.I
        n = m.shape[0]
        if not n.is_const:
            from .interp import NeedUnroll
            raise NeedUnroll('mask of unknown length')
        f = I.snapshot(m)
        out = []
        for k in range(int(n.value)):
            d = I.decide(f((const(k),)))
            if d is None:
                raise_split(I, I.force(f((const(k),))))
            if d:
                out.append(k)
        return out

    def index_array(self, x):
        """An index array (positions as a list or an Arr)."""
        I = self.I
        if isinstance(x, (XArr, DaskArr)):
            x = self.as_array(x)
        if not isinstance(x, Arr):
            x = self.as_array(x)
        return x

    def fancy(self, v, items):
        I = self.I
        if v.kind == 'mv':
            I.error('TypeError', 'cannot index a memoryview with an array')
        # a single full mask
        arrs = [(k, x) for k, x in enumerate(items) if not (isinstance(x, SliceV) or x is None)]
        conv = []
        for x in items:
            if isinstance(x, SliceV) or x is None:
                conv.append(x)
            elif isinstance(x, Num):
                if is_bool_ty(x.ty):
                    I.fail('boolean scalar index')
                conv.append(x)
            else:
                conv.append(self.index_array(x))
        if len([1 for x in conv if isinstance(x, Arr) and x.dtype == 'b1']):
            out = []
            for k, x in enumerate(conv):
                if isinstance(x, Arr) and x.dtype == 'b1':
                    if x.ndim != 1:
                        return self.masked(v, conv, k)
                    n = v.shape[sum((y.ndim if isinstance(y, Arr) and y.dtype == 'b1' else 1) for y in conv[:k] if y is not None)]
                    if not x.shape[0].is_const:
                        return self.masked(v, conv, k)
                    I.error_if(t_not(cmp_eq(psub(n, x.shape[0]))), 'IndexError', 'boolean index did not match')
                    pos = self.mask_positions(x)
                    out.append(self.table([leaf(const(p)) for p in pos], 'i8'))
                else:
                    out.append(x)
            conv = out
        idxs = [x for x in conv if isinstance(x, Arr)]
        if not idxs:
            return self.view(v, conv)
        for x in idxs:
            if not is_int_ty(x.dtype):
                if x.shape and x.shape[0].is_const and x.shape[0].value == 0:
                    continue
                I.error('IndexError', 'arrays used as indices must be of integer type')
        bshape = self.broadcast([x.shape for x in idxs])
        bf = [self.broadcast_fn(x, bshape) for x in idxs]
        # bounds of every index
        adv = [k for k, x in enumerate(conv) if isinstance(x, (Arr, Num))]
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        src = []        # per source dim: ('s', a, st, outdim) or ('f', fn) or ('c', poly)
        pre, post = [], []
        k = 0
        j = 0
        seen = False
        layout = []
        for x in conv:
            if x is None:
                layout.append(('n',))
                continue
            n = v.shape[k]
            if isinstance(x, SliceV):
                a, cnt, st = self.slice_bounds(x, n)
                layout.append(('s', k, a, st, cnt))
            elif isinstance(x, Num):
                t = self.int_index(x, n, v, k, (True, True, False))
                layout.append(('c', k, t))
            else:
                layout.append(('f', k, bf[j], n))
                j += 1
            k += 1
        outshape = []
        where = None
        if not contiguous:
            outshape = list(bshape)
            where = 0
        rules = {}
        for e in layout:
            if e[0] == 'n':
                outshape.append(ONE)
            elif e[0] == 's':
                rules[e[1]] = ('s', e[2], e[3], len(outshape))
                outshape.append(e[4])
            elif e[0] == 'c':
                rules[e[1]] = ('c', e[2])
                if contiguous and where is None:
                    where = len(outshape)
                    outshape += list(bshape)
            else:
                rules[e[1]] = ('f', e[2], e[3])
                if where is None:
                    where = len(outshape)
                    outshape += list(bshape)
        nb = len(bshape)
        self.check_fancy(rules, bshape)
        f = I.snapshot(v)
        free = set(f.free)
        for b in bf:
            free |= b.free

        def el(idx):
            ix = []
            for d in range(v.ndim):
                r = rules[d]
                if r[0] == 's':
                    ix.append(leaf(padd(r[1], pmul(r[2], idx[r[3]]))))
                elif r[0] == 'c':
                    ix.append(r[1])
                else:
                    t = r[1](tuple(idx[where:where + nb]))
                    n = r[2]
                    ix.append(tmap(lambda p: t_ite(cmp_ge(p), leaf(p), leaf(padd(p, n))), t))
            return A.lift_index(f, ix)
        res = I.lam_array(tuple(outshape), v.dtype, el, frozenset(free))
        return res

    def check_fancy(self, rules, bshape):
        """Index arrays of known size must be in range."""
        I = self.I
        for d, r in rules.items():
            if r[0] != 'f':
                continue
            n = r[2]
            if all(b.is_const for b in bshape):
                tot = 1
                for b in bshape:
                    tot *= int(b.value)
                if tot > 6000:
                    I.fail('large index array')
                bad = FALSE
                for s in itertools.product(*[range(int(b.value)) for b in bshape]):
                    t = I.force(r[1](tuple(const(x) for x in s)))
                    ok = t_and(tmap(lambda p: cmp_ge(padd(p, n)), t), tmap(lambda p: cmp_ge(psub(psub(n, p), ONE)), t))
                    bad = t_or(bad, t_not(ok))
                I.error_if(I.simp(bad), 'IndexError', 'index out of bounds')
            else:
                bs = tuple(bound_sym(9, k) for k in range(len(bshape)))
                g = I.st.facts
                for b, dd in zip(bs, bshape):
                    for c in (cmp_ge(b), cmp_ge(psub(psub(dd, b), ONE))):
                        g = g.assume(c) or g
                t = A.expand(r[1](bs), g)
                ok = t_and(tmap(lambda p: cmp_ge(padd(p, n)), t), tmap(lambda p: cmp_ge(psub(psub(n, p), ONE)), t))
                if g.simplify(ok) is not TRUE:
                    I.event('index', 'index array may be out of range', t_not(g.simplify(ok)))

    def masked(self, v, conv, k):
        """a[mask] with a mask of the shape of a: kept with its mask."""
        I = self.I
        if len([x for x in conv if not (isinstance(x, SliceV) and x.start is x.stop is x.step is None)]) != 1 or k != 0:
            I.fail('boolean mask of unknown size among other indices')
        m = conv[0]
        if m.ndim != v.ndim:
            I.fail('mask of lower dimension')
        f, g = I.snapshot(v), I.snapshot(m)
        return self.masked_array(v.shape, v.dtype, f, g)

    def masked_array(self, shape, dtype, f, g):
        I = self.I
        r = I.lam_array(shape, dtype, f, f.free | g.free)
        r.copied = ('mask', g)
        return r

    def setitem(self, v, idx, val):
        I = self.I
        val = I.settle(val)
        if isinstance(val, Choice):
            return I.choose(val, lambda x: self.setitem(v, idx, x))
        items = self.norm_index(v, idx)
        if all(isinstance(x, Num) and not is_bool_ty(x.ty) for x in items):
            fl = self.flags(v)
            ix = []
            for k, x in enumerate(items):
                if not is_int_ty(x.ty):
                    I.error('IndexError', 'only integers are valid indices')
                ix.append(self.int_index(x, v.shape[k], v, k, fl))
            if isinstance(val, (Arr, XArr)):
                val = I.libs.to_number(I, val)
            if not isinstance(val, Num):
                I.error('TypeError', 'a number is required')
            t = val.t
            if v.kind == 'mv':
                t = I.coerce(val, v.dtype, cast=True).t if v.dtype != val.ty else t
            else:
                t = self.convert(t, val.ty, v.dtype)
            self.check_writable(v)
            self.write(v, ix, t)
            return
        arrs = [x for x in items if not isinstance(x, (SliceV, Num)) and x is not None]
        if arrs:
            return self.set_fancy(v, items, val)
        view = self.view(v, items)
        self.assign_array(view, val)

    def check_writable(self, v):
        I = self.I
        o = v.buf.owner
        if o and o.get('input'):
            I.event('input-write', 'writes into the input array %s' % o['input'], input=o['input'])
        if v.copied == 'merged':
            I.fail('write through an array chosen by a condition')
        if v.buf.owner and v.buf.owner.get('global'):
            I.event('global-write', 'writes into the shared array %s' % v.buf.name, name=v.buf.name)

    def write(self, v, ix, t, vars=(), guard=TRUE):
        I = self.I
        index = [leaf(i) if isinstance(i, Poly) else i for i in ix]
        bidx = []
        for m in v.map:
            if m[0] is None:
                bidx.append(leaf(m[1]))
            else:
                d, off, st = m
                bidx.append(tmap(lambda p: padd(off, pmul(st, p)), index[d]))
        where = I.loc()
        I.set_content(v.buf, lambda c: A.Write(c, bidx, t, vars, guard, where))

    def assign_array(self, view, val, guard_fn=None):
        """view[...] = val"""
        I = self.I
        self.check_writable(view)
        if isinstance(val, (XArr, DaskArr, Ref, tuple, RangeV, Frame)):
            val = self.as_array(val)
        if isinstance(val, Num):
            t = self.convert(val.t, val.ty, view.dtype)
            fn = lambda idx: t
        elif isinstance(val, Arr):
            shape = tuple(view.shape)
            vs = list(val.shape)
            while len(vs) > len(shape) and self.is_one(vs[0]):
                vs.pop(0)
            if len(vs) > len(shape):
                I.error('ValueError', 'could not broadcast input array')
            if len(vs) < val.ndim:
                val = self.reshape_drop(val, val.ndim - len(vs))
            off = len(shape) - val.ndim
            for k, d in enumerate(val.shape):
                n = shape[off + k]
                if d is n or self.same_dim(d, n):
                    continue
                if self.is_one(d):
                    continue
                if not d.is_const:
                    c = I.decide(cmp_eq(psub(d, ONE)))
                    if c is None:
                        raise_split(I, cmp_eq(psub(d, ONE)))
                    if c:
                        continue
                I.error_if(t_not(cmp_eq(psub(d, n))), 'ValueError', 'could not broadcast input array')
            f = self.broadcast_fn(val, shape)
            src = val.dtype
            fn = lambda idx: self.convert(f(idx), src, view.dtype)
        else:
            I.error('TypeError', 'a number or an array is required')
        if not view.shape:
            g = TRUE if guard_fn is None else guard_fn(())
            self.write(view, [], fn(()), (), g)
            return
        vs = []
        ix = []
        for k, n in enumerate(view.shape):
            if n.is_const and n.value == 1:
                ix.append(ZERO)
                continue
            s = sym('w', True, 0)
            A.LOOP_SYMS.add(s.atoms()[0].id)
            vs.append((s, ZERO, psub(n, ONE)))
            ix.append(s)
        t = fn(tuple(ix))
        guard = TRUE if guard_fn is None else guard_fn(tuple(ix))
        self.write(view, ix, t, vs, guard)

    def reshape_drop(self, v, k):
        m = []
        for e in v.map:
            if e[0] is None:
                m.append(e)
            elif e[0] < k:
                m.append((None, e[1]))
            else:
                m.append((e[0] - k,) + tuple(e[1:]))
        return Arr(v.buf, v.shape[k:], m, v.kind, v.copied)

    def set_fancy(self, v, items, val):
        I = self.I
        conv = [x if isinstance(x, (SliceV, Num)) or x is None else self.index_array(x) for x in items]
        masks = [k for k, x in enumerate(conv) if isinstance(x, Arr) and x.dtype == 'b1']
        if len(masks) == 1 and len(conv) == 1 or (len(masks) == 1 and all(
                isinstance(x, SliceV) and x.start is x.stop is x.step is None for k, x in enumerate(conv) if k not in masks)):
            k = masks[0]
            m = conv[k]
            g = I.snapshot(m)
            if isinstance(val, Arr) and isinstance(val.copied, tuple) and val.copied[0] == 'mask':
                h = val.copied[1]
                bs = tuple(bound_sym(8, j) for j in range(m.ndim))
                if I.force(g(bs)) is not I.force(h(bs)):
                    I.fail('assignment through different masks')
                src = val.dtype
                f = I.snapshot(val)
                plain = I.lam_array(val.shape, val.dtype, f, f.free)
                self.assign_array(v, plain, lambda idx: g(idx[k:k + m.ndim]))
                return
            if isinstance(val, Num) or isinstance(val, Arr) and not val.shape:
                self.assign_array(v, val, lambda idx: g(idx[k:k + m.ndim]))
                return
        # concrete positions
        out = []
        dim = 0
        for x in conv:
            if isinstance(x, Arr) and x.dtype == 'b1':
                if x.ndim != 1:
                    I.fail('mask assignment')
                x = self.table([leaf(const(p)) for p in self.mask_positions(x)], 'i8')
            out.append(x)
        idx = [(k, x) for k, x in enumerate(out) if isinstance(x, Arr)]
        if len(idx) != 1 or idx[0][1].ndim != 1 or not idx[0][1].shape[0].is_const:
            I.fail('assignment through index arrays')
        k, x = idx[0]
        f = I.snapshot(x)
        n = int(x.shape[0].value)
        dim = sum(1 for y in out[:k] if y is not None)
        odim = sum(1 for y in out[:k] if isinstance(y, SliceV) or y is None)
        va = val if isinstance(val, Num) else self.as_array(val)
        for j in range(n):
            it = list(out)
            it[k] = Num(f((const(j),)), 'i8')
            sub = self.view(v, it)
            if isinstance(va, Num):
                self.assign_array(sub, va)
            else:
                tail = len(sub.shape) - odim     # dims after the index in the selection
                if va.ndim <= tail:
                    self.assign_array(sub, va)
                else:
                    pos = va.ndim - tail - 1
                    sl = [SliceV(None, None, None)] * va.ndim
                    sl[pos] = num(j) if not self.is_one(va.shape[pos]) else num(0)
                    r = self.getitem(va, tuple(sl))
                    self.assign_array(sub, r)

    # ------------------------------------------------------------------ shape manipulation
    def expand_dims(self, v, axis):
        I = self.I
        v = self.as_array(v)
        nd = v.ndim + 1
        axis = axis + nd if axis < 0 else axis
        if not 0 <= axis < nd:
            I.error('ValueError', 'axis out of bounds')
        items = [SliceV(None, None, None)] * v.ndim
        items.insert(axis, None)
        return self.view(v, items)

    def squeeze(self, v, axis=None):
        I = self.I
        v = self.as_array(v)
        drop = []
        for k, d in enumerate(v.shape):
            if axis is not None and k != axis:
                continue
            if d.is_const:
                if d.value == 1:
                    drop.append(k)
                continue
            c = I.decide(cmp_eq(psub(d, ONE)))
            if c is None:
                raise_split(I, cmp_eq(psub(d, ONE)))
            if c:
                drop.append(k)
        items = [num(0) if k in drop else SliceV(None, None, None) for k in range(v.ndim)]
        return self.view(v, items) if drop else v

    def transpose(self, v, axes=None):
        v = self.as_array(v)
        axes = list(axes) if axes is not None else list(range(v.ndim))[::-1]
        inv = {a: k for k, a in enumerate(axes)}
        m = [e if e[0] is None else (inv[e[0]],) + tuple(e[1:]) for e in v.map]
        return Arr(v.buf, tuple(v.shape[a] for a in axes), m, v.kind, v.copied)

    def reshape(self, v, shape):
        I = self.I
        v = self.as_array(v)
        total = self.size(v)
        shape = list(shape)
        neg = [k for k, d in enumerate(shape) if d.is_const and d.value == -1]
        if neg:
            rest = ONE
            for k, d in enumerate(shape):
                if k != neg[0]:
                    rest = pmul(rest, d)
            if total.is_const and rest.is_const and rest.value:
                if total.value % rest.value:
                    I.error('ValueError', 'cannot reshape array')
                shape[neg[0]] = const(Fraction(total.value, rest.value))
            else:
                q = pdiv(total, rest)
                if not poly_is_int(q) and not all(e > 0 for m in q.terms for _, e in m):
                    q2 = pfloordiv(total, rest) if rest.is_const else None
                    if q2 is None:
                        I.fail('reshape to an unknown size')
                    I.error_if(t_not(cmp_eq(psub(pmul(q2, rest), total))), 'ValueError', 'cannot reshape array')
                    q = q2
                shape[neg[0]] = q
        prod = ONE
        for d in shape:
            prod = pmul(prod, d)
        I.error_if(t_not(cmp_eq(psub(prod, total))), 'ValueError', 'cannot reshape array')
        if len(shape) == v.ndim and all(self.same_dim(a, b) for a, b in zip(shape, v.shape)):
            return v
        f = I.snapshot(v)
        old = v.shape

        # common leading or trailing dimensions keep their indices
        lead = 0
        while lead < min(len(old), len(shape)) and self.same_dim(old[lead], shape[lead]):
            lead += 1
        tail = 0
        while tail < min(len(old), len(shape)) - lead and self.same_dim(old[-1 - tail], shape[-1 - tail]):
            tail += 1

        def el(idx):
            mid_new = shape[lead:len(shape) - tail]
            mid_old = old[lead:len(old) - tail]
            flat = ZERO
            for i, d in zip(idx[lead:len(shape) - tail], mid_new):
                flat = padd(pmul(flat, d), i)
            out = []
            for k in range(len(mid_old) - 1, -1, -1):
                d = mid_old[k]
                if k == 0:
                    out.append(flat)
                else:
                    q = I.sym_floor(flat, d) if not d.is_const else pfloordiv(flat, d)
                    out.append(psub(flat, pmul(q, d)))
                    flat = q
            return f(tuple(idx[:lead]) + tuple(reversed(out)) + tuple(idx[len(shape) - tail:] if tail else ()))
        r = I.lam_array(tuple(shape), v.dtype, el, f.free)
        r.copied = 'maybe'
        return r

    def stack(self, arrs, axis, dtype=None):
        I = self.I
        arrs = [self.as_array(a) for a in arrs]
        nd = arrs[0].ndim
        for a in arrs[1:]:
            if a.ndim != nd:
                I.error('ValueError', 'all input arrays must have the same shape')
            for x, y in zip(a.shape, arrs[0].shape):
                I.error_if(t_not(cmp_eq(psub(x, y))), 'ValueError', 'all input arrays must have the same shape')
        axis = axis + nd + 1 if axis < 0 else axis
        ex = [self.expand_dims(a, axis) for a in arrs]
        return self.concat(ex, axis, dtype)

    def concat(self, arrs, axis=0, dtype=None):
        I = self.I
        if not arrs:
            I.error('ValueError', 'need at least one array to concatenate')
        arrs = [self.as_array(a) for a in arrs]
        nd = arrs[0].ndim
        if nd == 0:
            I.error('ValueError', 'zero-dimensional arrays cannot be concatenated')
        axis = axis + nd if axis < 0 else axis
        if axis >= nd:
            I.error('ValueError', 'axis out of bounds')
        ty = dtype or DT(np.result_type(*[np.dtype(a.dtype) for a in arrs]))
        shape = list(arrs[0].shape)
        starts = []
        tot = ZERO
        for a in arrs:
            if a.ndim != nd:
                I.error('ValueError', 'all the input array dimensions must match')
            for k in range(nd):
                if k != axis and not self.same_dim(a.shape[k], shape[k]):
                    I.error_if(t_not(cmp_eq(psub(a.shape[k], shape[k]))), 'ValueError',
                               'all the input array dimensions except for the concatenation axis must match')
            starts.append(tot)
            tot = padd(tot, a.shape[axis])
        shape[axis] = tot
        if len(arrs) == 1:
            r = self.copy(arrs[0])
            return r if r.dtype == ty else self.astype(r, ty)
        if nd == 1 and all(a.shape[0].is_const for a in arrs) and tot.value <= 8000 and tot.value > 0:
            # a table
            vals = []
            for a in arrs:
                f = I.snapshot(a)
                for k in range(int(a.shape[0].value)):
                    vals.append(self.convert(f((const(k),)), a.dtype, ty))
            return self.table(vals, ty)
        fns = [I.snapshot(a) for a in arrs]
        free = set()
        for f in fns:
            free |= f.free

        def el(idx):
            i = idx[axis]
            out = None
            # binary search over the starts
            def part(k):
                j = list(idx)
                j[axis] = psub(i, starts[k])
                return self.convert(fns[k](tuple(j)), arrs[k].dtype, ty)

            def go(lo, hi):
                if hi - lo == 1:
                    return part(lo)
                mid = (lo + hi) // 2
                c = I.base_simplify(cmp_ge(psub(i, starts[mid])))
                if c is TRUE:
                    return go(mid, hi)
                if c is FALSE:
                    return go(lo, mid)
                return t_ite(c, go(mid, hi), go(lo, mid))
            return go(0, len(arrs))
        return I.lam_array(tuple(shape), ty, el, frozenset(free))

    def linspace(self, a, b, n, endpoint=True, dtype=None):
        I = self.I
        n = I.poly(n, 'size')
        # the number of nodes counts as a python float
        ty = dtype or self.ufunc_type('true_divide', [self.ufunc_type('add', [a.ty, b.ty]), 'float'])
        ty = 'f8' if ty == 'float' else ty
        s, e = a.t, b.t

        def el(idx):
            k = psub(n, ONE) if endpoint else n
            if k.is_const and k.value == 0:
                return s
            return tadd(s, tmul(tsub(e, s), leaf(pdiv(idx[0], k))))
        return I.lam_array((n,), ty, el, A.free_of(s, e), True)


def truth_b(t):
    return t if all(p.is_const and p.value in (0, 1) for p in tree_leaves(t)) else truth(t)


def raise_split(I, c):
    from .interp import NeedSplit
    c = I.force(c)
    if c.cond is None:
        I.fail('split on a decided condition')
    raise NeedSplit(node(c.cond, TRUE, FALSE), 'shape')
