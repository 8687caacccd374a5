"""Reference formulas on terms: written from the documented conventions, not from the code under analysis."""
from fractions import Fraction
from absint import arrays as A, terms as T
from absint.terms import (ONE, PI, ZERO, atom_poly, cmp_eq, cmp_ge, cmp_gt, const, leaf, mk_fn, padd, pmul, pscale,
                          psub, t_and, t_ite, tadd, tapply, tfn, tmap, tmul, tsub)


def F(x):
    return leaf(x if isinstance(x, T.Poly) else const(x))


def lift(x):
    return x if isinstance(x, T.Tree) else F(x)


def add(*xs):
    r = lift(xs[0])
    for x in xs[1:]:
        r = tadd(r, lift(x))
    return r


def sub(a, b):
    return tsub(lift(a), lift(b))


def mul(*xs):
    r = lift(xs[0])
    for x in xs[1:]:
        r = tmul(r, lift(x))
    return r


def div(a, b):
    return T.tdiv(lift(a), lift(b))


def fn(name, *xs):
    return tfn(name, *[lift(x) for x in xs])


RAD = T.pdiv(PI, const(180))
DEG = T.pdiv(const(180), PI)


def rad(x):
    return mul(x, RAD)


def deg(x):
    return mul(x, DEG)


def xyz(lon, lat, R):
    lo, la = rad(lon), rad(lat)
    return (mul(R, fn('cos', la), fn('cos', lo)), mul(R, fn('cos', la), fn('sin', lo)), mul(R, fn('sin', la)))


def ite(c, a, b):
    return t_ite(c, lift(a), lift(b))


def ge(a, b):
    """a >= b as a condition tree (reals)."""
    return tree_cond(sub(a, b), lambda p: cmp_ge(p, False))


def gt(a, b):
    return tree_cond(sub(a, b), lambda p: cmp_gt(p, False))


def eq(a, b):
    return tree_cond(sub(a, b), lambda p: cmp_eq(p, False))


def tree_cond(t, f):
    if t.cond is None:
        return f(t.leaf)
    return T.t_branch(t.cond, tree_cond(t.hi, f), tree_cond(t.lo, f))


def sign(z):
    return ite(gt(z, ZERO), ONE, ite(gt(ZERO, z), const(-1), ZERO))


def longitude(x, y):
    return deg(fn('atan2', y, x))


def lat_low(z, R):
    return deg(fn('asin', div(z, R)))


def lat_high(x, y, z, R):
    rho = fn('sqrt', add(mul(x, x), mul(y, y)))
    return mul(sign(z), sub(const(90), deg(fn('asin', div(rho, R)))))


def latitude(x, y, z, R, thr=Fraction(4, 5)):
    zn = div(z, R)
    thr = thr if isinstance(thr, T.Poly) else const(thr)
    low = t_and(gt(thr, zn), gt(zn, T.pneg(thr)))
    return ite(low, lat_low(z, R), lat_high(x, y, z, R))
