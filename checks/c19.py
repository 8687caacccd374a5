"""C19: VII tie points are interpolated bilinearly inside of their own scan, in safe coordinates."""
from fractions import Fraction

from absint import libs, terms as T
from absint.terms import ONE, ZERO, cmp_ge, const, leaf, padd, pscale, psub, sym
from absint.vals import Arr, Choice, DaskArr, Num, XArr
from . import classic as K, geo
from .classic import elem
from .core import TIER
from .geo import add, div, fn, lift, mul, sub
from .scen import S, arr, client, get, run

TITLE = 'VII tie points are interpolated bilinearly inside of their own scan, in safe coordinates'
RULE = ('For a set of numbers of scans, tie points per scan and factors, and any width, every row and every column '
        'offset of the result is compared with the bilinear blend of the four tie points of its cell in its scan; for '
        'geographical positions with the blend of longitudes and latitudes, or with the position of the blended '
        'cartesian coordinates where the tie points cross the threshold latitude or span more than 180 degrees.')
MINIMUM = 2500
ASSUMPTIONS = ('xarray.DataArray.interp is piecewise linear between the coordinates of the array',
               'dask evaluates every task of a graph once with the arguments that the graph holds')

RADIUS = Fraction('6371008.7714')

# number of scans, tie points per scan along the track, pixels per tie point distance
LAYOUTS = [(1, 2, 1), (1, 2, 8), (2, 2, 3), (3, 2, 8), (1, 3, 4), (2, 3, 4), (3, 4, 2), (2, 4, 8), (5, 2, 2), (1, 8, 4),
           (2, 7, 5)]


def blend(name, s, na, fac, row, cc, p):
    """Bilinear blend at fine row `row` of scan s, p pixels after the tie column cc."""
    cell, o = divmod(row, fac)
    t, u = Fraction(o, fac), Fraction(p, fac)
    r = const(s * na + cell)
    r1 = const(s * na + cell + 1)
    c1 = padd(cc, ONE)
    get = name if callable(name) else (lambda a, b: elem(name, a, b))
    return add(mul(const((1 - t) * (1 - u)), get(r, cc)), mul(const((1 - t) * u), get(r, c1)),
               mul(const(t * (1 - u)), get(r1, cc)), mul(const(t * u), get(r1, c1)))


def ints(*v):
    return [Num(const(x), 'int') for x in v]


def wrap(I, a, how, rows, w, dims=('alt', 'act')):
    if 'dask' in how:
        ch = ((const(rows),), (w,)) if 'rows' not in how else (tuple(const(x) for x in split(rows)), (w,))
        a = DaskArr(a, a.shape, ch, a.dtype)
    co = {}
    if 'coords' in how:
        co = {'alt': K.fixed(I, [Fraction(k * 3 + 1) for k in range(rows)])}
    return XArr(a, dims, co)


def split(n):
    return [n // 2, n - n // 2] if n > 1 else [n]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def plain(scans, na, fac, how, dts):
    def unit(out):
        w = S('w', 2)
        cc = S('cc', 0)
        rows = scans * na
        names = ['a', 'b', 'c'][:len(dts)]

        def setup(I):
            f = get(I, 'geotiepoints.viiinterpolator:tie_points_interpolation')
            xs = [wrap(I, arr(I, k, [rows, w], dt), how, rows, w) for k, dt in zip(names, dts)]
            n = len(I.computes)
            r = I.iterate(I.call(f, [I.new_list(xs), *ints(na, fac)], {}))
            comp = I.computes[n:]
            data = [x.data if isinstance(x, XArr) else x for x in r]
            return r, [libs.block_value(I, d) if isinstance(d, DaskArr) else d for d in data], comp
        for c in run(setup):
            out.use(c)
            what = '%d scans of %d tie rows, factor %d, %s' % (scans, na, fac, how)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            res, vals, comp = c.value
            if not out.ob('one result per array', what, len(res) == len(names), str(len(res))):
                continue
            if 'dask' in how:
                out.ob('nothing is computed', what, not comp, str(comp[:2]))
            for nm, r, a in zip(names, res, vals):
                w2 = '%s %s' % (what, nm)
                if not layout(out, w2, r, scans, na, fac, w, 'dask' in how):
                    continue
                f = c.facts.assume(cmp_ge(psub(psub(w, const(2)), cc)))
                for s in range(scans):
                    for row in range((na - 1) * fac):
                        for p in range(fac):
                            i = s * (na - 1) * fac + row
                            ok = out.equal('bilinear blend of the cell in the own scan', '%s row %d offset %d' % (w2, i, p), f,
                                           K.value(c, a, (i, padd(pscale(cc, fac), const(p))), f),
                                           blend(nm, s, na, fac, row, cc, p))
                            if not ok and len(out.violations) + len(out.undecided) > 4:
                                return
    return unit


def layout(out, what, r, scans, na, fac, w, lazy):
    """Labels, shape and laziness of a result."""
    if not out.ob('the result is a DataArray', what, isinstance(r, XArr), str(r)):
        return False
    ok = out.ob('dimensions of the result', what, tuple(r.dims) == ('alt', 'act'), str(r.dims))
    ok &= out.ob('tie point coordinates are not left on the pixels', what, not r.coords, str(list(r.coords)))
    shape = (const(scans * (na - 1) * fac), pscale(psub(w, ONE), fac))
    ok &= out.ob('shape of the result', what, same(r.shape, shape), '%s, expected %s' % (r.shape, shape))
    if lazy:
        ok &= out.ob('the result is lazy', what, isinstance(r.data, DaskArr), str(r.data))
    return ok


def pieces(v):
    """The results of both branches, where a value depends on a decision at run time."""
    if isinstance(v, Choice):
        return [(T.t_and(v.cond, c), x) for c, x in pieces(v.a)] + [(T.t_and(T.t_not(v.cond), c), x)
                                                                    for c, x in pieces(v.b)]
    return [(T.TRUE, v)]


def block(I, d):
    return libs.block_value(I, d) if isinstance(d, DaskArr) else d


def geographic(scans, na, fac, how, thr, zthr, dt='f8'):
    """thr, zthr: 'symbol', a number, or None for the default"""
    def unit(out):
        w = S('w', 2)
        cc = S('cc', 0)
        rows = scans * na
        ts, zs = sym('threshold', False, 0, 90), sym('z_threshold', False, 0, 1)

        def opt(v, s, dflt):
            return const(dflt) if v is None else s if v == 'symbol' else const(v)
        tv, zv = opt(thr, ts, 60), opt(zthr, zs, Fraction(4, 5))

        def setup(I):
            f = get(I, 'geotiepoints.viiinterpolator:tie_points_geo_interpolation')
            lo, la = arr(I, 'lon', [rows, w], dt), arr(I, 'lat', [rows, w], dt)
            kw = {}
            if thr is not None:
                kw['lat_threshold_use_cartesian'] = Num(tv, 'float')
            if zthr is not None:
                kw['z_threshold_use_xy'] = Num(zv, 'float')
            ref = client(I, 'vii')
            cart = I.truth(I.call(I.global_get(ref, 'cartesian'), [lo, la, Num(tv, 'float')], {}))
            n = len(I.computes)
            r = list(I.iterate(I.call(f, [wrap(I, lo, how, rows, w), wrap(I, la, how, rows, w), *ints(na, fac)], kw)))
            comp = I.computes[n:]
            alts = [[(cond, x, block(I, x.data) if isinstance(x, XArr) else None) for cond, x in pieces(v)] for v in r]
            return alts, comp, cart
        for c in run(setup):
            out.use(c)
            what = 'positions, %d scans of %d tie rows, factor %d, %s, thresholds %s %s %s' % (scans, na, fac, how, thr, zthr, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            alts, comp, cart = c.value
            if not out.ob('longitude and latitude are returned', what, len(alts) == 2, str(len(alts))):
                continue
            f0 = c.facts.assume(cmp_ge(psub(psub(w, const(2)), cc)))
            for k, nm in enumerate(('longitude', 'latitude')):
                for cond, r, a in alts[k]:
                    f1 = f0.assume(cond)
                    if f1 is None:
                        continue
                    if not layout(out, '%s %s' % (what, nm), r, scans, na, fac, w, 'dask' in how):
                        return
                    if TIER == 'thorough':
                        picks = [(s, row, p) for s in range(scans) for row in range((na - 1) * fac) for p in range(fac)]
                    else:
                        picks = [(s, row, p) for s in range(scans) for row in sorted({0, 1 % fac, (na - 1) * fac - 1})
                                 for p in sorted({0, fac - 1})]
                    for s, row, p in picks:
                        i = s * (na - 1) * fac + row
                        got = K.value(c, a, (i, padd(pscale(cc, fac), const(p))), f1)
                        xyz = [blend(lambda x, y, q=q: geo.xyz(elem('lon', x, y), elem('lat', x, y), lift(const(RADIUS)))[q],
                                     s, na, fac, row, cc, p) for q in range(3)]
                        R = const(RADIUS)
                        far = geo.longitude(xyz[0], xyz[1]) if k == 0 else geo.latitude(*xyz, R, zv)
                        near = blend('lon' if k == 0 else 'lat', s, na, fac, row, cc, p)
                        ok = out.equal('blend of the tie points in the right coordinates', '%s %s row %d offset %d' % (
                            what, nm, i, p), f1, got, T.t_ite(cart, far, near))
                        if not ok and len(out.violations) + len(out.undecided) > 3:
                            return
    return unit


def units():
    u = []
    for scans, na, fac in LAYOUTS:
        u.append(('plain-%d-%d-%d' % (scans, na, fac), plain(scans, na, fac, 'numpy', ['f8', 'f8'])))
    u.append(('plain-three', plain(2, 3, 4, 'numpy', ['f8', 'f4', 'f8'])))
    u.append(('plain-coords', plain(2, 3, 4, 'numpy coords', ['f8'])))
    u.append(('plain-dask', plain(2, 3, 4, 'dask', ['f8', 'f8'])))
    u.append(('plain-dask-rows', plain(3, 2, 8, 'dask rows', ['f8', 'f4'])))
    for scans, na, fac in [(1, 2, 8), (2, 3, 4), (3, 2, 3)]:
        u.append(('geo-%d-%d-%d' % (scans, na, fac), geographic(scans, na, fac, 'numpy', None, None)))
        u.append(('geo-dask-%d-%d-%d' % (scans, na, fac), geographic(scans, na, fac, 'dask', None, None)))
    u.append(('geo-thresholds', geographic(2, 2, 4, 'numpy', 'symbol', 'symbol')))
    u.append(('geo-thresholds-dask', geographic(2, 2, 4, 'dask rows', 'symbol', 'symbol')))
    u.append(('geo-thresholds-30', geographic(2, 2, 4, 'numpy', 30, Fraction(1, 2), 'f4')))
    return u
