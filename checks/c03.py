"""C03: conversion between geographical and cartesian coordinates."""
from fractions import Fraction

from absint import arrays as A, terms as T
from absint.terms import ONE, ZERO, atom_poly, cmp_ge, cmp_gt, const, leaf, mk_atom, padd, psub
from absint.vals import Arr, DaskArr, Num, XArr
from . import c06, c16, c19, geo
from .scen import S, arr, get, run

TITLE = 'Coordinate conversion formulas and their round trip'
RULE = ('At a generic element of arrays of symbolic shape the results are compared with x = R cos(lat) cos(lon), '
        'y = R cos(lat) sin(lon), z = R sin(lat) and with lon = atan2(y, x), lat from asin(z/R) when |z| is below the '
        'threshold and from the distance to the axis elsewhere; the composition of both is compared with the identity.  '
        'For every family (classic, VII with any thresholds, MODIS kernels) pixels are compared with both formulas '
        'around the blend of the tie points.')
MINIMUM = 30
R_SPHERE = geo.lift(6370997)


def el(name, *idx, lo=None, hi=None):
    return leaf(atom_poly(mk_atom('elem', (name, tuple(idx)), False, None if lo is None else const(lo),
                                  None if hi is None else const(hi))))


def value(c, a, idx, f=None):
    f = f or c.facts
    return A.expand(A.read(c.I.content(a.buf), tuple(a.index(tuple(idx))), f), f)


def forward(dt, radius=None):
    def unit(out):
        r, w = S('r', 0), S('w', 0)

        def setup(I):
            fn = get(I, 'geotiepoints.geointerpolator:lonlat2xyz')
            kw = {} if radius is None else {'radius': Num(const(radius), 'float')}
            return I.call(fn, [arr(I, k, [r, w], dt) for k in ('lon', 'lat')], kw)
        for c in run(setup):
            out.use(c)
            nothing_raised(out, c, 'lonlat2xyz')
            if not c.returned:
                continue
            i, j = S('i', 0), S('j', 0)
            want = geo.xyz(el('lon', i, j), el('lat', i, j), geo.lift(radius or 6370997))
            for k, (a, wv) in enumerate(zip(c.value, want)):
                out.ob('same shape and precision as the input', 'lonlat2xyz %s %s' % ('xyz'[k], dt),
                       tuple(a.shape) == (r, w) and a.dtype == dt, str(a))
                out.equal('cartesian coordinate formula', 'lonlat2xyz %s %s radius %s' % ('xyz'[k], dt, radius), c.facts,
                          value(c, a, (i, j)), wv)
    return unit


def nothing_raised(out, c, what):
    for exc, rel, st in c.feasible_raises():
        out.ob('valid input is accepted', what, False, str(exc), str(exc.where))


def backward(dt, opts):
    def unit(out):
        r, w = S('r', 0), S('w', 0)

        def setup(I):
            fn = get(I, 'geotiepoints.geointerpolator:xyz2lonlat')
            kw = {k: Num(const(v), 'float') if not isinstance(v, bool) else Num(T.TRUE if v else T.FALSE, 'bool')
                  for k, v in opts.items()}
            return I.call(fn, [arr(I, k, [r, w], dt) for k in 'xyz'], kw)
        for c in run(setup):
            out.use(c)
            name = 'xyz2lonlat %s %s' % (dt, opts)
            nothing_raised(out, c, name)
            if not c.returned:
                continue
            i, j = S('i', 0), S('j', 0)
            x, y, z = [el(k, i, j) for k in 'xyz']
            R = geo.lift(opts.get('radius', 6370997))
            lon, lat = c.value
            wlat = geo.latitude(x, y, z, R, Fraction(opts.get('thr', Fraction(4, 5)))) \
                if opts.get('low_lat_z', True) else geo.lat_high(x, y, z, R)
            for nm, a, wv in (('lon', lon, geo.longitude(x, y)), ('lat', lat, wlat)):
                out.ob('same shape and precision as the input', '%s %s' % (name, nm),
                       tuple(a.shape) == (r, w) and a.dtype == dt, str(a))
                out.equal('%s formula' % nm, '%s %s' % (name, nm), c.facts, value(c, a, (i, j)), wv)
    return unit


def roundtrip(out):
    r, w = S('r', 0), S('w', 0)

    def setup(I):
        f = get(I, 'geotiepoints.geointerpolator:lonlat2xyz')
        g = get(I, 'geotiepoints.geointerpolator:xyz2lonlat')
        lon = arr(I, 'lon', [r, w], 'f8', elem=A.Elem('lon', lo=-180, hi=180))
        lat = arr(I, 'lat', [r, w], 'f8', elem=A.Elem('lat', lo=-90, hi=90))
        return I.call(g, list(I.call(f, [lon, lat], {})), {})
    for c in run(setup):
        out.use(c)
        if not c.returned:
            out.ob('the round trip returns', 'numpy', False)
            continue
        i, j = S('i', 0), S('j', 0)
        lon, lat = el('lon', i, j, lo=-180, hi=180), el('lat', i, j, lo=-90, hi=90)
        f = c.facts
        # the longitude of a pole is arbitrary, and -180 is the same meridian as 180
        f = f.assume(cmp_gt(padd(lon.leaf, const(180)), False))
        g = f.assume(cmp_gt(padd(lat.leaf, const(90)), False)).assume(cmp_gt(psub(const(90), lat.leaf), False))
        out.equal('round trip of the longitude', 'numpy', g, value(c, c.value[0], (i, j), g), lon)
        out.equal('round trip of the latitude', 'numpy', f, value(c, c.value[1], (i, j), f), lat)


def to_cartesian(kind):
    """What interpolators are fed with: the cartesian coordinates of the tie points."""
    def unit(out):
        n, m = 5, 7

        def setup(I):
            cls = get(I, 'geotiepoints.geointerpolator:' + kind)
            lon, lat = arr(I, 'lon', [n, m], 'f8'), arr(I, 'lat', [n, m], 'f8')
            if kind == 'GeoInterpolator':
                rows, cols = range_arr(I, n), range_arr(I, m)
                return I.call(cls, [(lon, lat), (rows, cols), (range_arr(I, 9, 2), range_arr(I, 13, 2))], {})
            return I.call(cls, [(range_arr(I, n), range_arr(I, m)), lon, lat], {})
        for c in run(setup):
            out.use(c)
            nothing_raised(out, c, kind)
            if not c.returned:
                continue
            I = c.I
            if kind == 'GeoInterpolator':
                data = I.list_items(I.getattr(c.value, 'tie_data'))
            else:
                data = [I.getattr(x, 'values') for x in I.list_items(I.getattr(c.value, 'interpolators'))]
            i, j = S('i', 0, n - 1), S('j', 0, m - 1)
            want = geo.xyz(el('lon', i, j), el('lat', i, j), R_SPHERE)
            out.ob('three components are interpolated', kind, len(data) == 3, str(data))
            for k, (a, wv) in enumerate(zip(data, want)):
                out.equal('interpolated component', '%s %s' % (kind, 'xyz'[k]), c.facts, value(c, a, (i, j)), wv)
    return unit


def range_arr(I, n, div=1):
    return I.lam_array((const(n),), 'f8', lambda idx: leaf(T.pscale(idx[0], Fraction(1, div))), (), True)


def units():
    u = [('forward-f4', forward('f4')), ('forward-f8', forward('f8')), ('forward-radius', forward('f8', 1000)),
         ('roundtrip', roundtrip)]
    for dt, opts in (('f8', {}), ('f4', {}), ('f8', {'low_lat_z': False}), ('f8', {'thr': Fraction(1, 2)}),
                     ('f8', {'radius': 1000}), ('f8', {'radius': 6371228, 'low_lat_z': True, 'thr': Fraction(9, 10)})):
        u.append(('backward-%s-%s' % (dt, '-'.join('%s=%s' % x for x in opts.items()) or 'default'), backward(dt, opts)))
    for k in ('GeoInterpolator', 'GeoGridInterpolator', 'GeoSplineInterpolator'):
        u.append(('tie-data-%s' % k, to_cartesian(k)))
    # there and back, around the interpolation, with the radius, the thresholds and the kernels of the other families
    u.append(('classic', c16.geographic('plain', None, None)))
    for how in ('numpy', 'dask'):
        u.append(('VII-' + how, c19.geographic(1, 2, 3, how, None, None)))
    u.append(('VII-thresholds', c19.geographic(2, 2, 2, 'numpy', 'symbol', 'symbol')))
    for L in c06.variants():
        u.append(('kernel-%s' % L.tag, c06.unit(L, 'f8', [1, L.frows // 2])))
    return u
