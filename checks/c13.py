"""C13: layouts that cannot be interpolated are refused, valid ones never."""
from fractions import Fraction

from absint import libs
from absint.terms import cmp_ge, const, padd, psub, pscale
from absint.vals import Builtin, Num, Ref
from . import classic as K, entries as E, modis
from .core import TIER
from .scen import S, arr, client, get, run
from .c09 import factory, read, values

TITLE = 'Unsuitable input is refused, suitable input is never refused'
RULE = ('Every public entry point is analysed with input that it cannot interpolate (shapes that do not match, incomplete '
        'scans, unknown widths, resolutions or dimensions, too few grid nodes): every path has to end in an exception '
        'of the documented kind, at the latest when a lazy result is computed, and no path may return.  With the '
        'smallest and other suitable input no path may end in an exception.')
MINIMUM = 600
ASSUMPTIONS = ('numpy, dask, xarray, scipy and pandas refuse inconsistent shapes as documented',)

ANY = ('Exception',)
VALUE = ('ValueError',)


def force(I, v):
    """Compute whatever is lazy."""
    if v is None or isinstance(v, Ref) and v.kind == 'inst':
        return v
    return [E.data_of(I, r) for r in E.flat(I, v)]


def refuse(what, setup, kinds=VALUE):
    def unit(out):
        n = 0
        for c in run(lambda I: force(I, setup(I)), limit=200):
            out.use(c)
            n += 1
            out.ob('unsuitable input is refused', what, not c.returned, 'the call returns')
            for e, rel, st in c.feasible_raises():
                out.ob('kind of the exception', '%s: %s' % (what, e.name), any(
                    b in kinds for b in names(e)), str(e), str(e.where))
            if c.returned:
                out.ob('unsuitable input is refused', what + ' (in every case)', bool(c.feasible_raises()), 'no exception')
        out.ob('the call was analysed', what, n > 0)
    return what, unit


def names(e):
    c = e.cls
    if hasattr(c, 'py'):
        return [k.__name__ for k in c.py.__mro__]
    return [getattr(k, 'name', None) or k.py.__name__ for k in c.mro]


def accept(what, setup, kinds=None):
    def unit(out):
        n = 0
        for c in run(lambda I: force(I, setup(I)), limit=200):
            out.use(c)
            n += 1
            for e, rel, st in c.feasible_raises():
                out.ob('suitable input is not refused', '%s: %s' % (what, e), False, str(e), str(e.where))
            out.ob('suitable input is not refused', what, c.returned, 'the call does not return')
        out.ob('the call was analysed', what, n > 0)
    return what, unit


def shapes2(I, M, names, shapes):
    return [M.array(k, s, tuple('dim%d' % d for d in range(len(s)))) for k, s in zip(names, shapes)]


def modis_call(family, name, how, shapes, dt='f8', kw=None, private=False):
    def go(I):
        M = E.Maker(I, '', how, dt)
        nm = ('lon', 'lat') if family == 'simple' else ('lon', 'lat', 'satz')
        if len(shapes) == 1:
            sh = shapes * len(nm)
        else:
            sh = shapes[:len(nm)]
        if private:
            mod = 'geotiepoints.simple_modis_interpolator' if family == 'simple' else 'geotiepoints._modis_interpolator'
        else:
            mod = 'geotiepoints.simple_modis_interpolator' if family == 'simple' else 'geotiepoints.modisinterpolator'
        return M.call('%s:%s' % (mod, name), shapes2(I, M, nm, sh), {k: Num(const(v), 'int') for k, v in (kw or {}).items()})
    return go


def modis_units():
    u = []
    # any number of rows and columns that does not fit
    for family, fs in (('simple', modis.SIMPLE), ('angle', modis.ANGLE)):
        for name in fs:
            L = modis.Layout(family, name)
            r, w = L.crows, 40 if family == 'simple' else int(L.wc.value)
            t = '%s %s ' % (family, name)
            partial = padd(pscale(S('scans', 0), r), S('rest', 1, r - 1))
            for dt in ('f8', 'f4'):
                u.append(refuse(t + 'incomplete scan ' + dt, modis_call(family, name, E.NUMPY, [[partial, const(w)]], dt)))
            for how in (E.DASK, E.XNUMPY, E.XDASK):
                for k in sorted({1, r - 1, r + 1, 3 * r + r // 2}):
                    if k % r:
                        u.append(refuse(t + '%d rows %s' % (k, how), modis_call(family, name, how, [[k, w]])))
            for how in (E.NUMPY, E.DASK, E.XNUMPY):
                u.append(refuse(t + 'one dimension ' + how, modis_call(family, name, how, [[r * w]]), ANY))
                u.append(refuse(t + 'three dimensions ' + how, modis_call(family, name, how, [[r, w, 2]]), ANY))
            whole = pscale(S('scans', 1), r)
            for n, a, b in (('more rows', padd(whole, const(r)), const(w)), ('fewer columns', whole, const(w - 1)),
                            ('more columns', whole, const(w + 1))):
                other = [[whole, const(w)], [a, b]]
                u.append(refuse(t + 'latitudes with %s' % n, modis_call(family, name, E.NUMPY, other + [other[0]]),
                                ('ValueError', 'NotImplementedError')))
                if family != 'simple':
                    u.append(refuse(t + 'angles with %s' % n, modis_call(family, name, E.NUMPY, [other[0]] + other),
                                    ('ValueError', 'NotImplementedError')))
                    u.append(refuse(t + 'longitudes with %s' % n, modis_call(family, name, E.NUMPY, [other[1], other[0], other[0]]),
                                    ('ValueError', 'NotImplementedError')))
            if family == 'simple':
                u.append(refuse(t + 'one column', modis_call(family, name, E.NUMPY, [[whole, const(1)]])))
                u.append(accept(t + 'any width', modis_call(family, name, E.NUMPY, [[whole, S('cols', 2)]])))
                u.append(accept(t + 'two columns', modis_call(family, name, E.NUMPY, [[whole, const(2)]])))
            elif L.five:
                for cols in (0, 1, 2, 269, 272, 1354):
                    for how in (E.NUMPY, E.XDASK):
                        u.append(refuse(t + '%d columns %s' % (cols, how), modis_call(family, name, how, [[2 * r, cols]]),
                                        ('NotImplementedError',) if cols else ANY))
                u.append(refuse(t + 'any other width', modis_call(family, name, E.NUMPY, [[whole, S('cols', 1, 269)]]),
                                ('NotImplementedError',)))
                for cols in (270, 271):
                    u.append(accept(t + '%d columns' % cols, modis_call(family, name, E.NUMPY, [[whole, const(cols)]])))
            else:
                for cols in (0, 1, 271, 1353, 1355, 2708):
                    for how in (E.NUMPY, E.XDASK):
                        u.append(refuse(t + '%d columns %s' % (cols, how), modis_call(family, name, how, [[2 * r, cols]]), ANY))
                u.append(refuse(t + 'any narrower width', modis_call(family, name, E.NUMPY, [[whole, S('cols', 0, 1353)]])))
                u.append(accept(t + 'full width', modis_call(family, name, E.NUMPY, [[whole, const(1354)]])))
    # resolutions
    for family, f, w in (('simple', 'interpolate_geolocation_cartesian', 30), ('angle', 'interpolate', 1354)):
        for how in (E.NUMPY, E.DASK):
            t = '%s %s ' % (family, how)
            full = {'coarse_resolution': 1000, 'fine_resolution': 250}
            for missing in full:
                kw = {k: v for k, v in full.items() if k != missing}
                u.append(refuse(t + 'without ' + missing, modis_call(family, f, how, [[40, w]], 'f8', kw, True), VALUE + ('TypeError',)))
            u.append(refuse(t + 'without resolutions', modis_call(family, f, how, [[40, w]], 'f8', {}, True), VALUE + ('TypeError',)))
            bad = [(1000, 100), (1000, 125), (1000, 750), (500, 250), (750, 250), (250, 250), (100, 50), (0, 250), (5000, 300)]
            bad += [(5000, 1000), (1000, 1000)] if family == 'simple' else []
            for a, b in bad:
                u.append(refuse(t + '%d to %d' % (a, b), modis_call(family, f, how, [[40, 271 if a == 5000 else w]], 'f8',
                                                                   {'coarse_resolution': a, 'fine_resolution': b}, True),
                                ('ValueError', 'KeyError', 'NotImplementedError')))
            u.append(accept(t + '1000 to 250', modis_call(family, f, how, [[40, w]], 'f8', full, True)))
            u.append(accept(t + '1000 to 500', modis_call(family, f, how, [[40, w]], 'f8', dict(full, fine_resolution=500), True)))
    return u


def vii_call(rows, cols, scan, factor, how=E.XNUMPY, shapes=None, dims=None, geo=False):
    def go(I):
        M = E.Maker(I, '', how, 'f8')
        sh = shapes or [[rows, cols]] * 2
        dm = dims or [('alt', 'act')] * 2
        data = [M.array(k, s, d) for k, s, d in zip(('lon', 'lat'), sh, dm)]
        f = 'geotiepoints.viiinterpolator:tie_points_%sinterpolation' % ('geo_' if geo else '')
        return M.call(f, (data if geo else [M.list(data)]) + list(E.ints(scan, factor)))
    return go


def vii_units():
    u = []
    for how in (E.XNUMPY, E.XDASK):
        for scan in (2, 3, 4, 5):
            for rows in range(1, 13):
                t = 'VII %d rows, %d per scan %s' % (rows, scan, how)
                f = accept if rows % scan == 0 else refuse
                u.append(f(t, vii_call(rows, 4, scan, 3, how)))
                if rows in (1, 6, 9):
                    u.append(f(t + ' positions', vii_call(rows, 4, scan, 3, how, geo=True)))
        for n, s in (('rows', [9, 4]), ('more rows', [3, 4]), ('columns', [6, 5]), ('fewer columns', [6, 3]), ('transposed', [4, 6])):
            u.append(refuse('VII arrays with other %s %s' % (n, how), vii_call(6, 4, 3, 3, how, [[6, 4], s])))
            u.append(refuse('VII positions with other %s %s' % (n, how), vii_call(6, 4, 3, 3, how, [[6, 4], s], geo=True)))
        u.append(refuse('VII arrays with other dimensions %s' % how, vii_call(6, 4, 3, 3, how, dims=[('alt', 'act'), ('y', 'x')])))
        u.append(refuse('VII arrays with exchanged dimensions %s' % how,
                        vii_call(4, 4, 2, 3, how, dims=[('alt', 'act'), ('act', 'alt')])))
        u.append(accept('VII arrays with dimensions of another name %s' % how, vii_call(6, 4, 3, 3, how, dims=[('y', 'x')] * 2)))
        for cols in (2, 3):
            u.append(accept('VII %d columns %s' % (cols, how), vii_call(4, cols, 2, 2, how)))
    return u


def multilinear(d, what, orders=None, values=None, s=None, bounds=None, kw=None, points=None):
    def go(I):
        M = E.Maker(I, '', E.NUMPY, 'f8')
        n = orders or [3, 2, 4, 2][:d]
        tot = 1
        for x in n:
            tot *= x
        a, b = bounds or (d, d)
        lo = M.list([Num(const(k), 'float') for k in range(a)])
        hi = M.list([Num(const(k + 2), 'float') for k in range(b)])
        ip = M.call('geotiepoints.multilinear:MultilinearInterpolator', [lo, hi, M.list(list(E.ints(*n)))])
        if values != 0:
            M.method(ip, 'set_values', [M.raw('v', values if isinstance(values, list) else [2, tot + (values or 0)])])
        return M.method(ip, 'interpolate', [M.raw('s', s or [d, S('points', 0)])])
    return go


def multilinear_units():
    u = []
    for d in (1, 2, 3, 4):
        t = 'multilinear %dd ' % d
        n = [3, 2, 4, 2][:d]
        u.append(accept(t + 'any number of points', multilinear(d, '', None, None)))
        u.append(accept(t + 'two nodes', multilinear(d, '', [2] * d)))
        for k in range(d):
            for o in (0, 1):
                m = list(n)
                m[k] = o
                u.append(refuse(t + '%d nodes along axis %d' % (o, k), multilinear(d, '', m), ANY))
        for dv in (1, -1):
            u.append(refuse(t + 'values for %+d nodes' % dv, multilinear(d, '', None, dv), ANY))
        if d > 1:
            u.append(refuse(t + 'values for one axis', multilinear(d, '', None, [2, n[0]]), ANY))
        for k in (d - 1, d + 1):
            u.append(refuse(t + 'points with %d coordinates' % k, multilinear(d, '', None, None, [k, 5]), ANY))
            u.append(refuse(t + '%d lower bounds' % k, multilinear(d, '', None, None, None, (k, d)), ANY))
            u.append(refuse(t + '%d upper bounds' % k, multilinear(d, '', None, None, None, (d, k)), ANY))
        u.append(refuse(t + 'without values', multilinear(d, '', None, 0), ANY))
    u.append(refuse('multilinear 5d', multilinear(5, '', [2, 2, 2, 2, 2]), ANY))
    return u


def sequence_of(n):
    def go(I):
        M = E.Maker(I, '', E.NUMPY, 'f8')
        pts = (M.raw('py', [4], 'f8'), M.raw('px', [5], 'f8'))
        return M.call('geotiepoints.geointerpolator:GeoGridInterpolator', [pts] + [M.raw('v%d' % k, [4, 5]) for k in range(n)])
    return go


def grid(kind, vshape, extra=False):
    def go(I):
        M = E.Maker(I, '', E.NUMPY, 'f8')
        mod = 'geointerpolator' if kind.startswith('Geo') else 'interpolator'
        pts = (M.raw('py', [4], 'f8'), M.raw('px', [5], 'f8'))
        n = 1 if kind.startswith('Single') else 2
        ip = M.call('geotiepoints.%s:%s' % (mod, kind), [pts] + [M.raw('v%d' % k, vshape) for k in range(n)])
        return M.method(ip, 'interpolate', [(M.raw('fy', [3], 'f8'), M.raw('fx', [2], 'f8'))])
    return go


def unknown(what, dims):
    """fill_borders refuses names of dimensions before it changes anything."""
    def unit(out):
        def setup(I):
            def go():
                M = E.Maker(I, '', E.NUMPY, 'f8')
                rows, cols, hr, hc = E.grids(0)
                sh = [len(rows), len(cols)]
                return M.call('geotiepoints.interpolator:Interpolator', [I.new_list([M.raw('a', sh), M.raw('b', sh)]),
                                                                        (M.points(rows), M.points(cols)),
                                                                        (M.points(hr), M.points(hc))])
            r = I.call(I.global_get(client(I, 'history'), 'refused'), [factory(go), tuple(dims)], {})
            return None if r is None else [values(I, [E.data_of(I, x) for x in E.flat(I, v)]) for v in I.iterate(r)]
        for c in run(setup):
            out.use(c)
            if not out.ob('an unknown dimension is a NameError', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            if not out.ob('an unknown dimension is refused', what, c.value is not None, 'fill_borders returns'):
                continue
            a, b = c.value
            out.ob('a refused call changes nothing', what, [x[:2] for x in a] == [x[:2] for x in b], '%d and %d' % (len(a), len(b)))
            for (k, i, t), (_, _, w) in zip(b, a):
                out.equal('a refused call changes nothing', '%s field %d %s' % (what, k, i), c.facts, t, w)
    return 'fill_borders ' + what, unit


def classic(rows, cols, hr, hc, shape, fill=(), geo=False):
    def go(I):
        M = E.Maker(I, '', E.NUMPY, 'f8')
        g = [(M.points(rows), M.points(cols)), (M.points(hr), M.points(hc))]
        if geo:
            ip = M.call('geotiepoints.geointerpolator:GeoInterpolator', [(M.raw('lon', shape), M.raw('lat', shape)), *g])
        else:
            ip = M.call('geotiepoints.interpolator:Interpolator', [M.raw('a', shape), *g])
        if fill is not None:
            M.method(ip, 'fill_borders', fill)
        return M.method(ip, 'interpolate')
    return go


def classic_units():
    u = [unknown(*x) for x in (('z', ['z']), ('upper case', ['Y']), ('known before unknown', ['y', 'lon']),
                               ('unknown before known', ['t', 'x']), ('both known before unknown', ['y', 'x', 'z']),
                               ('empty', ['']))]
    r, q = [1, 4, 7], [0, 3, 6, 8]
    hr, hc = list(range(9)), list(range(10))
    for geo in (False, True):
        t = 'GeoInterpolator ' if geo else 'Interpolator '
        for fill in ((), ('y',), ('x',), ('x', 'y'), ('y', 'x')):
            u.append(accept(t + 'fill_borders(%s)' % ', '.join(fill), classic(r, q, hr, hc, [3, 4], fill, geo)))
        u.append(accept(t + 'without fill_borders', classic(r, q, hr, hc, [3, 4], None, geo)))
        u.append(accept(t + 'half pixels', classic([Fraction(1, 2), Fraction(5, 2)], [0, 2], [0, 1, 2, 3], [0, 1, 2], [2, 2], ('y', 'x'), geo)))
        u.append(refuse(t + 'more rows than positions', classic(r, q, hr, hc, [4, 4], None, geo), ANY))
        u.append(refuse(t + 'fewer columns than positions', classic(r, q, hr, hc, [3, 3], None, geo), ANY))
        u.append(refuse(t + 'one tie column cannot be extrapolated', classic(r, [3], hr, hc, [3, 1], ('x',), geo), ANY))
        u.append(refuse(t + 'one tie row cannot be extrapolated', classic([3], q, hr, hc, [1, 4], ('y',), geo), ANY))
    for n in (0, 3, 4):
        u.append(refuse('GeoGridInterpolator of %d fields' % n, sequence_of(n)))
    u.append(accept('GeoGridInterpolator of longitudes and latitudes', sequence_of(2)))
    for kind in ('SingleGridInterpolator', 'SingleSplineInterpolator', 'MultipleGridInterpolator', 'MultipleSplineInterpolator',
                 'GeoGridInterpolator', 'GeoSplineInterpolator'):
        u.append(accept(kind + ' with values for every node', grid(kind, [4, 5])))
        for sh in ([5, 4], [4, 4], [3, 5]):
            u.append(refuse('%s with %s values for 4 x 5 nodes' % (kind, sh), grid(kind, sh), ANY))
    return u


def units():
    u = modis_units() + vii_units() + multilinear_units() + classic_units()
    assert len({n for n, _ in u}) == len(u), [n for n, _ in u if [m for m, _ in u].count(n) > 1]
    return u
