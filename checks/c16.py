"""C16: the classic interpolator evaluates the interpolating spline of the tie points at the fine positions."""
from fractions import Fraction

from absint import terms as T
from absint.terms import const
from . import classic as K, geo
from .classic import elem, fixed
from .scen import S, arr, client, get, run

TITLE = 'Interpolator and GeoInterpolator evaluate the spline through the tie points at the fine positions'
RULE = ('The value at a generic fine pixel has to be the evaluation, at the fine row and fine column of that pixel, of '
        'a spline whose construction record holds the tie rows, the tie columns, the values of the same field, the '
        'requested degrees (rows first) and no smoothing; with identical fine and tie rows it has to be the '
        'one-dimensional spline of that row.  Fields are returned in their order, geographical results are converted '
        'from the three interpolated components.')
MINIMUM = 8000
ASSUMPTIONS = ('scipy splines interpolate their data',)

GRIDS = {
    'plain': ([0, 3, 7, 9], [1, 3, 8, 9, 12], list(range(10)), list(range(1, 13))),
    'fractions': ([Fraction(2, 5), Fraction(7, 5), Fraction(12, 5)], [0, 1, 2, 3],
                  [Fraction(k, 5) for k in range(2, 13)], [Fraction(k, 3) for k in range(10)]),
    'reversed fine rows beyond the ties': ([2, 4, 8], [0, 4, 8, 9], [12, 8, 7, 4, 0], [9, 5, 0]),
    'same number of rows': ([0, 2, 4], [0, 2, 4, 5], [0, 1, 2], [0, 1, 2, 3, 4, 5]),
    'large': (list(range(4, 604, 10)), list(range(3, 2603, 20)), list(range(600)), list(range(2600))),
    'more ties than pixels': ([0, 2, 4, 6], [0, 2, 4, 5], [1], [3, 4]),
}
SAME = {
    'same rows': ([0, 1, 2], [0, 4, 8, 9, 12], [0, 1, 2], list(range(13))),
    'same rows, offset': ([5, 7], [-2, 1, 3, 5], [5, 7], [-2, 0, 5]),
}


def some(n):
    """Indices to look at along an axis."""
    return list(range(n)) if n < 50 else sorted({0, 1, 2, n // 3, n // 2, 511, 512, n - 2, n - 1} & set(range(n)))


def make(I, cls, grid, args, kw):
    tr, tc, hr, hc = grid
    return I.call(cls, args + [(fixed(I, tr), fixed(I, tc)), (fixed(I, hr), fixed(I, hc))], kw)


def order_kw(kx, ky):
    return {n: K.Num(const(v), 'int') for n, v in (('kx_', kx), ('ky_', ky)) if v is not None}


def generic(name, kx, ky, nf, dt='f8', single=False):
    grid = GRIDS[name]
    tr, tc, hr, hc = grid

    def unit(out):
        def setup(I):
            cls = get(I, 'geotiepoints.interpolator:Interpolator')
            data = [arr(I, 'data%d' % k, [len(tr), len(tc)], dt) for k in range(nf)]
            d = data[0] if single else I.new_list(data)
            ip = make(I, cls, grid, [d], order_kw(kx, ky))
            return I.list_items(I.call(I.getattr(ip, 'interpolate'), [], {}))
        for c in run(setup):
            out.use(c)
            what = '%s kx=%s ky=%s %s' % (name, kx, ky, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            got = c.value
            if not out.ob('one result per field', what, len(got) == nf, len(got)):
                continue
            seen = {}
            for k in range(nf):
                a = got[k]
                if not out.ob('one value per fine row and column', what, K.dims(a) == (len(hr), len(hc)), str(K.dims(a))):
                    continue
                data = [[elem('data%d' % k, i, j) for j in range(len(tc))] for i in range(len(tr))]
                for i, j in ((i, j) for i in some(len(hr)) for j in some(len(hc))):
                        hi, hj = hr[i], hc[j]
                        v = K.value(c, a, (i, j))
                        sp = K.the_spline(v)
                        w = '%s field %d pixel (%d, %d)' % (what, k, i, j)
                        if not out.ob('value = spline evaluation', w, sp is not None, T.show_tree(v)[:300]):
                            return
                        uid, p, q = sp
                        out.ob('the spline is evaluated at the fine position of the pixel', w,
                               p is const(hi) and q is const(hj), 'at (%s, %s), expected (%s, %s)' % (
                                   T.show(p), T.show(q), hi, hj))
                        if (k, uid) not in seen:
                            rec = [o for o in K.records(c) if o.uid == uid][0]
                            seen[(k, uid)] = K.check_record(out, c, '%s field %d' % (what, k), rec, tr, tc, data,
                                                            1 if kx is None else kx, 1 if ky is None else ky,
                                                            (some(len(tr)), some(len(tc))))
    return unit


def one_dimension(name, ky, nf, dt):
    grid = SAME[name]
    tr, tc, hr, hc = grid

    def unit(out):
        def setup(I):
            cls = get(I, 'geotiepoints.interpolator:Interpolator')
            data = [arr(I, 'data%d' % k, [len(tr), len(tc)], dt) for k in range(nf)]
            ip = make(I, cls, grid, [I.new_list(data)], order_kw(1, ky))
            return I.list_items(I.call(I.getattr(ip, 'interpolate'), [], {}))
        for c in run(setup):
            out.use(c)
            what = '%s ky=%s %s' % (name, ky, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            got = c.value
            if not out.ob('one result per field', what, len(got) == nf, len(got)):
                continue
            for k in range(nf):
                a = got[k]
                out.ob('results are floating point numbers', what, a.dtype in ('f4', 'f8'), a.dtype)
                if dt == 'f8':
                    out.ob('double precision is kept', what, a.dtype == 'f8', a.dtype)
                if not out.ob('one value per fine row and column', what, K.dims(a) == (len(hr), len(hc)), str(K.dims(a))):
                    continue
                for i, hi in enumerate(hr):
                    for j, hj in enumerate(hc):
                        v = K.value(c, a, (i, j))
                        row_spline(out, c, '%s field %d pixel (%d, %d)' % (what, k, i, j), v, i, hi, hj, tr, tc, k, ky)
    return unit


def row_spline(out, c, w, v, i, hi, hj, tr, tc, k, ky):
    """The pixel is the 1-d spline of its row; a 2-d spline of the same ties agrees with it on tie rows."""
    data = [[elem('data%d' % k, a, b) for b in range(len(tc))] for a in range(len(tr))]
    sp = K.the_spline(v)
    if sp is not None:
        rec = [o for o in K.records(c) if o.uid == sp[0]][0]
        out.ob('the spline is evaluated at the fine position of the pixel', w, sp[1] is const(hi) and sp[2] is const(hj),
               str(sp))
        K.check_record(out, c, w, rec, tr, tc, data, 1, ky)
        return
    at = only(v, 'splev')
    if not out.ob('value = spline evaluation', w, at is not None, T.show_tree(v)[:300]):
        return
    uid, p, der, ext = at.args
    out.ob('the spline is evaluated at the fine position of the pixel', w, p is const(hj) and der is T.ZERO,
           'at %s derivative %s' % (T.show(p), T.show(der)))
    rec = [o for o in K.records(c, 'tck') if o.uid == uid][0]
    x = K.const_items(c, rec.x)
    out.ob('tie point columns of the spline', w, x == [Fraction(t) for t in tc], str(x))
    out.ob('degree and smoothing of the spline', w, K.option(c.I, rec.opts, 'k', 3) == ky, K.option(c.I, rec.opts, 'k', 3))
    out.ob('degree and smoothing of the spline', w + ' s', K.option(c.I, rec.opts, 's', 0) == 0)
    out.ob('degree and smoothing of the spline', w + ' options',
           not [n for n in rec.opts if n not in ('k', 's', 'task') and rec.opts[n] is not None], str(list(rec.opts)))
    for j in range(len(tc)):
        out.equal('value of the spline at a tie point', '%s column %d' % (w, j), c.facts, K.value(c, rec.y, (j,)), data[i][j])


def only(t, kind):
    if t.cond is not None or len(t.leaf.terms) != 1:
        return None
    (m, k), = t.leaf.terms.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = T.ATOMS[m[0][0]]
    return a if a.kind == kind else None


def geographic(name, kx, ky, pyresample=False):
    grid = GRIDS[name]
    tr, tc, hr, hc = grid

    def unit(out):
        def setup(I):
            cls = get(I, 'geotiepoints.geointerpolator:GeoInterpolator')
            ll = (arr(I, 'lon', [len(tr), len(tc)]), arr(I, 'lat', [len(tr), len(tc)]))
            if pyresample:
                m = client(I, 'swath')
                ll = I.call(I.global_get(m, 'Swath'), list(ll) + [arr(I, 'xyz', [len(tr), len(tc), 3])], {})
            ip = make(I, cls, grid, [ll], order_kw(kx, ky))
            return I.call(I.getattr(ip, 'interpolate'), [], {})
        for c in run(setup):
            out.use(c)
            what = 'GeoInterpolator %s kx=%s ky=%s' % (name, kx, ky)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            comps = None
            if pyresample:
                what += ' from a swath definition'
                comps = [[[elem('xyz', i, j, k) for j in range(len(tc))] for i in range(len(tr))] for k in range(3)]
            geo_values(out, c, what, c.value, tr, tc, hr, hc, kx or 1, ky or 1, comps=comps, sample=(some(len(tr)), some(len(tc))))
    return unit


def geo_values(out, c, what, got, tr, tc, hr, hc, kx, ky, pixels=None, comps=None, sample=None):
    """(lon, lat) at every fine pixel: converted from the splines of x, y and z."""
    if not out.ob('longitude and latitude are returned', what, isinstance(got, (tuple, list)) and len(got) == 2, str(got)):
        return
    R = geo.lift(6370997)
    lon, lat = got
    for nm, a in (('lon', lon), ('lat', lat)):
        if not out.ob('one value per fine row and column', '%s %s' % (what, nm), K.dims(a) == (len(hr), len(hc)),
                      str(K.dims(a))):
            return
    if comps is None:
        comps = [[[geo.xyz(elem('lon', i, j), elem('lat', i, j), R)[k] for j in range(len(tc))] for i in range(len(tr))]
                 for k in range(3)]
    uids = set()
    order = None
    for i, j in pixels or [(i, j) for i in some(len(hr)) for j in some(len(hc))]:
        vlon, vlat = K.value(c, lon, (i, j)), K.value(c, lat, (i, j))
        sp = {}
        for t in (vlon, vlat):
            for a in K.atoms_of(t, 'spl'):
                sp[a.args[0]] = a
        w = '%s pixel (%d, %d)' % (what, i, j)
        if not out.ob('three splines per pixel', w, len(sp) == 3, '%d splines' % len(sp)):
            return
        ids = sorted(sp)
        uids.update(ids)
        if len(uids) > 3:
            out.ob('all pixels come from the same splines', w, False, sorted(uids))
            return
        if order is None or set(order) != set(ids):
            order = K.identify(c, ids, comps)
        x, y, z = [K.spline_atom(u, const(hr[i]), const(hc[j])) for u in order]
        out.equal('longitude from the interpolated components', w, c.facts, vlon, geo.longitude(x, y))
        out.equal('latitude from the interpolated components', w, c.facts, vlat, geo.latitude(x, y, z, R))
        if len(out.violations) > 6:
            return
    for k, u in enumerate(order or []):
        rec = [o for o in K.records(c) if o.uid == u][0]
        K.check_record(out, c, '%s component %s' % (what, 'xyz'[k]), rec, tr, tc, comps[k], kx, ky, sample)


def units():
    u = []
    for name in GRIDS:
        u.append(('%s-default' % name, generic(name, None, None, 1, single=True)))
        u.append(('%s-2-3' % name, generic(name, 2, 3, 3)))
        u.append(('%s-geo' % name, geographic(name, None, None)))
    u.append(('plain-1-3', generic('plain', 1, 3, 2, 'f4')))
    u.append(('plain-3-1', generic('plain', 3, 1, 2, 'i4')))
    u.append(('plain-geo-1-3', geographic('plain', 1, 3)))
    u.append(('plain-swath', geographic('plain', 1, 3, True)))
    u.append(('fractions-geo-2-1', geographic('fractions', 2, 1)))
    for name in SAME:
        for ky in (1, 3):
            for dt in ('f8', 'f4', 'i4'):
                u.append(('%s-%d-%s' % (name, ky, dt), one_dimension(name, ky, 2, dt)))
    return u
