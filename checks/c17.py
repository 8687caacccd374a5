"""C17: the predefined satellite grids."""
from fractions import Fraction

from absint import terms as T
from absint.terms import const
from . import c16, classic as K, geo
from .classic import elem
from .scen import arr, get, run

TITLE = 'The predefined AVHRR and MODIS functions place tie points and pixels where the instruments have them'
RULE = ('modis5kmto1km, modis1kmto500m, modis1kmto250m, generic_modis5kmto1km and metop20kmto1km are analysed for one '
        'to 21 scans with symbolic values: the spline of every component must hold the instrument\'s tie positions '
        'extended linearly to the borders of every scan and of the swath, must be linear along and cubic across the '
        'track, and must be evaluated at the instrument\'s pixel positions.')
MINIMUM = 20000
ASSUMPTIONS = ('scipy splines interpolate their data', 'one to four and 21 scans (the code is the same for every scan)')

# coarse rows per scan, fine pixels per coarse one; positions of tie and fine rows/columns in a common unit
F = Fraction


def modis(n5=False, fac=5):
    def g(scans):
        if n5:
            lines = 10 * scans
            return ([F(k, 5) for k in range(2, lines, 5)], [F(k, 5) for k in range(2, 1354, 5)],
                    [F(k, 5) for k in range(lines)], [F(k, 5) for k in range(1354)], 10)
        rows = 10 * scans
        # fine rows are centred in the footprint of their 1km row, fine columns start on the 1km column
        return (list(range(rows)), list(range(1354)),
                [F(2 * k + 1, 2 * fac) - F(1, 2) for k in range(rows * fac)],
                [F(k, fac) for k in range(1354 * fac)], 10 * fac)
    return g


GRIDS = {'modis5kmto1km': modis(True), 'modis1kmto500m': modis(False, 2), 'modis1kmto250m': modis(False, 4)}


def some(n, k=3):
    return sorted({*range(min(k, n)), n // 2, n // 2 + 1, *range(max(0, n - k), n)})


def filled(name, scans, fields):
    """Positions and data of the extended tie points."""
    tr, tc, hr, hc, chunk = GRIDS[name](scans)
    out = []
    for data in fields:
        rows, d = K.fill_rows(tr, data, hr, chunk)
        cols, d = K.fill_cols(None, rows, tc, d, hr, hc)
        out.append(d)
    return rows, cols, hr, hc, out


def xyz_fields(n, m, lon='lon', lat='lat', r0=0, columns=None):
    """The three components at the tie points (only some columns are looked at)."""
    R = geo.lift(6370997)
    cells = {}

    def at(i, j, k):
        v = cells.get((i, j))
        if v is None:
            v = cells[(i, j)] = geo.xyz(elem(lon, i, j), elem(lat, i, j), R)
        return v[k]
    return [[Lazy(m, lambda j, i=i, k=k: at(i + r0, j, k)) for i in range(n)] for k in range(3)]


class Lazy(list):
    """A row whose values are made when asked for."""

    def __init__(self, m, f):
        super().__init__([None] * m)
        self.f = f

    def __getitem__(self, j):
        if isinstance(j, slice):
            return [self[k] for k in range(*j.indices(len(self)))]
        v = super().__getitem__(j)
        if v is None:
            if j < 0:
                j += len(self)
            v = self.f(j)
            self[j] = v
        return v


def fill_lazy(name, scans, fields):
    """As `filled`, computing only what is looked at."""
    tr, tc, hr, hc, chunk = GRIDS[name](scans)
    lines = len(hr)
    plan = []                                     # (position, [(coefficient, tie row)])
    for k in range(0, lines, chunk):
        mine = [j for j, r in enumerate(tr) if r >= hr[k] and (k + chunk >= lines or r < hr[k + chunk])]
        if k == 0:
            mine = [j for j, r in enumerate(tr) if k + chunk >= lines or r < hr[k + chunk]]
        end = hr[min(k + chunk, lines) - 1]

        def ext(a, b, x):
            w = F(x - tr[a]) / F(tr[b] - tr[a])
            return [(1 - w, a), (w, b)]
        if hr[k] not in [tr[j] for j in mine]:
            plan.append((hr[k], ext(mine[0], mine[1], hr[k])))
        plan += [(tr[j], [(F(1), j)]) for j in mine]
        if end not in [tr[j] for j in mine]:
            plan.append((end, ext(mine[-2], mine[-1], end)))
    cplan = []
    if tc[0] != hc[0]:
        w = F(hc[0] - tc[0]) / F(tc[1] - tc[0])
        cplan.append((hc[0], [(1 - w, 0), (w, 1)]))
    cplan += [(x, [(F(1), j)]) for j, x in enumerate(tc)]
    if tc[-1] != hc[-1]:
        w = F(hc[-1] - tc[-2]) / F(tc[-1] - tc[-2])
        cplan.append((hc[-1], [(1 - w, len(tc) - 2), (w, len(tc) - 1)]))
    out = []
    for data in fields:
        def cell(i, j, data=data):
            r = None
            for a, p in plan[i][1]:
                for b, q in cplan[j][1]:
                    v = data[p][q]
                    v = v if a * b == 1 else geo.mul(const(a * b), v)
                    r = v if r is None else geo.add(r, v)
            return r
        out.append([Lazy(len(cplan), lambda j, i=i, cell=cell: cell(i, j)) for i in range(len(plan))])
    return [x for x, _ in plan], [x for x, _ in cplan], hr, hc, out


def pixels(hr, hc):
    rows, cols = some(len(hr), 3), some(len(hc), 3)
    lines = [i for i in range(len(hr)) if len(hr) < 200 or i % 10 in (0, 9) or i in rows or i % 37 == 0]
    return [(i, j) for i in lines for j in cols[:3]] + [(i, j) for i in rows[:2] for j in range(0, len(hc), 7)] + \
        [(i, j) for i in rows for j in cols]


def ties_sample(rows, cols):
    return range(len(rows)), some(len(cols), 3)


def geographic(name, scans, dt, cores=1):
    def unit(out):
        tr, tc, hr, hc, chunk = GRIDS[name](scans)

        def setup(I):
            f = get(I, 'geotiepoints:' + name)
            return I.call(f, [arr(I, k, [len(tr), len(tc)], dt) for k in ('lon', 'lat')], {})
        for c in run(setup):
            out.use(c)
            what = '%s %d scans %s' % (name, scans, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            rows, cols, hr_, hc_, comps = fill_lazy(name, scans, xyz_fields(len(tr), len(tc)))
            c16.geo_values(out, c, what, c.value, rows, cols, hr, hc, 1, 3, pixels(hr, hc), comps,
                           ties_sample(rows, cols))
    return unit


def fields(scans, nf, dt):
    """generic_modis5kmto1km: any fields, nothing is converted."""
    def unit(out):
        tr, tc, hr, hc, chunk = GRIDS['modis5kmto1km'](scans)

        def setup(I):
            f = get(I, 'geotiepoints.interpolator:generic_modis5kmto1km')
            return I.list_items(I.call(f, [arr(I, 'data%d' % k, [len(tr), len(tc)], dt) for k in range(nf)], {}))
        for c in run(setup):
            out.use(c)
            what = 'generic_modis5kmto1km %d scans %d fields %s' % (scans, nf, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            if not out.ob('one result per field', what, len(c.value) == nf, len(c.value)):
                continue
            data = [[Lazy(len(tc), lambda j, i=i, k=k: elem('data%d' % k, i, j)) for i in range(len(tr))]
                    for k in range(nf)]
            rows, cols, _, _, fill = fill_lazy('modis5kmto1km', scans, data)
            for k in range(nf):
                a = c.value[k]
                w = '%s field %d' % (what, k)
                if not out.ob('one value per fine row and column', w, K.dims(a) == (len(hr), len(hc)), str(K.dims(a))):
                    continue
                uid = None
                for i, j in pixels(hr, hc):
                    sp = K.the_spline(K.value(c, a, (i, j)))
                    if not out.ob('value = spline evaluation', '%s (%d, %d)' % (w, i, j), sp is not None and
                                  (uid is None or sp[0] == uid), str(sp)):
                        return
                    uid = sp[0]
                    if not out.ob('the spline is evaluated at the fine position of the pixel', '%s (%d, %d)' % (w, i, j),
                                  sp[1] is const(hr[i]) and sp[2] is const(hc[j]), '(%s, %s), expected (%s, %s)' % (
                                      T.show(sp[1]), T.show(sp[2]), hr[i], hc[j])):
                        return
                rec = [o for o in K.records(c) if o.uid == uid][0]
                K.check_record(out, c, w, rec, rows, cols, fill[k], 1, 3, ties_sample(rows, cols))
    return unit


METOP = [0] + list(range(4, 2048, 20)) + [2047]


def metop(lines, dt):
    """metop20kmto1km: every line by itself, cubic across the track."""
    def unit(out):
        def setup(I):
            f = get(I, 'geotiepoints:metop20kmto1km')
            return I.call(f, [arr(I, k, [lines, len(METOP)], dt) for k in ('lon', 'lat')], {})
        R = geo.lift(6370997)
        for c in run(setup):
            out.use(c)
            what = 'metop20kmto1km %d lines %s' % (lines, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            got = c.value
            for nm, a in zip(('lon', 'lat'), got):
                out.ob('one value per line and fine column', '%s %s' % (what, nm), K.dims(a) == (lines, 2048), str(K.dims(a)))
            if out.violations:
                return
            for i in range(lines):
                recs = {o.uid: o for o in K.records(c, 'tck')}
                order = None
                for j in sorted({*some(2048, 3), *range(0, 2048, 13)}):
                    w = '%s pixel (%d, %d)' % (what, i, j)
                    vlon, vlat = [K.value(c, a, (i, j)) for a in got]
                    ids = sorted({a.args[0] for t in (vlon, vlat) for a in K.atoms_of(t, 'splev')})
                    if not out.ob('three splines per pixel', w, len(ids) == 3, '%d splines of single lines' % len(ids)):
                        return
                    if order is None:
                        order = line_order(c, recs, ids, i, R)
                    if not out.ob('the pixels of a line come from the same splines', w, set(order) == set(ids), str(ids)):
                        return
                    x, y, z = [T.leaf(T.atom_poly(T.mk_atom('splev', (u, const(j), T.ZERO, T.ZERO)))) for u in order]
                    out.equal('longitude from the interpolated components', w, c.facts, vlon, geo.longitude(x, y))
                    out.equal('latitude from the interpolated components', w, c.facts, vlat, geo.latitude(x, y, z, R))
                    if len(out.violations) > 4:
                        return
                for k, u in enumerate(order):
                    o = recs[u]
                    w = '%s line %d component %s' % (what, i, 'xyz'[k])
                    x = K.const_items(c, o.x)
                    out.ob('tie point columns of the spline', w, x == [F(v) for v in METOP], str(x and x[:6]))
                    out.ob('degree and smoothing of the spline', w, K.option(c.I, o.opts, 'k', 3) == 3 and
                           K.option(c.I, o.opts, 's', 0) == 0, str(o.opts))
                    for j in some(len(METOP), 3):
                        out.equal('value of the spline at a tie point', '%s column %d' % (w, j), c.facts,
                                  K.value(c, o.y, (j,)), geo.xyz(elem('lon', i, j), elem('lat', i, j), R)[k])
    return unit


def line_order(c, recs, ids, i, R):
    from . import witness
    left, out = list(ids), []
    for k in range(3):
        want = geo.xyz(elem('lon', i, 0), elem('lat', i, 0), R)[k]
        for u in left:
            try:
                if witness.compare(c.facts, K.value(c, recs[u].y, (0,)), want) is None:
                    break
            except T.AnalysisError:
                pass
        else:
            return list(ids)
        left.remove(u)
        out.append(u)
    return out


def units():
    u = []
    for name in GRIDS:
        for scans in (1, 2, 3, 21):
            u.append(('%s-%d' % (name, scans), geographic(name, scans, 'f8')))
        u.append(('%s-2-f4' % name, geographic(name, 2, 'f4')))
    for scans in (1, 2, 4, 21):
        u.append(('generic-%d' % scans, fields(scans, 2, 'f8')))
    u.append(('generic-2-f4', fields(2, 3, 'f4')))
    for n in (1, 2, 5, 40):
        u.append(('metop-%d' % n, metop(n, 'f8')))
    u.append(('metop-3-f4', metop(3, 'f4')))
    return u
