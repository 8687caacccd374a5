"""C18: splitting a swath over several processes does not change the result."""
from fractions import Fraction

from absint import terms as T
from absint.terms import const
from . import c16, c17, classic as K, geo
from .classic import elem
from .scen import arr, get, run

TITLE = 'Interpolating with several cores gives the result of a single core'
RULE = ('modis1kmto500m and modis1kmto250m are analysed for various numbers of scans up to 41 and two to nine cores. '
        'Every fine row of the result must be evaluated, at the position it has in its own scan, from a spline whose '
        'record holds all ten rows of that scan (extended to the scan borders) at the same relative positions, which '
        'determines the value because the spline is linear along the track; all parts are returned in order.')
MINIMUM = 10000
ASSUMPTIONS = ('a pool runs the submitted calls with copies of their arguments',)
F = Fraction


def unit(name, scans, cores, as_kw=True):
    fac = {'modis1kmto500m': 2, 'modis1kmto250m': 4}[name]

    def go(out):
        rows = 10 * scans

        def setup(I):
            f = get(I, 'geotiepoints:' + name)
            args = [arr(I, k, [rows, 1354], 'f8') for k in ('lon', 'lat')]
            n = K.Num(const(cores), 'int')
            return I.call(f, args + ([] if as_kw else [n]), {'cores': n} if as_kw else {})
        R = geo.lift(6370997)
        for c in run(setup):
            out.use(c)
            out.events(c, {'order', 'race'}, 'parts are collected in order')
            what = '%s %d scans %d cores' % (name, scans, cores)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            lon, lat = c.value
            sh = (rows * fac, 1354 * fac)
            for nm, a in (('lon', lon), ('lat', lat)):
                if not out.ob('one value per fine row and column', '%s %s' % (what, nm), K.dims(a) == sh, str(K.dims(a))):
                    return
            recs = {o.uid: o for o in K.records(c)}
            info = {}
            cols = sorted({0, 1, 2, 677 * fac + 1, 1354 * fac - 2, 1354 * fac - 1})
            order = {}
            for i in range(sh[0]):
                if scans > 8 and i % (10 * fac) not in (0, 1, 4 * fac - 1, 10 * fac - 1):
                    continue
                s, q = divmod(i, 10 * fac)
                for j in cols:
                    w = '%s pixel (%d, %d)' % (what, i, j)
                    vlon, vlat = K.value(c, lon, (i, j)), K.value(c, lat, (i, j))
                    ats = {a.args[0]: a for t in (vlon, vlat) for a in K.atoms_of(t, 'spl')}
                    ids = tuple(sorted(ats))
                    if not out.ob('three splines per pixel', w, len(ids) == 3, '%d splines' % len(ids)):
                        return
                    ps = {T.show(a.args[1]) for a in ats.values()}
                    if ids not in order:
                        p = ats[ids[0]].args[1]
                        order[ids] = identify(c, out, what, recs, ids, s, q, fac, p, info, R)
                        if order[ids] is None:
                            return
                    uids, a0 = order[ids]
                    # scan s of the swath is scan s - a0 of the part
                    pos = F(2 * ((s - a0) * 10 * fac + q) + 1, 2 * fac) - F(1, 2)
                    x, y, z = [K.spline_atom(u, const(pos), const(F(j, fac))) for u in uids]
                    out.equal('longitude as with a single core', w, c.facts, vlon, geo.longitude(x, y))
                    out.equal('latitude as with a single core', w, c.facts, vlat, geo.latitude(x, y, z, R))
                    if len(out.violations) > 4:
                        return
                    n = info[ids]
                    if not out.ob('the part contains the scan of the pixel', w, 0 <= s - a0 < n, '%d of %d' % (s - a0, n)):
                        return
    return go


def identify(c, out, what, recs, ids, s, q, fac, p, info, R):
    """(splines of x, y, z; first scan of the part), after comparing the records with the single core reference."""
    if not p.is_const:
        out.ob('the spline is evaluated at known positions', what, False, T.show(p))
        return None
    k = (F(p.value) + F(1, 2)) * fac - F(1, 2)          # fine row in the part
    a0 = s - (k - q) / (10 * fac)
    n = K.dims(recs[ids[0]].z)[0]
    if not out.ob('parts are cut between scans', what, a0.denominator == 1 and a0 >= 0 and n % 12 == 0,
                  'part starts at scan %s and has %s tie rows' % (a0, n)):
        return None
    a0 = int(a0)
    ns = n // 12
    info[ids] = ns
    name = {2: 'modis1kmto500m', 4: 'modis1kmto250m'}[fac]
    rows, cols, hr, hc, comps = c17.fill_lazy(name, ns, c17.xyz_fields(10 * ns, 1354, r0=10 * a0))
    order = K.identify(c, ids, comps)
    for k, u in enumerate(order):
        K.check_record(out, c, '%s scans from %d component %s' % (what, a0, 'xyz'[k]), recs[u], rows, cols, comps[k], 1, 3,
                       (range(len(rows)), (0, 1, 677, len(cols) - 2, len(cols) - 1)))
    return order, a0


def again(name, order):
    """Calls with the same and other numbers of cores, one after the other."""
    fac = {'modis1kmto500m': 2, 'modis1kmto250m': 4}[name]

    def go(out):
        def setup(I):
            f = get(I, 'geotiepoints:' + name)
            res = []
            for k, cores in enumerate(order):
                args = [arr(I, '%s%d' % (n, k), [30, 1354], 'f8') for n in ('lon', 'lat')]
                res.append(I.call(f, args, {'cores': K.Num(const(cores), 'int')}))
            return res
        for c in run(setup):
            out.use(c)
            what = '%s with %s cores in turn' % (name, ', '.join(map(str, order)))
            out.events(c, {'order', 'race'}, 'parts are collected in order')
            if not K.accepted(out, c, what):
                out.ob('every one of a series of calls returns', what, False, [str(e) for e, _, _ in c.feasible_raises()])
                continue
            for k, r in enumerate(c.value):
                for a in r:
                    out.ob('one value per fine row and column', what, K.dims(a) == (30 * fac, 1354 * fac), str(K.dims(a)))
                    for pix in ((0, 0), (15 * fac, 700 * fac), (30 * fac - 1, 1354 * fac - 1)):
                        names = inputs(c, K.value(c, a, pix))
                        out.ob('the result of a call comes from the input of this call', '%s, call %d' % (what, k + 1),
                               names == {'lon%d' % k, 'lat%d' % k}, str(sorted(names)))
    return go


def inputs(c, t):
    """The inputs that a pixel depends on."""
    recs = {o.uid: o for o in K.records(c)}
    out = set()
    for a in K.atoms_of(t, 'spl'):
        z = recs[a.args[0]].z
        out |= {b.args[0] for b in K.atoms_of(K.value(c, z, (0, 0)), 'elem')}
    return out


def splits(out):
    """The cuts cover the swath, lie between scans, and there is at least one scan per part."""
    for lines_scan in (10, 2):
        for cpus in (1, 2, 3, 4, 8):
            for scans in (1, 2, 3, 5, 8, 17):
                def setup(I):
                    f = get(I, 'geotiepoints:get_scene_splits')
                    n = [K.Num(const(v), 'int') for v in (scans * lines_scan, lines_scan, cpus)]
                    return [I.concrete(x) for x in I.iterate(I.call(f, n, {}))]
                for c in run(setup):
                    out.use(c)
                    w = '%d scans of %d lines, %d processes' % (scans, lines_scan, cpus)
                    if K.accepted(out, c, w):
                        v = c.value
                        out.ob('cuts are increasing, inside of the swath and between scans', w,
                               all(0 < x < scans * lines_scan and x % lines_scan == 0 for x in v) and sorted(set(v)) == v,
                               str(v))


def units():
    u = [('splits', splits), ('again-500m', again('modis1kmto500m', (2, 2, 3, 1, 2))),
         ('again-250m', again('modis1kmto250m', (3, 1, 3)))]
    for name in ('modis1kmto500m', 'modis1kmto250m'):
        for scans, cores in ((1, 2), (2, 2), (3, 2), (4, 3), (5, 2), (5, 9), (7, 3), (20, 3), (41, 4)):
            u.append(('%s-%d-%d' % (name, scans, cores), unit(name, scans, cores, scans != 4)))
    return u
