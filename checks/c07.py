"""C07: scans, rows and points that are interpolated separately do not see each other."""
from absint import arrays as A, terms as T
from absint.terms import ONE, ZERO, cmp_ge, const, padd, pscale, psub
from absint.vals import Arr, Num, SliceV, XArr
from . import classic as K, core, entries as E, modis
from .c06 import columns, variants
from .scen import S, arr, get, run

TITLE = 'Scans, swath lines and points are interpolated independently of each other'
RULE = ('For a generic scan of an unbounded number of scans, every pixel that a MODIS function returns is compared with '
        'the pixel that the same function returns when it is given this scan alone; every VII scan, every line of '
        'the line-wise (AVHRR) interpolation, every point of the multilinear interpolator, of the grid interpolators and of '
        'the coordinate conversions likewise.')
MINIMUM = 2500
ASSUMPTIONS = ('scipy splines and grid interpolants evaluate their points one by one',)


def view(I, a, start, stop):
    """a[start:stop]"""
    return I.nparr.view(a, [SliceV(Num(T.leaf(start), 'int'), Num(T.leaf(stop), 'int'), None)]
                        + [SliceV(None, None, None)] * (a.ndim - 1))


def modis_unit(L, dt, rows):
    def go(out):
        scans, s = S('scans', 1), S('s', 0)

        def setup(I):
            names = ('lon', 'lat') if L.family == 'simple' else ('lon', 'lat', 'satz')
            args = [arr(I, k, [pscale(scans, L.crows), L.wc], dt) for k in names]
            f = get(I, '%s:%s' % (L.module(), L.name))
            whole = I.call(f, args, {})
            base = pscale(s, L.crows)
            parts = [view(I, a, base, padd(base, const(L.crows))) for a in args]
            return whole, I.call(f, parts, {})
        for c in run(setup, [cmp_ge(psub(psub(scans, ONE), s))]):
            out.use(c)
            what = '%s %s' % (L.tag, dt)
            if not out.ob('valid input is accepted', what, c.returned and not c.feasible_raises(),
                          [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            whole, part = c.value
            for k in range(2):
                got = tuple(c.facts.norm(x) for x in part[k].shape)
                if not out.ob('a scan of its own has the shape of one scan', what, got == (const(L.frows), L.wf), str(part[k])):
                    return
            for r in rows:
                for w, col, ccol, cond in columns(L):
                    g = c.facts if cond is None else c.facts.assume(cond)
                    if g is None:
                        continue
                    for k, nm in enumerate(('longitude', 'latitude')):
                        idx = (padd(pscale(s, L.frows), const(r)), col)
                        out.equal('pixel of a scan as if it were alone', '%s %s row %d, %s' % (what, nm, r, w), g,
                                  modis.at(c, whole[k], idx, g), modis.at(c, part[k], (const(r), col), g))
                    if len(out.violations) + len(out.undecided) > 6:
                        return
    return go


def vii_unit(how, scans, per, factor, cols):
    def go(out):
        def setup(I):
            f = get(I, 'geotiepoints.viiinterpolator:tie_points_interpolation')
            M = E.Maker(I, '', how, 'f8')
            raw = [M.raw(k, [scans * per, cols]) for k in ('a', 'b')]

            def wrap(a):
                if how == E.XDASK:
                    from absint.vals import DaskArr
                    a = DaskArr(a, a.shape, tuple((n,) for n in a.shape), a.dtype)
                return XArr(a, ('alt', 'act'))

            def call(arrs):
                r = I.call(f, [I.new_list([wrap(a) for a in arrs]), *E.ints(per, factor)], {})
                return [E.data_of(I, x) for x in E.flat(I, r)]
            return call(raw), [call([view(I, a, const(k * per), const(k * per + per)) for a in raw]) for k in range(scans)]
        for c in run(setup):
            out.use(c)
            what = 'VII %s %d scans of %d, factor %d' % (how, scans, per, factor)
            if not out.ob('valid input is accepted', what, c.returned and not c.feasible_raises(),
                          [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            whole, parts = c.value
            n, m = (per - 1) * factor, (cols - 1) * factor
            for k in range(scans):
                for f in range(2):
                    w = '%s scan %d field %d' % (what, k, f)
                    if not out.ob('a scan of its own has the shape of one scan', w, K.dims(parts[k][f]) == (n, m),
                                  str(parts[k][f])):
                        return
                    for i in range(n):
                        for j in sorted({0, factor - 1, m // 2, m - 1}):
                            out.equal('pixel of a scan as if it were alone', '%s (%d, %d)' % (w, i, j), c.facts,
                                      K.value(c, whole[f], (k * n + i, j)), K.value(c, parts[k][f], (i, j)))
    return go


def lines_unit(what, dt):
    """Interpolation along the lines only: every line as if it were alone with one other."""
    def go(out):
        def setup(I):
            lines, cols = 5, 105 if what == 'metop20kmto1km' else 6
            a, b = arr(I, 'lon', [lines, cols], dt), arr(I, 'lat', [lines, cols], dt)

            def call(x, y, k):
                if what == 'metop20kmto1km':
                    return I.call(get(I, 'geotiepoints:metop20kmto1km'), [x, y], {})
                r = [K.fixed(I, list(range(k))), K.fixed(I, [0, 2, 4, 5, 7, 9])]
                h = [K.fixed(I, list(range(k))), K.fixed(I, list(range(10)))]
                kw = dict(zip(('kx_', 'ky_'), E.ints(1, 3)))
                if what == 'geo':
                    o = I.call(get(I, 'geotiepoints.geointerpolator:GeoInterpolator'), [(x, y), tuple(r), tuple(h)], kw)
                else:
                    o = I.call(get(I, 'geotiepoints.interpolator:Interpolator'), [I.new_list([x, y]), tuple(r), tuple(h)], kw)
                return I.call(I.getattr(o, 'interpolate'), [], {})
            whole = E.flat(I, call(a, b, lines))
            parts = [E.flat(I, call(*[view(I, x, const(k), const(k + 2)) for x in (a, b)], 2)) for k in range(lines - 1)]
            memo = {}

            def values(arrs, picks):
                out = {}
                for f, x in enumerate(arrs):
                    for p in picks:
                        t = A.expand(I.snapshot(x)(tuple(const(q) for q in p)), I.st.facts)
                        out[(f,) + p] = E.canonical(I, t, I.st.facts, memo)
                return out
            n = 2048 if what == 'metop20kmto1km' else 10
            cols = sorted({0, 1, n // 3, n - 1})
            return (values(whole, [(i, j) for i in range(lines) for j in cols]),
                    [values(p, [(i, j) for i in range(2) for j in cols]) for p in parts])
        for c in run(setup):
            out.use(c)
            w = '%s %s' % (what, dt)
            if not out.ob('valid input is accepted', w, c.returned and not c.feasible_raises(),
                          [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            whole, parts = c.value
            for k, part in enumerate(parts):
                for (f, i, j), t in part.items():
                    out.equal('line as if it were with another neighbour', '%s result %d line %d pixel %d' % (w, f, k + i, j),
                              c.facts, t, whole[(f, k + i, j)])
    return go


def points_unit(d, dt):
    def go(out):
        def setup(I):
            M = E.Maker(I, '', E.NUMPY, dt)
            n = [3, 2, 2, 2][:d]
            tot = 1
            for x in n:
                tot *= x
            lo = M.list([Num(const(k), 'float') for k in range(d)])
            hi = M.list([Num(const(k + 2), 'float') for k in range(d)])
            kw = {} if dt == 'f8' else {'dtype': I.libs.Lib('numpy.float32')}
            ip = M.call('geotiepoints.multilinear:MultilinearInterpolator', [lo, hi, M.list(list(E.ints(*n)))], kw)
            M.method(ip, 'set_values', [M.raw('v', [2, tot])])
            num, p = S('num', 1), S('p', 0)
            I.st.assume(cmp_ge(psub(psub(num, ONE), p)))
            s = M.raw('s', [d, num])
            whole = M.method(ip, 'interpolate', [s])
            one = I.nparr.view(s, [SliceV(None, None, None), SliceV(Num(T.leaf(p), 'int'), Num(T.leaf(padd(p, ONE)), 'int'), None)])
            return whole, M.method(ip, 'interpolate', [one]), p
        for c in run(setup):
            out.use(c)
            w = 'multilinear %dd %s' % (d, dt)
            if not out.ob('valid input is accepted', w, c.returned and not c.feasible_raises(),
                          [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            whole, part, p = c.value
            for k in range(2):
                out.equal('point as if it were alone', '%s field %d' % (w, k), c.facts,
                          modis.at(c, whole, (const(k), p), c.facts), modis.at(c, part, (const(k), ZERO), c.facts))
    return go


def conversion_unit(name, args, how, dt):
    def go(out):
        def setup(I):
            n, m, i, j = S('n', 1), S('m', 1), S('i', 0), S('j', 0)
            for a, b in ((n, i), (m, j)):
                I.st.assume(cmp_ge(psub(psub(a, ONE), b)))
            raw = [arr(I, k, [n, m], dt) for k in args]
            f = get(I, 'geotiepoints.geointerpolator:' + name)
            one = [I.nparr.view(a, [SliceV(Num(T.leaf(x), 'int'), Num(T.leaf(padd(x, ONE)), 'int'), None) for x in (i, j)])
                   for a in raw]

            def wrap(a):
                if how == E.DASK:
                    from absint.vals import DaskArr
                    a = DaskArr(a, a.shape, tuple((x,) for x in a.shape), a.dtype)
                return a
            return [[E.data_of(I, r) for r in E.flat(I, I.call(f, [wrap(x) for x in xs], {}))] for xs in (raw, one)] + [(i, j)]
        for c in run(setup):
            out.use(c)
            w = '%s %s %s' % (name, how, dt)
            if not out.ob('valid input is accepted', w, c.returned and not c.feasible_raises(),
                          [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            whole, part, ij = c.value
            for k, (x, y) in enumerate(zip(whole, part)):
                out.equal('element as if it were alone', '%s result %d' % (w, k), c.facts,
                          modis.at(c, x, ij, c.facts), modis.at(c, y, (ZERO, ZERO), c.facts))
    return go


def grid_unit(kind, lazy):
    """Every fine pixel is that of a request for this pixel alone."""
    geo = kind.startswith('Geo')
    mod = 'geotiepoints.geointerpolator' if geo else 'geotiepoints.interpolator'

    def go(out):
        def setup(I):
            M = E.Maker(I, '', E.NUMPY, 'f8')
            pts = (M.raw('py', [4]), M.raw('px', [5]))
            vals = [M.raw(k, [4, 5]) for k in (('lon', 'lat') if geo else ('v',) if kind.startswith('Single') else ('v', 'w'))]
            ip = M.call('%s:%s' % (mod, kind), [pts, *vals])
            fy, fx = M.raw('fy', [4]), M.raw('fx', [3])
            kw = {'chunks': E.ints(2, 2)} if lazy else {}
            memo = {}

            def values(py, px, picks):
                r = [E.data_of(I, x) for x in E.flat(I, M.method(ip, 'interpolate', [(py, px)], dict(kw)))]
                return [[E.canonical(I, A.expand(I.snapshot(a)(tuple(const(q) for q in p)), I.st.facts), I.st.facts, memo)
                         for p in picks] for a in r]
            picks = [(0, 0), (1, 2), (3, 1), (3, 2)]
            whole = values(fy, fx, picks)
            parts = [values(view(I, fy, const(p), const(p + 1)), view(I, fx, const(q), const(q + 1)), [(0, 0)])
                     for p, q in picks]
            return whole, parts
        for c in run(setup):
            out.use(c)
            w = '%s%s' % (kind, ' lazy' if lazy else '')
            if not out.ob('the call returns', w, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            whole, parts = c.value
            for k, a in enumerate(whole):
                for p, t in enumerate(a):
                    out.equal('pixel as if it were alone', '%s result %d pixel %d' % (w, k, p), c.facts, t, parts[p][k][0])
    return go


def units():
    u = []
    for L in variants():
        for dt in ('f8', 'f4'):
            rows = list(range(L.frows))
            if core.TIER == 'quick':
                rows = sorted({0, 1, L.half, L.frows // 2, L.frows - 1} if dt == 'f8' else {0, L.frows - 1})
            u.append(('%s-%s' % (L.tag, dt), modis_unit(L, dt, rows)))
    for how in (E.XNUMPY, E.XDASK):
        for scans, per, factor, cols in ((1, 3, 4, 3), (2, 2, 3, 4), (3, 3, 2, 3), (4, 2, 1, 4)):
            u.append(('VII-%s-%d-%d-%d' % (how, scans, per, factor), vii_unit(how, scans, per, factor, cols)))
    for what in ('metop20kmto1km', 'plain', 'geo'):
        for dt in ('f8', 'f4'):
            u.append(('lines-%s-%s' % (what, dt), lines_unit(what, dt)))
    for d in (1, 2, 3, 4):
        for dt in ('f8', 'f4'):
            u.append(('points-%dd-%s' % (d, dt), points_unit(d, dt)))
    for name, args in (('lonlat2xyz', ('lon', 'lat')), ('xyz2lonlat', 'xyz')):
        for how in (E.NUMPY, E.DASK):
            for dt in ('f8', 'f4'):
                u.append(('%s-%s-%s' % (name, how, dt), conversion_unit(name, args, how, dt)))
    for kind in ('SingleGridInterpolator', 'SingleSplineInterpolator', 'MultipleGridInterpolator',
                 'MultipleSplineInterpolator', 'GeoGridInterpolator', 'GeoSplineInterpolator'):
        for lazy in (False, True):
            u.append(('%s%s' % (kind, '-lazy' if lazy else ''), grid_unit(kind, lazy)))
    return u
