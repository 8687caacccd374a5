"""C20: the basic interpolator is bilinear between the tie rows and columns."""
from fractions import Fraction
from itertools import combinations

from absint.terms import const
from . import classic as K
from .classic import elem, fixed
from .geo import add, mul
from .scen import arr, get, run

TITLE = 'The basic interpolator is bilinear between tie rows and columns and keeps the tie points'
RULE = ('For a set of tie rows and columns (even and uneven steps, single pixel steps, steps of hundreds of pixels, many rows and columns, more rows than columns and '
        'reversely) with symbolic latitudes and longitudes, every pixel of both results is compared with the bilinear '
        'blend of the four tie points around it; latitudes come first.')
MINIMUM = 1500
ASSUMPTIONS = ('pandas reindex and Series.interpolate follow their documentation',)

GRIDS = {'even': ((0, 4, 8), (0, 3, 6, 9)), 'uneven': ((0, 1, 5, 7), (0, 2, 9)), 'two': ((0, 5), (0, 7)),
         'dense': ((0, 1, 2), (0, 1, 2, 3)), 'more rows': ((0, 2, 4, 6, 8, 10), (0, 10)),
         'more columns': ((0, 6), (0, 1, 3, 6, 10, 12)), 'square': ((0, 3, 6), (0, 3, 6)),
         'metop': ((0, 1, 2, 3), (0, 4, 24, 44, 47)), 'wide after narrow': ((0, 3, 303), (0, 1, 141, 142)),
        'narrow after wide': ((0, 270, 271, 280), (0, 200, 203)), 'widening': ((0, 19, 60, 145), (0, 20, 62)),
        'many rows': (tuple(range(0, 330, 10)), (0, 5)), 'many columns': ((0, 5), tuple(range(0, 2060, 20)))}


def between(ix, x):
    for k in range(len(ix) - 1):
        if ix[k] <= x <= ix[k + 1]:
            return k, Fraction(x - ix[k], ix[k + 1] - ix[k])


def some(ix):
    """All positions of small layouts; of wide ones those next to the tie points and some in between."""
    n = ix[-1] + 1
    if n <= 50:
        return list(range(n))
    r = {x for k in ix[:5] + ix[-5:] for x in (k - 2, k - 1, k, k + 1, k + 2)}
    for k, m in list(zip(ix, ix[1:]))[:3] + list(zip(ix, ix[1:]))[-2:]:
        r |= {k + (m - k) * q // 16 for q in range(16)} | {k + (1 << q) for q in range(9) if k + (1 << q) < m}
    return sorted(x for x in r if 0 <= x < n)


def unit(name, how, dt='f8'):
    def go(out):
        grid(out, name, *GRIDS[name], how, dt)
    return go


def small(part, parts, last=9):
    """Every set of tie positions that starts at 0 and ends at most at the given pixel, as rows and as columns."""
    sets = [(0,) + s + (e,) for e in range(1, last + 1) for n in range(e) for s in combinations(range(1, e), n)]

    def go(out):
        for k in range(part, len(sets), parts):
            grid(out, 'rows %s, columns %s' % (sets[k], sets[-1 - k]), sets[k], sets[-1 - k], 'array', 'f8', True)
            if len(out.violations) > 4:
                return
    return go


def grid(out, name, rows, cols, how, dt, cross=False):
    pixels = [(i, j) for i in some(rows) for j in some(cols)]
    if cross:
        pixels = [(i, j) for i, j in pixels if j in (cols[0], cols[-1]) or i in (rows[0], rows[-1]) or i == j]

    def setup(I):
        cls = get(I, 'geotiepoints.basic_interpolator:BasicSatelliteInterpolator')
        if how == 'list':
            r, q = (I.new_list([K.Num(const(x), 'int') for x in ix]) for ix in (rows, cols))
        else:
            r, q = fixed(I, rows), fixed(I, cols)
        lat, lon = arr(I, 'lat', [len(rows), len(cols)], dt), arr(I, 'lon', [len(rows), len(cols)], dt)
        o = I.call(cls, [q, r, lat, lon], {})
        a = I.iterate(I.call(I.getattr(o, 'interpolate'), [], {}))
        b = I.iterate(I.call(I.getattr(o, 'interpolate'), [], {}))
        return [[I.nparr.as_array(x) for x in y] for y in (a, b)]
    for c in run(setup):
        out.use(c)
        what = '%s, indices as %s, %s' % (name, how, dt)
        if not K.accepted(out, c, what):
            out.ob('the interpolation returns', what, False)
            continue
        for times, res in zip(('first call', 'second call'), c.value):
            if not out.ob('latitude and longitude are returned', what, len(res) == 2, str(res)):
                continue
            for nm, a in zip(('lat', 'lon'), res):
                w = '%s %s %s' % (what, times, nm)
                if not out.ob('shape of the result', w, K.dims(a) == (rows[-1] + 1, cols[-1] + 1), str(a)):
                    continue
                out.ob('type of the result', w, a.dtype[0] == 'f' and (dt[0] != 'f' or a.dtype >= dt), str(a))
                for i, j in pixels:
                    k, t = between(rows, i)
                    m, u = between(cols, j)
                    want = add(*[mul(const(f * g), elem(nm, k + p, m + q))
                                 for p, f in ((0, 1 - t), (1, t)) for q, g in ((0, 1 - u), (1, u))])
                    if not out.equal('bilinear blend of the tie points around', '%s (%d, %d)' % (w, i, j), c.facts,
                                     K.value(c, a, (i, j)), want) and len(out.violations) > 4:
                        return


def units():
    u = []
    for name in GRIDS:
        for how in ('array', 'list'):
            u.append(('%s-%s' % (name, how), unit(name, how)))
    u += [('small-%d' % k, small(k, 8)) for k in range(8)]
    u += [('f4', unit('even', 'array', 'f4')), ('i4', unit('uneven', 'array', 'i4')), ('i4-dense', unit('dense', 'list', 'i4'))]
    return u
