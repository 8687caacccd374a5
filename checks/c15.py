"""C15: fill_borders extends the tie points linearly and keeps every one of them."""
from fractions import Fraction

from absint.terms import const
from . import classic as K
from .classic import elem, fixed
from .scen import arr, get, run

TITLE = 'fill_borders extrapolates linearly and keeps every tie point'
RULE = ('For a set of tie and fine grids (integer and fractional positions, offset, with and without chunks, one to '
        'four chunks, tie points on and off the borders) and symbolic data, tie positions and every element of the '
        'tie data after fill_borders are compared with the straight line through the two nearest tie points of the '
        'same chunk.')
MINIMUM = 3000
ASSUMPTIONS = ('every chunk contains at least two tie rows',)

R = lambda a, b, s=1: list(range(a, b, s))      # noqa
H = lambda a, n, d: [Fraction(k, d) + a for k in range(n)]      # noqa

# name: tie rows, tie columns, fine rows, fine columns, chunk size
GRIDS = {
    'one chunk': (R(1, 8, 2), R(2, 9, 3), R(0, 9), R(0, 11), 0),
    'one chunk, on the borders': (R(0, 9, 2), R(0, 10, 3), R(0, 9), R(0, 10), 0),
    'first column on the border': (R(1, 8, 2), R(0, 8, 3), R(0, 9), R(0, 9), 0),
    'last column on the border': (R(1, 8, 2), R(2, 9, 3), R(0, 9), R(0, 9), 0),
    'two tie points': ([1, 3], [1, 4], R(0, 5), R(0, 6), 0),
    'modis like': ([Fraction(k, 5) for k in R(2, 40, 5)], [Fraction(k, 5) for k in R(2, 25, 5)],
                   H(0, 40, 5), H(0, 25, 5), 10),
    'two chunks': (R(2, 20, 5), R(2, 20, 5), R(0, 20), R(0, 20), 10),
    'four chunks': (R(1, 40, 4), R(0, 9, 4), R(0, 40), R(0, 9), 10),
    'chunks of one size, half pixels': (R(0, 12), R(0, 4), [Fraction(2 * k - 1, 4) for k in range(24)], H(0, 8, 2), 8),
    'quarter pixels': (R(0, 8), R(0, 3), [Fraction(2 * k - 3, 8) for k in range(32)], H(0, 12, 4), 16),
    'tie rows at the chunk borders': ([0, 4, 9, 10, 14, 19], R(0, 6, 2), R(0, 20), R(0, 6), 10),
    'tie row at the first border': ([0, 4, 8, 10, 14, 18], R(1, 6, 2), R(0, 20), R(0, 7), 10),
    'tie row at the last border': ([1, 5, 9, 11, 15, 19], R(1, 6, 2), R(0, 20), R(0, 7), 10),
    'offset positions': (R(101, 120, 5), R(-3, 12, 4), R(100, 120), R(-5, 14), 10),
    'tie rows in other units': ([Fraction(k, 2) for k in (1, 4, 7, 11, 14, 17)], R(1, 6, 2),
                                H(0, 20, 2), R(0, 7), 10),
    'unequal spacing': ([1, 2, 7, 11, 16, 18], [1, 2, 7], R(0, 20), R(0, 9), 10),
}


def unit(name, dims, nfields=2, geo=False):
    tr, tc, hr, hc, chunk = GRIDS[name]

    def go(out):
        def setup(I):
            cls = get(I, 'geotiepoints.interpolator:Interpolator')
            data = [arr(I, 'data%d' % k, [len(tr), len(tc)], 'f8') for k in range(nfields)]
            kw = {'chunk_size': K.Num(const(chunk), 'int')} if chunk else {}
            ip = I.call(cls, [I.new_list(data), (fixed(I, tr), fixed(I, tc)), (fixed(I, hr), fixed(I, hc))], kw)
            I.call(I.getattr(ip, 'fill_borders'), list(dims), {})
            return I.list_items(I.getattr(ip, 'tie_data')), I.getattr(ip, 'row_indices'), I.getattr(ip, 'col_indices')
        for c in run(setup):
            out.use(c)
            what = '%s %s' % (name, ','.join(dims))
            if not K.accepted(out, c, what):
                out.ob('the borders can be filled', what, False, 'fill_borders does not return')
                continue
            got, gr, gc = c.value
            out.ob('number of fields', what, len(got) == nfields, len(got))
            for k in range(nfields):
                rows, cols = list(tr), list(tc)
                data = [[elem('data%d' % k, i, j) for j in range(len(cols))] for i in range(len(rows))]
                for d in dims:
                    if d == 'y':
                        rows, data = K.fill_rows(rows, data, hr, chunk)
                    else:
                        cols, data = K.fill_cols(None, rows, cols, data, hr, hc)
                if k == 0:
                    for nm, a, want in (('row', gr, rows), ('column', gc, cols)):
                        have = K.const_items(c, a)
                        out.ob('%s positions after filling' % nm, what, have == [Fraction(x) for x in want],
                               'got %s want %s' % (have and [str(x) for x in have[:20]], [str(x) for x in want[:20]]))
                sh = K.dims(got[k])
                if not out.ob('tie data have one row and column per position', what, sh == (len(rows), len(cols)),
                              'shape %s, expected %s' % (sh, (len(rows), len(cols)))):
                    continue
                for i in range(len(rows)):
                    for j in range(len(cols)):
                        if not out.equal('tie data after filling', '%s field %d (%d, %d)' % (what, k, i, j), c.facts,
                                         K.value(c, got[k], (i, j)), data[i][j]) and len(out.violations) > 3:
                            return
    return go


def integer_data(out):
    """Tie data of another type are extrapolated without loss."""
    tr, tc, hr, hc, chunk = GRIDS['two tie points']
    for dt in ('i4', 'f4'):
        def setup(I):
            cls = get(I, 'geotiepoints.interpolator:Interpolator')
            data = [arr(I, 'data0', [len(tr), len(tc)], dt)]
            ip = I.call(cls, [I.new_list(data), (fixed(I, tr), fixed(I, tc)), (fixed(I, hr), fixed(I, hc))], {})
            I.call(I.getattr(ip, 'fill_borders'), ['y', 'x'], {})
            return I.list_items(I.getattr(ip, 'tie_data'))
        for c in run(setup):
            out.use(c)
            if K.accepted(out, c, dt):
                a = c.value[0]
                out.ob('extrapolated data are not truncated', dt, a.dtype[0] == 'f', a.dtype)


def unknown_dimension(out):
    def setup(I):
        cls = get(I, 'geotiepoints.interpolator:Interpolator')
        ip = I.call(cls, [arr(I, 'data', [3, 3]), (fixed(I, [0, 2, 4]), fixed(I, [0, 2, 4])),
                          (fixed(I, R(0, 5)), fixed(I, R(0, 5)))], {})
        return I.call(I.getattr(ip, 'fill_borders'), ['x', 'z'], {})
    for c in run(setup):
        out.use(c)
        names = {e.name for e, rel, st in c.feasible_raises()}
        out.ob('an unknown dimension is refused', 'fill_borders("x", "z")', not c.returned and names == {'NameError'},
               'raised %s' % names)


def units():
    u = []
    for k, name in enumerate(GRIDS):
        u.append(('%s-yx' % name, unit(name, ('y', 'x'))))
        u.append(('%s-xy' % name, unit(name, ('x', 'y'), 3)))
        u.append(('%s-y' % name, unit(name, ('y',), 1)))
        u.append(('%s-x' % name, unit(name, ('x',), 1)))
    u += [('integer-data', integer_data), ('unknown-dimension', unknown_dimension)]
    return u
