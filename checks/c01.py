"""C01: the compiled kernels stay inside their arrays."""
from absint.terms import ONE, atom_poly, cmp_ge, const, mk_atom, padd, pscale, psub
from absint.vals import Lib, Num
from . import modis
from .scen import S, arr, get, run

TITLE = 'The compiled kernels stay inside their arrays for every input'
RULE = ('Array accesses of the compiled modules are made without bounds checks.  Every access, slice, unsigned '
        'subtraction and integer division that can be reached from the public entry points, with arrays of arbitrary '
        'symbolic shapes (consistent or not), has to be shown inside its array from the path facts.')
MINIMUM = 300
ASSUMPTIONS = ('allocation never fails', 'sizes stay below 2**31 per C int')
KINDS = {'bounds', 'unsigned', 'division', 'uninit-variable', 'index'}


def compiled(e):
    """Only accesses in compiled code are unchecked; numpy raises an IndexError for its own."""
    return not str(e['where'][0]).startswith('geotiepoints._') and 'cython' not in str(e['where'][0])


def check(out, c):
    out.use(c)
    out.events(c, KINDS, 'access stays in bounds', allow=compiled)


def modis_any(family, name, dt, shapes):
    """Arrays of any shape: consistent ones are interpolated, others rejected, none is overrun."""
    def unit(out):
        n = (modis.SIMPLE if family == 'simple' else modis.ANGLE)[name][0]
        if shapes == 'same':
            dims = [[S('rows', 0), S('cols', 0)]] * 3
        elif shapes == 'scans':
            dims = [[pscale(S('scans', 0), n), S('cols', 0)]] * 3
        else:
            dims = [[S('rows%d' % k, 0), S('cols%d' % k, 0)] for k in range(3)]

        def setup(I):
            mod = 'geotiepoints.simple_modis_interpolator' if family == 'simple' else 'geotiepoints.modisinterpolator'
            f = get(I, '%s:%s' % (mod, name))
            names = ('lon', 'lat') if family == 'simple' else ('lon', 'lat', 'satz')
            args = [arr(I, nm, sh, dt) for nm, sh in zip(names, dims)]
            return I.call(f, args, {})
        n = 0
        for c in run(setup, limit=200):
            check(out, c)
            n += 1
        out.ob('the entry point was analysed', '%s.%s %s %s' % (family, name, dt, shapes), n > 0)
    return unit


def resolutions(family, coarse, fine, dt='f8'):
    def unit(out):
        rows, cols, width = S('rows', 0), S('cols', 0), S('width', 0)

        def setup(I):
            if family == 'simple':
                f = get(I, 'geotiepoints._simple_modis_interpolator:interpolate_geolocation_cartesian')
            else:
                f = get(I, 'geotiepoints._modis_interpolator:interpolate')
            names = ('lon', 'lat') if family == 'simple' else ('lon', 'lat', 'satz')
            args = [arr(I, nm, [rows, cols], dt) for nm in names]
            kw = {'coarse_resolution': Num(const(coarse), 'int'), 'fine_resolution': Num(const(fine), 'int')}
            if family != 'simple' and coarse == 5000:
                kw['coarse_scan_width'] = Num(width, 'int')
            return I.call(f, args, kw)
        n = 0
        for c in run(setup, limit=200):
            check(out, c)
            n += 1
        out.ob('the entry point was analysed', '%s %d to %d' % (family, coarse, fine), n > 0)
    return unit


def multilinear(d, dt, small=None):
    """Any orders for d <= 2; beyond, orders of at least 2, and separately one order that is too small."""
    def unit(out):
        na, nb, nc, nv, ng, ns = [S(x, 0) for x in ('na', 'nb', 'nc', 'nv', 'ng', 'ns')]
        n = [S('n%d' % k, 1) for k in range(d)]

        def setup(I):
            f = get(I, 'geotiepoints.multilinear_cython:multilinear_interpolation')
            if d > 2 and small is None:
                items = [Num(padd(x, ONE), 'int') for x in n]
                orders = I.call(Lib('numpy.array'), [I.new_list(items)], {})
            else:
                orders = arr(I, 'orders', [nc], 'i8')
            if small is not None:
                o = atom_poly(mk_atom('elem', ('orders', (const(small),)), True))
                I.st.assume(cmp_ge(psub(ONE, o)))
            return I.call(f, [arr(I, 'smin', [na], dt), arr(I, 'smax', [nb], dt), orders,
                              arr(I, 'values', [nv, ng], dt), arr(I, 's', [const(d), ns], dt)], {})
        cases = 0
        for c in run(setup, limit=200):
            check(out, c)
            cases += 1
            if small is not None:
                out.ob('an order below two is rejected before any access', '%dd %s axis %d' % (d, dt, small),
                       not c.returned, 'the kernel is reached')
        out.ob('the entry point was analysed', '%d dimensions %s' % (d, dt), cases > 0)
    return unit


def units():
    u = []
    for fam, names in (('simple', modis.SIMPLE), ('angle', modis.ANGLE)):
        for name in names:
            for dt in ('f8', 'f4'):
                for sh in ('same', 'scans', 'any'):
                    u.append(('%s-%s-%s-%s' % (fam, name, dt, sh), modis_any(fam, name, dt, sh)))
        for coarse in (1000, 5000):
            for fine in (250, 500, 1000, 100):
                u.append(('%s-resolution-%d-%d' % (fam, coarse, fine), resolutions(fam, coarse, fine)))
    for d in range(0, 6):
        for dt in ('f8', 'f4'):
            u.append(('multilinear-%dd-%s' % (d, dt), multilinear(d, dt)))
            if d in (1, 2, 3, 4):
                for k in range(d):
                    u.append(('multilinear-%dd-%s-small%d' % (d, dt, k), multilinear(d, dt, k)))
    return u
