"""C14: results have the shape, container, dimensions and precision that the call promises."""
from absint import libs
from absint.vals import Arr, DaskArr, XArr
from . import classic as K, entries as E
from .core import TIER
from .scen import run

TITLE = 'Results have the shape, container, dimensions and precision that are due'
RULE = ('For every public entry point, container and type of the input and several sizes: the shape of every result is '
        'the one that the layout, grid or request gives, the container is that of the input, dimensions keep their '
        'names and order, no result is less precise than the input (the MODIS, conversion, grid and multilinear '
        'functions keep the precision), and what a lazy result declares is what its computed value has.')
MINIMUM = 2500
ASSUMPTIONS = ('numpy, dask, xarray, scipy and pandas promote types as documented',)

SAME = ('simple', 'angle', 'to cartesian', 'from cartesian', 'Single', 'Multiple', 'Geo', 'multilinear')
FINE = {'modis_1km_to_250m': (10, 4, 5416), 'modis_1km_to_500m': (10, 2, 2708), 'modis_5km_to_1km': (2, 5, 1354),
        'modis_5km_to_500m': (2, 10, 2708), 'modis_5km_to_250m': (2, 20, 5416)}
SWATH = {'modis5kmto1km': (2, 5, 1354), 'generic_modis5kmto1km': (2, 5, 1354), 'modis1kmto500m': (10, 2, 2708),
         'modis1kmto250m': (10, 4, 5416)}


def expected(name, size):
    """(shapes of the results, dimensions)"""
    w = name.split()
    if w[0] in ('simple', 'angle'):
        rows, n, cols = FINE[w[1]]
        s = (rows * (1 + size) * n, 30 * n if w[0] == 'simple' else cols)
        return [s, s], E.DIMS
    n = int(name.split(', ')[1][0]) if ', ' in name else 2
    if name.startswith('VII fields'):
        s = ((2 + size) * 2 * 4, (3 + size) * 4)
        return [s] * n, ('alt', 'act')
    if name == 'VII positions':
        s = ((2 + size) * 1 * 4, (2 + size) * 4)
        return [s, s], ('alt', 'act')
    if name in ('to cartesian', 'from cartesian'):
        return [(4 + size, 5)] * (3 if name[0] == 't' else 2), E.DIMS
    if w[0] == 'classic':
        rows, cols, hr, hc = E.grids(2 * size if 'chunk' in name else size, '1d' in name)
        return [(len(hr), len(hc))] * (1 if 'single' in name else 3 if 'three' in name else 2), None
    if name in SWATH:
        rows, n, cols = SWATH[name]
        return [(rows * (1 + size) * n, cols)] * 2, None
    if name == 'metop20kmto1km':
        return [(2 * (1 + size) + 2, 2048)] * 2, None
    if w[0].startswith(('Single', 'Multiple', 'Geo')):
        s = (3, 3) if 'slices' in name else (3 + size, 5)
        return [s] * (1 if w[0].startswith('Single') else n), None
    if w[0] == 'multilinear':
        d = int(w[1][0])
        n = [2 + size, 3, 2, 2][:d]
        tot = 1
        for x in n:
            tot *= x
        return [(d, tot), (2, 3 + size)], None
    assert name == 'basic'
    return [(4 + 4 * size + 1, 10)] * 2, None


def dims(a):
    return tuple(int(n.value) if n.is_const else str(n) for n in a.shape)


def unit(name, how, dt, size):
    def go(out):
        shapes, dnames = expected(name, size)

        def setup(I):
            c = E.call(I, name, '', how, dt, size)
            return c.results, [E.data_of(I, r) for r in c.results]
        for c in run(setup):
            out.use(c)
            what = '%s, %s %s, size %d' % (name, how, dt, size)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            results, data = c.value
            if name == 'VII positions' and len(results) == 4:
                shapes = shapes[:2] * 2      # either choice of coordinates
            if not out.ob('number of results', what, len(results) == len(shapes), '%d results' % len(results)):
                continue
            for k, (r, a, s) in enumerate(zip(results, data, shapes)):
                w = '%s result %d' % (what, k)
                declared = r.data if isinstance(r, XArr) else r
                out.ob('container of the result', w, isinstance(r, XArr) == ('DataArray' in how), str(r))
                out.ob('lazy or eager', w, isinstance(declared, DaskArr) == E.is_lazy(name, how), str(declared))
                if isinstance(r, XArr):
                    out.ob('names and order of the dimensions', w, tuple(r.dims) == dnames, str(r.dims))
                if not out.ob('the result is an array', w, isinstance(a, Arr), str(a)):
                    continue
                out.ob('shape of the result', w, dims(a) == s, '%s, expected %s' % (dims(a), s))
                ok = a.dtype == dt if name.startswith(SAME) and dt[0] == 'f' else a.dtype[0] == 'f' and (
                    dt[0] != 'f' or a.dtype >= dt)
                out.ob('precision of the result', w, ok, '%s from %s' % (a.dtype, dt))
                if isinstance(declared, DaskArr):
                    out.ob('declared shape', w, dims(declared) == dims(a), '%s, computed %s' % (dims(declared), dims(a)))
                    # xarray declares single precision for interpolated single precision
                    if not (name.startswith('VII') and dt != 'f8'):
                        out.ob('declared type', w, declared.dtype == a.dtype, '%s, computed %s' % (declared.dtype, a.dtype))
                    if declared.chunks is not None:
                        for n, ch in zip(dims(declared), declared.chunks):
                            out.ob('declared chunks add up to the shape', w, all(x.is_const for x in ch) and
                                   sum(int(x.value) for x in ch) == n, str(ch))
    return go


def units():
    u = []
    for name, (f, hows) in E.ENTRIES.items():
        for how in hows:
            types = ['f8', 'f4']
            # integers: the kernels of the MODIS functions refuse them, grid interpolants keep the type of their values
            if not name.startswith(('simple', 'angle', 'Single', 'Multiple', 'multilinear')):
                types.append('i4')
            for dt in types:
                sizes = (0, 2) if dt == 'f8' or TIER == 'thorough' else (1,)
                for size in sizes:
                    u.append(('%s-%s-%s-%d' % (name, how, dt, size), unit(name, how, dt, size)))
    return u
