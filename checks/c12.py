"""C12: MODIS interpolation of dask arrays and DataArrays gives what the kernels give for whole numpy arrays."""
from absint import libs
from absint.terms import ONE, const, padd, pscale
from absint.vals import Arr, DaskArr, XArr
from . import classic as K, modis
from .core import TIER
from .scen import arr, get, run

TITLE = 'MODIS interpolation of chunked and labelled arrays equals the interpolation of the whole arrays'
RULE = ('Every public MODIS function is analysed with dask arrays and DataArrays in a set of chunk layouts (aligned and '
        'not aligned with scans, smaller than a scan, chunked columns, chunks that differ between the arrays) and with '
        'numpy arrays in the same abstract run: '
        'the first and last fine rows of every scan and a set of columns (all rows in the thorough tier) of the computed '
        'blocks are compared '
        'with the value of the numpy result; declared chunks, shapes and types are compared with the computed blocks.')
MINIMUM = 3500
ASSUMPTIONS = ('dask calls the function of map_blocks once per block with the aligned blocks of the inputs',)

# name -> row chunks (in rows) for the three inputs; the number of rows is their sum
ROWS = {
    10: {'one chunk': [(30,)] * 3, 'whole scans': [(10, 20)] * 3, 'scan by scan': [(10, 10, 10)] * 3,
         'between scans': [(13, 17)] * 3, 'less than a scan': [(5, 5, 5, 5, 5, 5)] * 3, 'one row': [(1, 29)] * 3,
         'uneven': [(25, 5)] * 3, 'different': [(30,), (10, 20), (15, 15)], 'different order': [(15, 15), (30,), (10, 20)],
         'whole, then not': [(10, 5, 15)] * 3, 'not, then whole': [(5, 15, 10)] * 3, 'one scan': [(10,)] * 3},
    2: {'one chunk': [(6,)] * 3, 'whole scans': [(2, 4)] * 3, 'between scans': [(3, 3)] * 3,
        'less than a scan': [(1, 1, 1, 1, 1, 1)] * 3, 'uneven': [(5, 1)] * 3, 'different': [(6,), (2, 4), (3, 3)],
        'different order': [(1, 5), (6,), (2, 2, 2)], 'whole, then not': [(2, 1, 3)] * 3, 'not, then whole': [(1, 3, 2)] * 3, 'one scan': [(2,)] * 3},
}


def col_chunks(kind, w):
    if kind == 'one':
        return (w,)
    return (const(100), const(int(w.value) - 100))


def lazy(a, rows, cols):
    return DaskArr(a, a.shape, (tuple(const(x) for x in rows), cols), a.dtype)


def unit(L, layout, container, cols='one', dt='f8'):
    chunks = ROWS[L.crows][layout]
    rows = sum(chunks[0])
    scans = rows // L.crows

    def go(out):
        def setup(I):
            f = get(I, '%s:%s' % (L.module(), L.name))
            names = ('lon', 'lat') if L.family == 'simple' else ('lon', 'lat', 'satz')
            arrs = [arr(I, k, [rows, L.wc], dt) for k in names]
            eager = I.call(f, list(arrs), {})
            args = list(arrs)
            if 'dask' in container:
                args = [lazy(a, ch, col_chunks(cols, L.wc)) for a, ch in zip(args, chunks)]
            if 'xarray' in container:
                args = [XArr(a, ('y', 'x')) for a in args]
            n = len(I.computes)
            res = I.call(f, args, {})
            computes = I.computes[n:]
            data = [r.data if isinstance(r, XArr) else r for r in I.iterate(res)]
            vals = [libs.block_value(I, d) if isinstance(d, DaskArr) else d for d in data]
            return eager, res, data, vals, computes
        for c in run(setup):
            out.use(c)
            out.events(c, {'dask-shape', 'dask-chunks'}, 'declared and actual layout agree')
            what = '%s %s, %s, %s columns %s' % (L.tag, container, layout, cols, dt)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            eager, res, data, vals, computes = c.value
            if not out.ob('longitude and latitude are returned', what, len(data) == 2 == len(eager), str(res)):
                continue
            shape = (scans * L.frows, int(L.wf.value))
            for k, nm in enumerate(('longitude', 'latitude')):
                w = '%s %s' % (what, nm)
                d = data[k]
                if 'dask' in container:
                    if not out.ob('the result is lazy', w, isinstance(d, DaskArr), str(d)):
                        return
                    have = tuple(x.value if x.is_const else None for x in d.shape)
                    ok = out.ob('declared shape and type of the result', w, have == shape and d.dtype == dt,
                                '%s %s, expected %s %s' % (have, d.dtype, shape, dt))
                    tot = tuple(sum(int(x.value) for x in ch) for ch in d.chunks)
                    ok &= out.ob('chunks add up to the shape', w, tot == shape, str(d.chunks))
                    if not ok:
                        return
                a = vals[k]
                if not out.ob('shape and type of the computed result', w, isinstance(a, Arr) and K.dims(a) == shape
                              and a.dtype == dt, '%s, expected %s %s' % (a, shape, dt)):
                    return
                n = L.n
                thorough = TIER == 'thorough'
                cs = sorted({0, 1, n, 37 * n + 1, 100 * n - 1, 100 * n, 100 * n + n // 2, shape[1] - n, shape[1] - 2,
                             shape[1] - 1} if thorough else {0, 100 * n - 1, shape[1] - 1})
                picked = set(range(L.frows)) if thorough else {0, L.frows - 1 - k}
                for i in range(shape[0]):
                    if i % L.frows not in picked:
                        continue
                    for j in cs:
                        out.equal('value as for whole numpy arrays', '%s (%d, %d)' % (w, i, j), c.facts,
                                  K.value(c, a, (i, j)), K.value(c, eager[k], (i, j)))
                    if len(out.violations) + len(out.undecided) > 4:
                        return
            check_blocks(out, c, what, data)
    return go


def check_blocks(out, c, what, data):
    """The declared chunks are those of the computed blocks."""
    for k, d in enumerate(data):
        if not isinstance(d, DaskArr) or isinstance(d.value, Arr):
            continue
        b = d.value
        base = b.base if b.kind == 'index' else None
        if base is None or base.value.kind != 'map_blocks':
            out.unknown('declared chunks are those of the blocks', what, 'a lazy result of another kind (%s)' % b.kind)
            continue
        arrs = [x for x in base.value.args if isinstance(x, DaskArr)]
        n = [len(x) for x in arrs[0].chunks]
        out.ob('declared chunks are those of the blocks', '%s result %d' % (what, k),
               [len(x) for x in d.chunks] == n, 'declared %s, inputs %s' % (d.chunks, arrs[0].chunks))
        # the kernel returns n fine rows per coarse row of its block
        rows = [int(x.value) for x in arrs[0].chunks[0]]
        decl = [int(x.value) for x in d.chunks[0]]
        tot, want = sum(decl), sum(rows)
        out.ob('declared chunks are those of the blocks', '%s result %d rows' % (what, k),
               all(a * want == b * tot for a, b in zip(decl, rows)), 'declared %s for blocks of %s rows' % (decl, rows))


def units():
    u = []
    for family, names in (('simple', modis.SIMPLE), ('angle', modis.ANGLE)):
        for name in names:
            L = modis.Layout(family, name, 1354 if family == 'simple' else None)
            for layout in ROWS[L.crows]:
                u.append(('%s-dask-%s' % (L.tag, layout), unit(L, layout, 'dask')))
            u.append(('%s-dask-columns' % L.tag, unit(L, 'whole scans', 'dask', 'two')))
            u.append(('%s-dask-columns-rows' % L.tag, unit(L, 'between scans', 'xarray dask', 'two')))
            u.append(('%s-xarray' % L.tag, unit(L, 'one chunk', 'xarray')))
            u.append(('%s-xarray-dask' % L.tag, unit(L, 'different', 'xarray dask')))
            u.append(('%s-dask-f4' % L.tag, unit(L, 'uneven', 'dask', 'one', 'f4')))
            if L.five:
                L2 = modis.Layout(family, name, 270)
                u.append(('%s-dask-270' % L.tag, unit(L2, 'between scans', 'dask')))
        if family == 'simple':
            L = modis.Layout(family, 'modis_1km_to_500m', 150)
            u.append(('%s-dask-narrow' % L.tag, unit(L, 'whole scans', 'dask')))
    return u
