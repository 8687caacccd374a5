"""C11: the grid and spline interpolators evaluate what they were given, lazily and eagerly alike."""
from fractions import Fraction
from itertools import product

from absint import libs, terms as T
from absint.terms import ONE, ZERO, atom_poly, cmp_ge, const, leaf, mk_atom, psub
from absint.vals import Arr, DaskArr, Lib, Num
from . import classic as K, geo
from .classic import elem, fixed
from .scen import S, arr, client, get, run

TITLE = 'Lazy and eager grid and spline interpolation give the interpolant at every requested point'
RULE = ('Every pixel, whichever way it is asked for (eager, lazy with any chunking, slices, shape), has to be the '
        'evaluation of the interpolant recorded for the given tie points, values and options at the fine point of that '
        'pixel, with the options of the call.  Lazy results: every block of the declared chunks has a task, of the '
        'declared shape and type; results that differ have different names in the graph.')
MINIMUM = 15000
ASSUMPTIONS = ('dask evaluates every task of a graph once with the arguments that the graph holds',)

N, M_ = 4, 5
FY, FX = 7, 9


def kwopts(kind, opts):
    return {k: Num(T.TRUE if v else T.FALSE, 'bool') if isinstance(v, bool) else
            (v if isinstance(v, str) or v is None else Num(const(v), 'int')) for k, v in opts.items()}


CHUNKS = {'3,4': (3, 4), '7,9': (7, 9), '2': 2, 'whole': -1, 'lists': ((3, 3, 1), (5, 4)), 'uneven': ((1, 6), (2, 3, 4)),
          'one row': (1, 9), 'auto': 'auto', 'big': 100}


def chunk_arg(I, spec):
    if isinstance(spec, str):
        return spec
    if isinstance(spec, int):
        return Num(const(spec), 'int')
    return tuple(chunk_arg(I, x) for x in spec)


KINDS = {'SingleGridInterpolator': 'rgi', 'SingleSplineInterpolator': 'spline'}


def single(I, kind, dt, init, name='v'):
    cls = get(I, 'geotiepoints.interpolator:' + kind)
    pts = (arr(I, 'py', [N]), arr(I, 'px', [M_]))
    return I.call(cls, [pts, arr(I, name, [N, M_], dt)], kwopts(kind, init))


def evaluation(out, c, w, v, kind, want_y, want_x, call):
    """The interpolant that a value is an evaluation of."""
    k = {'rgi': 'rgi', 'spline': 'spl'}[kind]
    ats = K.atoms_of(v, k)
    if not out.ob('value = evaluation of the interpolant', w, len(ats) == 1 and v.cond is None and
                  v.leaf is atom_poly(ats[0]), T.show_tree(v)[:300]):
        return None
    a = ats[0]
    if kind == 'rgi':
        uid, opts, p, q = a.args
        want = tuple(sorted((n, repr(libs.token_key(c.I, x))) for n, x in kwopts(None, call).items() if x is not None))
        out.ob('options of the call are used', w, tuple(opts) == want, 'got %s want %s' % (opts, want))
    else:
        uid, p, q, dx, dy = a.args
        want = (call.get('dx', 0), call.get('dy', 0))
        out.ob('options of the call are used', w, (dx, dy) == (const(want[0]), const(want[1])), '%s %s' % (dx, dy))
    f = c.facts
    ok = out.equal('the interpolant is evaluated at the fine point of the pixel', w + ' row', f, leaf(p), want_y)
    ok &= out.equal('the interpolant is evaluated at the fine point of the pixel', w + ' column', f, leaf(q), want_x)
    return uid if ok else None


def record(out, c, what, kind, uid, init, values='v', py='py', px='px'):
    """The interpolant was made from the tie points and values, with the given options."""
    rec = [o for o in K.records(c, kind) if o.uid == uid][0]
    I = c.I
    if kind == 'rgi':
        pts, vals = rec.points, rec.values
        want = {k: v for k, v in init.items()}
        have = {k: concrete(I, v) for k, v in rec.opts.items() if not (k in ('method',) and v == 'linear' and k not in want)}
        if have.get('bounds_error') is True and 'bounds_error' not in want:
            have.pop('bounds_error')
    else:
        pts, vals = (rec.x, rec.y), rec.z
        want = dict(init)
        have = {k: concrete(I, v) for k, v in rec.opts.items()}
        for k, d in (('kx', 3), ('ky', 3), ('s', 0), ('bbox', None)):
            if k not in want and k in have and have[k] == d:
                have.pop(k)
            if k not in have and k in want and want[k] == d:
                have[k] = d
    out.ob('options of the constructor are used', what, have == want, 'got %s, expected %s' % (have, want))
    for nm, a, sym_, n in (('rows', pts[0], py, N), ('columns', pts[1], px, M_)):
        if out.ob('the interpolant holds the tie points', '%s %s' % (what, nm), K.dims(a) == (n,), str(K.dims(a))):
            for k in range(n):
                out.equal('the interpolant holds the tie points', '%s %s %d' % (what, nm, k), c.facts,
                          K.value(c, a, (k,)), elem(sym_, k) if isinstance(sym_, str) else sym_(k))
    if out.ob('the interpolant holds the values', what, K.dims(vals) == (N, M_), str(K.dims(vals))):
        for i in range(N):
            for j in range(M_):
                out.equal('the interpolant holds the values', '%s (%d, %d)' % (what, i, j), c.facts,
                          K.value(c, vals, (i, j)), elem(values, i, j) if isinstance(values, str) else values(i, j))


def concrete(I, v):
    v = I.settle(v)
    if isinstance(v, Num):
        x = I.concrete(v)
        return bool(x) if v.ty == 'bool' else x
    return v


def eager(kind, dt, init, call, how):
    def unit(out):
        def setup(I):
            ip = single(I, kind, dt, init)
            kw = kwopts(kind, call)
            if how == 'slices':
                sl = tuple(libs.SliceV(Num(const(a), 'int'), Num(const(b), 'int'), None) for a, b in ((2, 2 + FY), (1, 1 + FX)))
                return I.call(I.getattr(ip, 'interpolate_slices'), [sl], kw)
            return I.call(I.getattr(ip, 'interpolate' if how == 'interpolate' else 'interpolate_numpy'),
                          [(arr(I, 'fy', [FY]), arr(I, 'fx', [FX]))], kw)
        for c in run(setup):
            out.use(c)
            what = '%s %s %s %s %s' % (kind, dt, init, call, how)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            check_array(out, c, what, c.value, kind, dt, init, call, how)
    return unit


def check_array(out, c, what, a, kind, dt, init, call, how='', values='v', prefix=('fy', 'fx')):
    if not out.ob('one value per fine point, in the precision of the values', what,
                  isinstance(a, Arr) and K.dims(a) == (FY, FX) and a.dtype == dt, str(a)):
        return None
    uids = set()
    for i in range(FY):
        for j in range(FX):
            wy = leaf(const(2 + i)) if how == 'slices' else elem(prefix[0], i)
            wx = leaf(const(1 + j)) if how == 'slices' else elem(prefix[1], j)
            if how == 'shape':
                wy, wx = leaf(const(i)), leaf(const(j))
            u = evaluation(out, c, '%s pixel (%d, %d)' % (what, i, j), K.value(c, a, (i, j)), KINDS.get(kind, kind), wy, wx, call)
            if u is None:
                return None
            uids.add(u)
    out.ob('all pixels come from one interpolant', what, len(uids) == 1, str(uids))
    uid = min(uids)
    record(out, c, what, KINDS.get(kind, kind), uid, init, values)
    return uid


def lazy_blocks(out, c, what, d, dt):
    """Every block of the declared chunks is there, with the declared shape and type; the computed array."""
    if not out.ob('a lazy array is returned', what, isinstance(d, DaskArr), str(type(d))):
        return None
    b = d.value
    if isinstance(b, Arr):
        return b
    if b.kind != 'graph':
        return libs.block_value(c.I, d)
    names = {k[0] for k, t in b.graph.values() if isinstance(k, tuple)}
    out.ob('tasks belong to the array', what, names == {d.name} and b.name == d.name, '%s, array %s' % (names, d.name))
    blocks = libs.graph_blocks(c.I, d)
    for pos, a in blocks.items():
        want = tuple(int(ch[p].value) for ch, p in zip(d.chunks, pos))
        out.ob('a block has the declared shape and type', '%s block %s' % (what, pos), isinstance(a, Arr) and
               K.dims(a) == want and a.dtype == d.dtype, 'block %s, declared %s %s' % (a, want, d.dtype))
    return libs.block_value(c.I, d)


def lazy(kind, dt, spec, init, call):
    def unit(out):
        def setup(I):
            ip = single(I, kind, dt, init)
            kw = kwopts(kind, call)
            kw['chunks'] = chunk_arg(I, CHUNKS[spec])
            d = I.call(I.getattr(ip, 'interpolate'), [(arr(I, 'fy', [FY]), arr(I, 'fx', [FX]))], kw)
            n = len(I.evaluations)
            return d, n
        for c in run(setup):
            out.use(c)
            out.events(c, {'dask-shape', 'dask-chunks'}, 'declared and actual layout agree')
            what = '%s %s chunks %s %s %s' % (kind, dt, spec, init, call)
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            d, n = c.value
            out.ob('nothing is evaluated before it is asked for', what, n == 0 and not c.I.computes,
                   '%d evaluations, %s' % (n, c.I.computes[:2]))
            if not (isinstance(d, DaskArr) and out.ob('the lazy array has the shape and type of the result', what,
                    [x.value if x.is_const else None for x in d.shape] == [FY, FX] and d.dtype == dt, '%s %s' % (d.shape, d.dtype))):
                out.ob('a lazy array is returned', what, False, str(d))
                continue
            want = CHUNKS[spec]
            if spec not in ('auto',):
                ref = reference_chunks(want, (FY, FX))
                have = tuple(tuple(int(x.value) for x in ch) for ch in d.chunks)
                out.ob('the requested chunks are used', what, have == ref, '%s, expected %s' % (have, ref))
            a = lazy_blocks(out, c, what, d, dt)
            if a is not None:
                check_array(out, c, what, a, kind, dt, init, call)
    return unit


def reference_chunks(spec, shape):
    if isinstance(spec, int):
        spec = (spec,) * len(shape)
    r = []
    for s, n in zip(spec, shape):
        if isinstance(s, tuple):
            r.append(s)
            continue
        if s == -1:
            s = n
        s = min(s, n)
        r.append(tuple([s] * (n // s) + ([n % s] if n % s else [])))
    return tuple(r)


# two requests that differ in one respect
DIFFER = {
    'values': dict(values='w'), 'tie points': dict(py='qy'), 'fine rows': dict(fy='gy'), 'fine columns': dict(fx='gx'),
    'chunks': dict(chunks=(2, 4)), 'options of the call': dict(call=1), 'options of the constructor': dict(init=1),
}


def names(kind, what):
    """Different results have different names, and may be in one graph."""
    init2 = {'SingleGridInterpolator': {'method': 'nearest'}, 'SingleSplineInterpolator': {'kx': 1}}[kind]
    call2 = {'SingleGridInterpolator': {'method': 'nearest'}, 'SingleSplineInterpolator': {'dx': 1}}[kind]
    other = 'SingleSplineInterpolator' if kind == 'SingleGridInterpolator' else 'SingleGridInterpolator'

    def unit(out):
        def setup(I):
            def go(kind=kind, values='v', py='py', fy='fy', fx='fx', chunks=(3, 4), call=0, init=0):
                cls = get(I, 'geotiepoints.interpolator:' + kind)
                ip = I.call(cls, [(arr(I, py, [N]), arr(I, 'px', [M_])), arr(I, values, [N, M_], 'f8')],
                            kwopts(kind, init2 if init else {}))
                kw = kwopts(kind, call2 if call else {})
                kw['chunks'] = chunk_arg(I, chunks)
                return I.call(I.getattr(ip, 'interpolate'), [(arr(I, fy, [FY]), arr(I, fx, [FX]))], kw)
            d = dict(DIFFER[what]) if what in DIFFER else {'kind': other}
            return go(), go(**d)
        for c in run(setup):
            out.use(c)
            w = '%s: two results that differ in %s' % (kind, what)
            if not K.accepted(out, c, w):
                out.ob('the interpolation returns', w, False)
                continue
            a, b = c.value
            ka, kb = getattr(a.name, 'key', str(a.name)), getattr(b.name, 'key', str(b.name))
            out.ob('different results have different names', w, ka != kb, 'both are named by %s' % (str(ka)[:300],))
    return unit


def multiple(kind, spec, how, geographic, swath=False):
    """Several fields at once; longitude and latitude through their cartesian components."""
    rec = 'rgi' if 'Grid' in kind else 'spline'

    def unit(out):
        dt = 'f8'

        def setup(I):
            mod = 'geotiepoints.geointerpolator' if geographic else 'geotiepoints.interpolator'
            cls = get(I, '%s:%s' % (mod, kind))
            pts = (arr(I, 'py', [N]), arr(I, 'px', [M_]))
            if swath:
                m = client(I, 'swath')
                data = [I.call(I.global_get(m, 'Swath'), [None, None, arr(I, 'xyz', [N, M_, 3])], {})]
            else:
                data = [arr(I, k, [N, M_], dt) for k in (('lon', 'lat') if geographic else ('v', 'w', 'u'))]
            ip = I.call(cls, [pts] + data, {})
            kw = {} if spec is None else {'chunks': chunk_arg(I, CHUNKS[spec])}
            if how == 'shape':
                r = I.call(I.getattr(ip, 'interpolate_to_shape'), [(Num(const(FY), 'int'), Num(const(FX), 'int'))], kw)
            else:
                r = I.call(I.getattr(ip, 'interpolate'), [(arr(I, 'fy', [FY]), arr(I, 'fx', [FX]))], kw)
            return tuple(I.iterate(r))
        for c in run(setup):
            out.use(c)
            what = '%s chunks %s by %s%s' % (kind, spec, how, ' from a swath definition' if swath else '')
            if not K.accepted(out, c, what):
                out.ob('the interpolation returns', what, False)
                continue
            got = list(c.value)
            if not out.ob('one result per field', what, len(got) == (2 if geographic else 3), len(got)):
                continue
            arrs = []
            for k, a in enumerate(got):
                if spec is not None:
                    out.ob('a lazy array is returned', what, isinstance(a, DaskArr), str(a))
                    a = lazy_blocks(out, c, '%s result %d' % (what, k), a, dt) if isinstance(a, DaskArr) else a
                arrs.append(a)
            if any(a is None for a in arrs):
                continue
            if not geographic:
                for k, a in enumerate(arrs):
                    check_array(out, c, '%s field %d' % (what, k), a, rec, dt, {}, {}, how, 'vwu'[k])
                continue
            geo_check(out, c, what, arrs, rec, how, swath)
    return unit


def geo_check(out, c, what, arrs, rec, how, swath):
    k = {'rgi': 'rgi', 'spline': 'spl'}[rec]
    R = geo.lift(6370997)
    order = None
    for i in range(FY):
        for j in range(FX):
            w = '%s pixel (%d, %d)' % (what, i, j)
            vs = [K.value(c, a, (i, j)) for a in arrs]
            ats = {a.args[0]: a for v in vs for a in K.atoms_of(v, k)}
            if not out.ob('three interpolants per pixel', w, len(ats) == 3, str(sorted(ats))):
                return
            for a in ats.values():
                p, q = (a.args[2], a.args[3]) if k == 'rgi' else (a.args[1], a.args[2])
                wy, wx = (leaf(const(i)), leaf(const(j))) if how == 'shape' else (elem('fy', i), elem('fx', j))
                out.equal('the interpolant is evaluated at the fine point of the pixel', w, c.facts, leaf(p), wy)
                out.equal('the interpolant is evaluated at the fine point of the pixel', w, c.facts, leaf(q), wx)
            if order is None:
                order = match(out, c, what, rec, sorted(ats), swath)
                if order is None:
                    return
            if not out.ob('all pixels come from the same interpolants', w, set(order) == set(ats), str(sorted(ats))):
                return
            x, y, z = [leaf(atom_poly(ats[u])) for u in order]
            out.equal('longitude from the interpolated components', w, c.facts, vs[0], geo.longitude(x, y))
            out.equal('latitude from the interpolated components', w, c.facts, vs[1], geo.latitude(x, y, z, R))
            if len(out.violations) > 5:
                return


def match(out, c, what, rec, uids, swath):
    """The interpolants of x, y and z, told apart by their data; records are compared with the tie points."""
    R = geo.lift(6370997)

    def comp(k):
        if swath:
            return lambda i, j: elem('xyz', i, j, k)
        return lambda i, j: geo.xyz(elem('lon', i, j), elem('lat', i, j), R)[k]
    recs = {o.uid: o for o in K.records(c, rec)}
    from . import witness
    order, left = [], list(uids)
    for k in range(3):
        for u in left:
            z = recs[u].values if rec == 'rgi' else recs[u].z
            try:
                if witness.compare(c.facts, K.value(c, z, (0, 0)), comp(k)(0, 0)) is None:
                    break
            except T.AnalysisError:
                pass
        else:
            order = list(uids)
            break
        left.remove(u)
        order.append(u)
    for k, u in enumerate(order):
        record(out, c, '%s component %s' % (what, 'xyz'[k]), rec, u, {}, comp(k))
    return order


def units():
    u = []
    opts = {'SingleGridInterpolator': ([{}, {'method': 'nearest'}, {'bounds_error': False, 'fill_value': None}],
                                       [{}, {'method': 'nearest'}]),
            'SingleSplineInterpolator': ([{}, {'kx': 1, 'ky': 2}, {'s': 0, 'kx': 1}], [{}, {'dx': 1}, {'dy': 1}])}
    for kind, (inits, calls) in opts.items():
        for dt in ('f8', 'f4'):
            for k, init in enumerate(inits):
                for m, call in enumerate(calls):
                    if k and m:
                        continue
                    for how in ('interpolate', 'numpy', 'slices'):
                        u.append(('eager-%s-%s-%d%d-%s' % (kind, dt, k, m, how), eager(kind, dt, init, call, how)))
        for spec in CHUNKS:
            u.append(('lazy-%s-%s' % (kind, spec), lazy(kind, 'f8', spec, {}, {})))
        u.append(('lazy-%s-f4' % kind, lazy(kind, 'f4', '3,4', inits[1], {})))
        u.append(('lazy-%s-call' % kind, lazy(kind, 'f8', '3,4', {}, calls[1])))
        for what in list(DIFFER) + ['kind of interpolation']:
            u.append(('names-%s-%s' % (kind, what), names(kind, what)))
    for kind, g in (('MultipleGridInterpolator', False), ('MultipleSplineInterpolator', False),
                    ('GeoGridInterpolator', True), ('GeoSplineInterpolator', True)):
        for spec in (None, '3,4', 'uneven'):
            for how in ('points', 'shape'):
                u.append(('%s-%s-%s' % (kind, spec, how), multiple(kind, spec, how, g)))
        if g:
            u.append(('%s-swath' % kind, multiple(kind, None, 'points', True, True)))
    return u
