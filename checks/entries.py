"""The public entry points, with inputs of every kind of container, for the properties that hold of all of them."""
from fractions import Fraction
from functools import partial

from absint import arrays as A, libs, terms as T
from absint.terms import ZERO, atom_poly, const, mk_atom
from absint.vals import Arr, Choice, DaskArr, Num, Ref, SliceV, XArr
from . import classic as K, modis
from .scen import arr, client, get

NUMPY, DASK, XNUMPY, XDASK = 'numpy', 'dask', 'DataArray', 'lazy DataArray'


class Case:
    """What an entry was called with and what came out."""

    def __init__(self):
        self.inputs = []     # (name, object)
        self.results = []
        self.lists = []      # (list reference, items)


DIMS = ('lines', 'pixels')


class Maker:
    """Builds the inputs of one call: arrays with names of their own in a container."""

    def __init__(self, I, tag, how, dt, strided=False, layout='rows'):
        self.I, self.tag, self.how, self.dt, self.strided = I, tag, how, dt, strided
        self.layout = layout    # of dask chunks: rows (two parts), whole, tiles or many
        self.case = Case()
        # calls tagged F or G are made with other parameters
        self.other = {'F': 1, 'G': 2}.get(tag, 0)

    def raw(self, name, shape, dt=None):
        a = arr(self.I, name + self.tag, shape, dt or self.dt, strided=self.strided)
        self.case.inputs.append((name + self.tag, a))
        return a

    def array(self, name, shape, dims=DIMS, dt=None, unit=1):
        a = self.raw(name, shape, dt)
        if 'azy' in self.how or self.how == DASK:
            ch = []
            for k, n in enumerate(a.shape):
                m = int(n.value) if n.is_const else 0
                if self.layout == 'whole':
                    ch.append((n,))
                elif k == 0 and m > unit and m % unit == 0:
                    h = m // unit // 2 * unit or unit
                    if self.layout == 'many':
                        ch.append((const(unit),) * (m // unit))
                    else:
                        ch.append((const(h), const(m - h)) if m - h else (n,))
                elif k == 1 and self.layout == 'tiles' and m > 1:
                    ch.append((const(m // 2), const(m - m // 2)))
                else:
                    ch.append((n,))
            a = DaskArr(a, a.shape, tuple(ch), a.dtype)
            self.case.inputs.append((name + self.tag + ' (dask)', a))
        if 'DataArray' in self.how:
            a = XArr(a, dims)
            self.case.inputs.append((name + self.tag + ' (DataArray)', a))
        return a

    def points(self, values):
        """Positions that the caller owns."""
        a = K.fixed(self.I, [v * (1 + self.other) for v in values])
        a.buf.owner = {'input': 'positions'}
        self.case.inputs.append(('positions', a))
        return a

    def list(self, items):
        r = self.I.new_list(items)
        self.case.lists.append((r, self.I.list_items(r)))
        return r

    def call(self, f, args, kw=None):
        f = get(self.I, f) if isinstance(f, str) else f
        return self.I.call(f, args, kw or {})

    def method(self, o, name, args=(), kw=None):
        return self.I.call(self.I.getattr(o, name), list(args), kw or {})

    def done(self, v):
        self.case.results = flat(self.I, v)
        self.case.places = places(v, self.I)
        return self.case


def places(v, I):
    """The place among the results of each of the flat results."""
    if isinstance(v, Choice):
        return places(v.a, I) + places(v.b, I)
    if isinstance(v, (tuple, list)) or (isinstance(v, Ref) and v.kind in ('list', 'gen')):
        return [k for k, x in enumerate(v if isinstance(v, (tuple, list)) else I.iterate(v)) for _ in flat(I, x)]
    return [0 for _ in flat(I, v)]


def flat(I, v):
    if isinstance(v, (tuple, list)) or (isinstance(v, Ref) and v.kind in ('list', 'gen')):
        out = []
        for x in (v if isinstance(v, (tuple, list)) else I.iterate(v)):
            out += flat(I, x)
        return out
    if isinstance(v, Choice):
        return flat(I, v.a) + flat(I, v.b)
    if isinstance(v, (Arr, DaskArr, XArr, Num)) or v is None:
        return [v]
    return flat(I, tuple(I.iterate(v)))


def data_of(I, v):
    """The computed array of a result."""
    if isinstance(v, XArr):
        v = v.data
    if isinstance(v, DaskArr):
        v = libs.block_value(I, v)
    return v


def ints(*v):
    return tuple(Num(const(x), 'int') for x in v)


def seq(n, start=0, step=1, div=1):
    return [Fraction(start + k * step, div) for k in range(n)]


# ------------------------------------------------------------------ the entry points

def e_modis(family, name, width):
    L = modis.Layout(family, name, width)

    same = [k for k, v in (modis.SIMPLE if family == 'simple' else modis.ANGLE).items() if v[0] == L.crows]

    def go(M, size):
        names = ('lon', 'lat') if family == 'simple' else ('lon', 'lat', 'satz')
        rows = L.crows * (1 + size)
        fun, cols = name, L.wc
        if M.other == 1 and L.five:
            cols = const(270 + 271 - int(L.wc.value))
        elif M.other:
            fun = same[(same.index(name) + 1) % len(same)]
        args = [M.array(k, [rows, cols], unit=L.crows) for k in names]
        return M.done(M.call('%s:%s' % (L.module(), fun), args))
    return go


def e_vii(M, size, fields='ab'):
    n = 6 + 3 * size
    data = M.list([M.array(k, [n, 4 + size], ('alt', 'act'), unit=3) for k in fields])
    return M.done(M.call('geotiepoints.viiinterpolator:tie_points_interpolation', [data, *ints(*((3, 4), (3, 2), (2, 4))[M.other])]))


def e_viigeo(M, size):
    n = 4 + 2 * size
    args = [M.array(k, [n, 3 + size], ('alt', 'act'), unit=2) for k in ('lon', 'lat')]
    th = [] if not M.other else [Num(const(30), 'float'), Num(const(Fraction(1, 2)), 'float')]
    return M.done(M.call('geotiepoints.viiinterpolator:tie_points_geo_interpolation', [*args, *ints(2, 4 + M.other), *th]))


def e_to(M, size):
    sh = [4 + size, 5]
    return M.done(M.call('geotiepoints.geointerpolator:lonlat2xyz', [M.array('lon', sh), M.array('lat', sh)]))


def e_from(M, size):
    sh = [4 + size, 5]
    return M.done(M.call('geotiepoints.geointerpolator:xyz2lonlat', [M.array(k, sh) for k in 'xyz']))


def grids(size, one=False):
    rows = [2 + 5 * k for k in range(4 + size)]
    cols = [1 + 3 * k for k in range(5 + size)]
    hr = list(range(5 * (4 + size)))
    if one:
        rows = hr = list(range(4 + size))
    return rows, cols, hr, list(range(3 * (5 + size)))


def e_classic(what):
    def go(M, size):
        I = M.I
        rows, cols, hr, hc = grids(2 * size if 'chunk' in what else size, '1d' in what)
        sh = [len(rows), len(cols)]
        g = [(M.points(rows), M.points(cols)), (M.points(hr), M.points(hc))]
        kw = dict(zip(('kx_', 'ky_'), ints(*((1, 3), (3, 1), (1, 3))[M.other])))
        if 'chunk' in what:
            kw['chunk_size'] = ints(10)[0]
        if 'geo' in what:
            ip = M.call('geotiepoints.geointerpolator:GeoInterpolator', [(M.raw('lon', sh), M.raw('lat', sh)), *g], kw)
        elif 'three' in what:
            ip = M.call('geotiepoints.interpolator:Interpolator', [M.list([M.raw(k, sh) for k in 'abc']), *g], kw)
        elif 'single' in what:
            ip = M.call('geotiepoints.interpolator:Interpolator', [M.raw('a', sh), *g], kw)
        else:
            ip = M.call('geotiepoints.interpolator:Interpolator', [M.list([M.raw('a', sh), M.raw('b', sh)]), *g], kw)
        if 'fill' in what:
            M.method(ip, 'fill_borders', 'yx')
        return M.done(M.method(ip, 'interpolate'))
    return go


def e_satellite(name, rows, cols):
    def go(M, size):
        f = 'geotiepoints%s:%s' % ('.interpolator' if name.startswith('generic') else '', name)
        n = rows * (1 + size) + (2 if name.startswith('metop') else 0)
        return M.done(M.call(f, [M.raw(k, [n, cols]) for k in ('lon', 'lat')]))
    return go


def e_grid(kind, how, fields='vw'):
    """kind: class name; how: eager, lazy (several chunks, whole: one chunk, int: one number), slices or shape"""
    geo = kind.startswith('Geo')
    mod = 'geotiepoints.geointerpolator' if geo else 'geotiepoints.interpolator'

    def go(M, size):
        I = M.I
        n, m = 4 + size, 5
        pts = (M.raw('py', [n], 'f8'), M.raw('px', [m], 'f8'))
        vals = [M.raw(k, [n, m]) for k in (('lon', 'lat') if geo else ('v',) if kind.startswith('Single') else fields)]
        ip = M.call('%s:%s' % (mod, kind), [pts, *vals])
        kw = {}
        if 'lazy' in how:
            kw['chunks'] = ints(3 + size, 5) if 'whole' in how else ints(2)[0] if 'int' in how else ints(2, 3)
        if M.other == 1:
            kw.update({'dx': ints(1)[0]} if 'Spline' in kind else {'method': 'nearest'})
        if 'shape' in how:
            r = M.method(ip, 'interpolate_to_shape', [ints(3 + size, 5)], kw)
        elif 'slices' in how:
            s = SliceV(*ints(1, 4), None)
            r = M.method(ip, 'interpolate_slices', [(s, s)], kw)
        else:
            fine = (M.raw('fy', [3 + size], 'f8'), M.raw('fx', [5], 'f8'))
            r = M.method(ip, 'interpolate', [fine], kw)
        return M.done(r)
    return go


def e_multilinear(d):
    def go(M, size):
        I = M.I
        n = [2 + size, 3, 2, 2][:d]
        tot = 1
        for x in n:
            tot *= x
        lo = M.list([Num(const(k - M.other), 'float') for k in range(d)])
        hi = M.list([Num(const(k + 2), 'float') for k in range(d)])
        od = M.list(list(ints(*n)))
        kw = {} if M.dt == 'f8' else {'dtype': I.libs.Lib('numpy.float32')}
        ip = M.call('geotiepoints.multilinear:MultilinearInterpolator', [lo, hi, od], kw)
        g = I.getattr(ip, 'grid')
        M.method(ip, 'set_values', [M.raw('v', [2, tot])])
        return M.done([g, M.method(ip, 'interpolate', [M.raw('s', [d, 3 + size])])])
    return go


def e_basic(M, size):
    r, q = list(range(0, 8 + 4 * size, 4)), [0, 3, 6, 9]
    dat = [M.raw(k, [len(r), len(q)]) for k in ('lat', 'lon')]
    ip = M.call('geotiepoints.basic_interpolator:BasicSatelliteInterpolator', [M.points(q), M.points(r), *dat])
    return M.done([M.I.nparr.as_array(x) for x in M.I.iterate(M.method(ip, 'interpolate'))])


ALL = (NUMPY, DASK, XNUMPY, XDASK)
ENTRIES = {}
for _f, _names in (('simple', modis.SIMPLE), ('angle', modis.ANGLE)):
    for _n in _names:
        if _f == 'simple':
            ENTRIES['simple %s' % _n] = (e_modis(_f, _n, 30), ALL)
        elif '5km' in _n:
            ENTRIES['angle %s 271' % _n] = (e_modis(_f, _n, None), ALL)
            ENTRIES['angle %s 270' % _n] = (e_modis(_f, _n, 270), ALL)
        else:
            ENTRIES['angle %s' % _n] = (e_modis(_f, _n, None), ALL)
ENTRIES['VII fields'] = (e_vii, (XNUMPY, XDASK))
for _f in ('a', 'abcd'):
    ENTRIES['VII fields, %d fields' % len(_f)] = (partial(e_vii, fields=_f), (XNUMPY, XDASK))
ENTRIES['VII positions'] = (e_viigeo, (XNUMPY, XDASK))
ENTRIES['to cartesian'] = (e_to, ALL)
ENTRIES['from cartesian'] = (e_from, (NUMPY, DASK))     # numpy.where knows no DataArrays
for _w in ('plain', 'single', 'three', 'fill', 'fill chunk', '1d', '1d single', 'geo', 'geo fill chunk', 'geo 1d'):
    ENTRIES['classic %s' % _w] = (e_classic(_w), (NUMPY,))
for _n, _r, _c in (('modis5kmto1km', 2, 271), ('modis1kmto500m', 10, 1354), ('modis1kmto250m', 10, 1354),
                   ('generic_modis5kmto1km', 2, 271), ('metop20kmto1km', 2, 105)):
    ENTRIES[_n] = (e_satellite(_n, _r, _c), (NUMPY,))
for _k in ('SingleGridInterpolator', 'SingleSplineInterpolator', 'MultipleGridInterpolator', 'MultipleSplineInterpolator',
           'GeoGridInterpolator', 'GeoSplineInterpolator'):
    for _h in ('eager', 'lazy', 'lazy whole', 'lazy int') + (('slices',) if _k.startswith('Single') else ('shape', 'lazy shape')):
        ENTRIES['%s %s' % (_k, _h)] = (e_grid(_k, _h), (NUMPY,))
for _k in ('MultipleGridInterpolator', 'MultipleSplineInterpolator'):
    for _f in ('v', 'vwxyz'):
        for _h in ('eager', 'lazy'):
            ENTRIES['%s %s, %d fields' % (_k, _h, len(_f))] = (partial(lambda *a: e_grid(*a[:3])(*a[3:]), _k, _h, _f), (NUMPY,))
for _d in (1, 2, 3, 4):
    ENTRIES['multilinear %dd' % _d] = (e_multilinear(_d), (NUMPY,))
ENTRIES['basic'] = (e_basic, (NUMPY,))


def call(I, name, tag='', how=NUMPY, dt='f8', size=0, strided=False, layout='rows'):
    """One call of an entry point: the Case."""
    return ENTRIES[name][0](Maker(I, tag, how, dt, strided, layout), size)


def is_lazy(name, how):
    return 'lazy' in how or how == DASK or 'lazy' in name


def samples(shape):
    """A few index tuples of a result."""
    sh = [int(n.value) for n in shape]
    picks = []
    for k in range(3):
        picks.append(tuple(min(n - 1, (0, n - 1, (n * 5) // 8)[k]) for n in sh))
    return list(dict.fromkeys(picks)) if all(sh) else []


def canonical(I, t, facts, memo):
    """The tree with every spline and grid named by what it was made of, not by when."""
    mapping = {}
    for kind in ('spl', 'rgi', 'splev'):
        for a in K.atoms_of(t, kind):
            uid = a.args[0]
            if isinstance(uid, str):
                continue
            key = memo.get(uid)
            if key is None:
                key = memo[uid] = record_key(I, uid, facts)
            mapping[a] = atom_poly(mk_atom(kind, (key,) + tuple(a.args[1:])))
    return T.subst_tree(t, mapping) if mapping else t


_keys = {}


def record_key(I, uid, facts):
    kind, o, kw, loc, st = I.calls[uid]
    parts = [kind]

    def array(a):
        sh = K.dims(a)
        f = I.snapshot(a)
        ix = [tuple((0, n - 1, n // 2, n // 3)[k] for n in sh) for k in range(4)] if all(sh) else []
        return (sh, a.dtype) + tuple(A.expand(f(tuple(const(x) for x in i)), facts).id if hasattr(T.Tree, 'id') else
                                     T.show_tree(A.expand(f(tuple(const(x) for x in i)), facts)) for i in ix)

    def val(v):
        if isinstance(v, Arr):
            return array(v)
        if isinstance(v, (list, tuple)):
            return tuple(val(x) for x in v)
        if isinstance(v, dict):
            return tuple((k, val(x)) for k, x in sorted(v.items()))
        if isinstance(v, Num):
            return T.show_tree(v.t)
        return repr(v) if not isinstance(v, (str, type(None))) else v
    parts.append(val(dict(kw)))
    return _keys.setdefault(tuple(parts), 'made-%d' % len(_keys))
