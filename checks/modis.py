"""MODIS interpolation: scenarios and the reference value of a fine pixel."""
from fractions import Fraction

from absint import arrays as A, terms as T
from absint.terms import ONE, ZERO, atom_poly, cmp_ge, const, leaf, mk_atom, padd, pmul, pscale, psub
from absint.vals import Arr, Num
from . import geo
from .geo import add, div, fn, lift, mul, rad, sub
from .scen import S, arr, get, run

# public function -> (needs the zenith angle, coarse rows per scan, fine pixels per coarse pixel, fine columns)
SIMPLE = {'modis_1km_to_250m': (10, 4), 'modis_1km_to_500m': (10, 2)}
ANGLE = {'modis_1km_to_250m': (10, 4, 5416), 'modis_1km_to_500m': (10, 2, 2708),
         'modis_5km_to_1km': (2, 5, 1354), 'modis_5km_to_500m': (2, 10, 2708), 'modis_5km_to_250m': (2, 20, 5416)}

RADIUS = const(6370997)
R_KM = const(Fraction(6370997, 1000))
H_KM = const(709)


class Layout:
    """One kernel variant: sizes and positions of the fine pixels with respect to the tie points."""

    def __init__(self, family, name, width=None):
        self.family, self.name, self.width = family, name, width
        if family == 'simple':
            self.crows, self.n = SIMPLE[name]
            self.wc = S('cols', 2) if width is None else const(width)
            self.wf = pscale(self.wc, self.n)
            self.five = False
        else:
            self.crows, self.n, wf = ANGLE[name]
            self.five = '5km' in name
            self.wc = const(width or (271 if self.five else 1354))
            self.wf = const(wf)
        self.frows = self.crows * self.n
        # offset of the first fine column from the first tie point, in fine pixels
        self.shift = 2 * self.n // 5 if self.five else 0
        self.half = self.n // 2

    @property
    def tag(self):
        return '%s.%s%s' % (self.family, self.name, '' if self.width is None else '/%s' % self.width)

    def module(self):
        return 'geotiepoints.simple_modis_interpolator' if self.family == 'simple' else 'geotiepoints.modisinterpolator'

    def call(self, I, scans, dt='f8', kind=None):
        f = get(I, '%s:%s' % (self.module(), self.name))
        names = ('lon', 'lat') if self.family == 'simple' else ('lon', 'lat', 'satz')
        rows = pscale(scans, self.crows)
        args = [arr(I, k, [rows, self.wc], dt) for k in names]
        if kind is not None:
            args = [kind(I, a) for a in args]
        return I.call(f, args, {})

    # ---------------------------------------------------------------- regions of the fine grid
    def row_regions(self):
        """(name, fine row in the scan, coarse cell row, along-track position in the cell in [fine pixels])"""
        n = self.n
        if self.crows == 2:
            r = S('row', 0, self.frows - 1)
            yield 'all rows', r, ZERO, r
            return
        r = S('row', 0, self.half - 1)
        yield 'first rows', r, ZERO, r
        cr, o = S('crow', 0, self.crows - 2), S('ro', 0, n - 1)
        yield 'inner rows', padd(padd(pscale(cr, n), const(self.half)), o), cr, None
        r = S('row', 0, self.half - 1)
        yield 'last rows', padd(r, const(self.frows - self.half)), const(self.crows - 2), None

    def col_regions(self):
        """(name, fine column, coarse cell column, conditions)"""
        n, f = self.n, self.shift
        last = psub(self.wc, const(2))
        if f:
            c = S('col', 0, f - 1)
            yield 'first columns', c, ZERO, []
        cc, o = S('ccol', 0), S('co', 0, n - 1)
        yield 'inner columns', padd(padd(pscale(cc, n), const(f)), o), cc, [cmp_ge(psub(last, cc))]
        # beyond the last tie point
        base = padd(pscale(psub(self.wc, ONE), n), const(f))
        c = S('col', 0)
        yield 'last columns', padd(base, c), last, [cmp_ge(psub(psub(psub(self.wf, base), ONE), c))]

    def track(self, row, crow):
        """Along-track coordinate in the cell: fine rows are centred in the footprint of their coarse pixel."""
        return psub(psub(pscale(padd(row, const(Fraction(1, 2))), Fraction(1, self.n)), const(Fraction(1, 2))), crow)

    def scan(self, col, ccol):
        """Across-track coordinate in the cell: the first fine column lies on the coarse pixel position."""
        return psub(pscale(psub(col, const(self.shift)), Fraction(1, self.n)), ccol)

    # ---------------------------------------------------------------- reference
    def corners(self, s, crow, ccol):
        """cartesian coordinates of the four tie points of the cell: a upper left, b upper right, c, d lower"""
        base = padd(pscale(s, self.crows), crow)
        out = []
        for dr, dc in ((0, 0), (0, 1), (1, 1), (1, 0)):
            ix = (padd(base, const(dr)), padd(ccol, const(dc)))
            out.append(geo.xyz(elem('lon', ix), elem('lat', ix), lift(RADIUS)))
        return out

    def weights(self, s, row, col, crow, ccol):
        t = lift(self.track(row, crow))
        u = lift(self.scan(col, ccol))
        if self.family == 'simple':
            return t, u
        base = padd(pscale(s, self.crows), crow)
        za = rad(elem('satz', (base, ccol)))
        zb = rad(elem('satz', (base, padd(ccol, ONE))))
        return t, angle_correction(za, zb, t, u, 5 if self.five else 1)

    def pixel(self, s, row, col, crow, ccol):
        t, u = self.weights(s, row, col, crow, ccol)
        a, b, c, d = self.corners(s, crow, ccol)
        one = lift(ONE)
        p = []
        for k in range(3):
            top = add(mul(sub(one, u), a[k]), mul(u, b[k]))
            bot = add(mul(sub(one, u), d[k]), mul(u, c[k]))
            p.append(add(mul(sub(one, t), top), mul(t, bot)))
        x, y, z = p
        return geo.longitude(x, y), geo.latitude(x, y, z, lift(RADIUS))


def elem(name, ix):
    return leaf(atom_poly(mk_atom('elem', (name, tuple(ix)))))


def expansion_alignment(za, zb, width):
    """The parameters of the Compact VIIRS user guide for a cell with the zenith angles za and zb."""
    rh = padd(R_KM, H_KM)
    pa = fn('asin', div(mul(R_KM, fn('sin', za)), rh))
    pb = fn('asin', div(mul(R_KM, fn('sin', zb)), rh))
    ta, tb = sub(za, pa), sub(zb, pb)
    phi = div(add(pa, pb), const(2))
    zeta = fn('asin', div(mul(rh, fn('sin', phi)), R_KM))
    theta = sub(zeta, phi)
    same = geo.eq(ta, tb)
    den = geo.ite(same, mul(const(2), ta), sub(ta, tb))
    # two tie points seen from nadir: nothing to correct
    nadir = geo.eq(den, lift(ZERO))
    cexp = mul(const(4), div(sub(div(add(ta, tb), const(2)), theta), den))
    half_beta = div(const(width), mul(const(2), H_KM))
    d = mul(sub(mul(div(rh, R_KM), fn('cos', phi)), fn('cos', zeta)), half_beta)
    cz = fn('cos', zeta)
    e = sub(cz, fn('sqrt', sub(mul(cz, cz), mul(d, d))))
    cali = div(mul(const(4), e, fn('sin', zeta)), den)
    return geo.ite(nadir, lift(ZERO), cexp), geo.ite(nadir, lift(ZERO), cali)


def angle_correction(za, zb, t, u, width):
    cexp, cali = expansion_alignment(za, zb, width)
    one = lift(ONE)
    return add(u, mul(u, sub(one, u), cexp), mul(t, sub(one, t), cali))


def at(c, a, idx, f):
    return A.expand(A.read(c.I.content(a.buf), tuple(a.index(tuple(idx))), f), f)
