"""C06: fine MODIS geolocation is the blend of the four tie points of the pixel's own cell."""
from fractions import Fraction

from absint.terms import ONE, cmp_ge, const, padd, pscale, psub
from . import core, modis
from .scen import S, run

TITLE = 'MODIS fine pixels are the prescribed blend of their own cell'
RULE = ('For a generic scan of an unbounded number of scans, every row of a scan, every column offset in a generic '
        'coarse column, the columns before the first and after the last tie point: longitude and latitude stored by '
        'the kernel are compared with the blend (bilinear weights, along scan corrected for the viewing angle in the '
        'angle family) of the cartesian positions of the four tie points that bracket the pixel in the same scan.')
MINIMUM = 500
ASSUMPTIONS = ('the coarse arrays hold finite values',)


def variants():
    for name in modis.SIMPLE:
        yield modis.Layout('simple', name)
    for name in modis.ANGLE:
        if '5km' in name:
            for w in (271, 270):
                yield modis.Layout('angle', name, w)
        else:
            yield modis.Layout('angle', name)


def columns(L):
    """(construct, fine column, coarse cell column, condition) for a complete cover of the fine columns."""
    for c in range(L.shift):
        yield 'column %d' % c, const(c), const(0), None
    ccol = S('ccol', 0)
    for o in range(L.n):
        yield 'column %d of a coarse column' % o, padd(pscale(ccol, L.n), const(L.shift + o)), ccol, \
            cmp_ge(psub(psub(L.wc, const(2)), ccol))
    base = padd(pscale(psub(L.wc, ONE), L.n), const(L.shift))
    rest = psub(L.wf, base)
    if not rest.is_const:
        raise core.AnalysisError('layout')
    for c in range(int(rest.value)):
        yield 'column %d after the last tie point' % c, padd(base, const(c)), psub(L.wc, const(2)), None


def some(L):
    """Rows that are looked at in every column."""
    return sorted({0, 1, L.half, L.frows // 2, L.frows - 1})


def unit(L, dt, rows):
    def go(out):
        scans = S('scans', 0)
        for c in run(lambda I: L.call(I, scans, dt)):
            out.use(c)
            for exc, rel, st in c.feasible_raises():
                out.ob('valid input is accepted', L.tag, False, str(exc), str(exc.where))
            if not c.returned:
                continue
            s = S('s', 0)
            f = c.facts.assume(cmp_ge(psub(psub(scans, ONE), s)))
            if f is None:
                continue
            a = c.value
            if not isinstance(a, (tuple, list)) or len(a) != 2:
                out.ob('longitude and latitude are returned', L.tag, False, str(a))
                return
            shape = (pscale(scans, L.frows), L.wf)
            for k in range(2):
                got = tuple(f.norm(x) for x in a[k].shape)
                out.ob('fine grid covers every scan and column', '%s %s' % (L.tag, dt), got == shape,
                       'shape %s' % [str(x) for x in a[k].shape])
                if got != shape:
                    return
            for r in rows:
                p = Fraction(2 * r + 1, 2 * L.n) - Fraction(1, 2)
                crow = const(max(0, min(L.crows - 2, p.__floor__())))
                for k, (what, col, ccol, cond) in enumerate(columns(L)):
                    # wide cells: every fifth column of the cell in turn, all of them in some of the rows
                    if core.TIER == 'quick' and L.n > 5 and 'of a coarse column' in what and (k - r) % 5 and (
                            dt == 'f4' or r not in some(L)):
                        continue
                    g = f if cond is None else f.assume(cond)
                    want = L.pixel(s, const(r), col, crow, ccol)
                    for k, nm in enumerate(('longitude', 'latitude')):
                        idx = (padd(pscale(s, L.frows), const(r)), col)
                        out.equal(nm + ' of a fine pixel', '%s %s row %d, %s' % (L.tag, dt, r, what), g,
                                  modis.at(c, a[k], idx, g), want[k])
                    if len(out.violations) > 6 or len(out.undecided) > 6:
                        return
    return go


def units():
    u = []
    for L in variants():
        for dt in ('f8', 'f4'):
            rows = list(range(L.frows))
            if dt == 'f4' and core.TIER == 'quick':
                rows = some(L)
            # units of comparable size
            per = max(1, 300 // (2 * L.n + 8)) if core.TIER == 'quick' else len(rows)
            for k in range(0, len(rows), per):
                part = rows[k:k + per]
                u.append(('%s-%s-rows%d-%d' % (L.tag, dt, part[0], part[-1]), unit(L, dt, part)))
    return u
