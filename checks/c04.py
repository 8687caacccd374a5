"""C04: geographical results are positions on the globe."""
from fractions import Fraction

from absint import arrays as A, terms as T
from absint.terms import AnalysisError, ONE, cmp_ge, const, padd, pscale, psub
from . import core, entries as E, modis, witness
from .classic import atoms_of
from .c06 import columns, variants
from .scen import S, run

TITLE = 'Interpolated positions are longitudes and latitudes'
RULE = ('Every leaf of the abstract value of a longitude or latitude is bounded with the ranges of the inverse '
        'trigonometric functions (and of blends of tie positions in VII): longitudes have to stay in [-180, 180], latitudes in [-90, 90], '
        'whatever the interpolated cartesian components are.')
MINIMUM = 2500
ASSUMPTIONS = ('tie point longitudes and latitudes are in [-180, 180] and [-90, 90]', 'the earth radius is exact')

# kind -> (factor of pi, range of the rest)
INVERSE = {'atan2': (-1, 1), 'acos': (0, 1), 'asin': (Fraction(-1, 2), Fraction(1, 2)), 'atan': (Fraction(-1, 2), Fraction(1, 2))}


def latitude_cosine(a):
    """Is an atom the cosine of a tie point latitude (not negative)?"""
    if a.kind != 'cos':
        return False
    x = a.args[0]
    x = x.leaf if isinstance(x, T.Tree) and x.cond is None else x
    if not isinstance(x, T.Poly) or set(x.terms.values()) != {Fraction(1, 180)} or len(x.terms) != 1:
        return False
    (m,) = x.terms
    b = [T.ATOMS[i] for i, e in m if e == 1]
    return len(m) == len(b) == 2 and {y.kind for y in b} == {'const', 'elem'} and \
        any(y.kind == 'elem' and str(y.args[0]).startswith('lat') for y in b)


def nonnegative(x):
    """Is an argument of asin not negative by its form (a positive multiple of a square root)?"""
    p = x.leaf if isinstance(x, T.Tree) and x.cond is None else x
    if not isinstance(p, T.Poly):
        return False
    return all(c >= 0 and all(T.ATOMS[a].kind == 'sqrt' or e % 2 == 0 or latitude_cosine(T.ATOMS[a]) for a, e in m) for m, c in p.terms.items())


def bounds(p):
    """(lo, hi) of a polynomial in inverse functions and tie positions, or None."""
    lo = hi = Fraction(0)
    for m, c in p.terms.items():
        a, b = Fraction(1), Fraction(1)
        pi = 0
        for aid, e in m:
            at = T.ATOMS[aid]
            if at.kind == 'const' and at.args[0] in ('pi', 'π'):
                pi += e
                continue
            if e != 1:
                return None
            if at.kind in INVERSE:
                l, h = INVERSE[at.kind]
                if at.kind == 'asin' and nonnegative(at.args[0]):
                    l = Fraction(0)
                pi += 1
            elif at.kind == 'elem':
                l = 90 if str(at.args[0]).startswith('lat') else 180 if str(at.args[0]).startswith('lon') else None
                if l is None:
                    return None
                l, h = -l, l
            else:
                return None
            q = [a * l, a * h, b * l, b * h]
            a, b = min(q), max(q)
        if pi:
            return None
        q = [Fraction(c) * a, Fraction(c) * b]
        lo, hi = lo + min(q), hi + max(q)
    return lo, hi


def position(out, what, facts, t, limit):
    for c in [T.atom_poly(a) for a in atoms_of(t, 'cos') if latitude_cosine(a)]:
        g = facts.assume(cmp_ge(c))
        facts = facts if g is None else g
    for f, leaf in facts.cases(t):
        r = bounds(leaf)
        ok = r is not None and -limit <= r[0] and r[1] <= limit
        if not ok:
            # not bounded by its form: is there an input for which it leaves the range?
            bad = T.t_or(T.cmp_gt(psub(leaf, const(limit))), T.cmp_gt(psub(const(-limit), leaf)))
            w = witness.feasible(f, bad, core.SEED)
            if w is None:
                out.unknown('positions stay in their range', what, '%s in %s' % (r, T.show(leaf)[:300]))
            else:
                out.ob('positions stay in their range', what, False, {'range': str(r), 'value': T.show(leaf)[:400], 'with': w})
            return False
    return out.ob('positions stay in their range', what, True, 'within %d' % limit)


GEO = ('simple', 'angle', 'VII positions', 'from cartesian', 'classic geo', 'modis', 'metop', 'Geo')


def entry_unit(name, how, dt, size):
    def go(out):
        def setup(I):
            c = E.call(I, name, '', how, dt, size)
            return [(E.data_of(I, r), k) for k, r in zip(c.places, c.results)]
        for c in run(setup):
            out.use(c)
            what = '%s, %s %s' % (name, how, dt)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            for a, k in c.value:
                f = c.I.snapshot(a)
                sh = [int(n.value) for n in a.shape]
                picks = [sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))) for n in sh]
                for i in picks[0]:
                    for j in picks[1]:
                        t = A.expand(f((const(i), const(j))), c.facts)
                        position(out, '%s %s (%d, %d)' % (what, ('longitude', 'latitude')[k % 2], i, j), c.facts, t, (180, 90)[k % 2])
                        if len(out.violations) + len(out.undecided) > 4:
                            return
    return go


def modis_unit(L, dt, rows):
    def go(out):
        scans, s = S('scans', 1), S('s', 0)
        for c in run(lambda I: L.call(I, scans, dt), [cmp_ge(psub(psub(scans, ONE), s))]):
            out.use(c)
            what = '%s %s' % (L.tag, dt)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            for r in rows:
                for w, col, ccol, cond in columns(L):
                    g = c.facts if cond is None else c.facts.assume(cond)
                    if g is None:
                        continue
                    for k, nm in enumerate(('longitude', 'latitude')):
                        t = modis.at(c, c.value[k], (padd(pscale(s, L.frows), const(r)), col), g)
                        position(out, '%s %s row %d, %s' % (what, nm, r, w), g, t, (180, 90)[k])
                        if len(out.violations) + len(out.undecided) > 4:
                            return
    return go


def units():
    u = []
    for L in variants():
        rows = list(range(L.frows)) if core.TIER == 'thorough' else [0, L.half, L.frows - 1]
        for r in rows:
            u.append(('%s-row%d' % (L.tag, r), modis_unit(L, 'f8', [r])))
    for name, (f, hows) in E.ENTRIES.items():
        if not name.startswith(GEO) or name.startswith(('simple', 'angle')):
            continue
        for how in hows:
            u.append(('entry-%s-%s' % (name, how), entry_unit(name, how, 'f8', 1)))
        u.append(('entry-%s-f4' % name, entry_unit(name, hows[-1], 'f4', 0)))
    return u
