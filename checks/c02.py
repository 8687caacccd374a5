"""C02: every element of every result is computed from the input."""
from absint import arrays as A, terms as T
from absint.terms import AnalysisError, ONE, ZERO, cmp_eq, cmp_ge, const, padd, pscale, psub
from . import core, entries as E, modis, witness
from .c06 import columns, variants
from .scen import S, run

TITLE = 'Every element of every result is computed from the input'
RULE = ('For every result of every public entry point and every element of it (for MODIS: a generic scan, the rows of a '
        'scan and all column offsets of a generic coarse column) the abstract value may, on no feasible path, contain '
        'memory that was never written, a fill value, an infinite value or a division by zero.')
MINIMUM = 20000
ASSUMPTIONS = ('input values are finite', 'results of scipy interpolants are defined inside of their grids')
BAD = {'uninit': 'memory that was never written', 'nan': 'a missing value', 'div0': 'a division by zero',
       'inf': 'an infinite value', 'outside': 'memory outside of the array'}


def problems(f, leaf):
    """What makes a value undefined where the facts hold: [(description, condition or None)]"""
    out, seen = [], set()

    def poly(p):
        for m in p.terms:
            for aid, e in m:
                a = T.ATOMS[aid]
                if e < 0:
                    nonzero(T.atom_poly(a))
                visit(a)

    def nonzero(q):
        c = cmp_eq(q)
        if f.assume(c) is not None:
            out.append(('a division by zero', c))

    def visit(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind in BAD:
            out.append((BAD[a.kind], None))
        if a.kind == 'const' and a.args and a.args[0] in ('nan', 'inf', '-inf', '1/0'):
            out.append(('the constant %s' % a.args[0], None))
        if a.kind == 'recip':
            nonzero(a.args[0])
        for x in a.args:
            arg(x)

    def arg(x):
        if isinstance(x, T.Poly):
            poly(x)
        elif isinstance(x, T.Tree):
            tree(x)
        elif isinstance(x, T.Atom):
            visit(x)
        elif isinstance(x, tuple):
            for y in x:
                arg(y)

    def tree(x):
        if x.cond is None:
            poly(x.leaf)
        else:
            visit(x.cond)
            tree(x.hi)
            tree(x.lo)
    poly(leaf)
    return out


def defined(out, what, facts, t, memo):
    key = (id(facts), t.id if hasattr(t, 'id') else id(t))
    if key in memo:
        return out.ob('the element is computed from the input', what, True)
    for f, leaf in facts.cases(t):
        for msg, cond in problems(f, leaf):
            w = witness.feasible(f, T.TRUE if cond is None else cond, core.SEED)
            if w is None:
                out.unknown('the element is computed from the input', what, '%s in %s' % (msg, T.show(leaf)[:300]))
            else:
                out.ob('the element is computed from the input', what, False, {'contains': msg, 'value': T.show(leaf)[:400],
                                                                              'with': w})
            return False
    memo[key] = True
    return out.ob('the element is computed from the input', what, True, 'no undefined part')


def entry_unit(name, how, dt, size):
    def go(out):
        def setup(I):
            c = E.call(I, name, '', how, dt, size)
            return [E.data_of(I, r) for r in c.results]
        for c in run(setup):
            out.use(c)
            what = '%s, %s %s' % (name, how, dt)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            memo = {}
            for k, a in enumerate(c.value):
                f = c.I.snapshot(a)
                sh = [int(n.value) for n in a.shape]
                cols = range(sh[1]) if sh[1] <= 40 else sorted({0, 1, 2, 3, sh[1] // 2, sh[1] // 2 + 1, sh[1] - 3, sh[1] - 2,
                                                                sh[1] - 1})
                for i in range(sh[0]):
                    for j in cols:
                        t = A.expand(f((const(i), const(j))), c.facts)
                        if not defined(out, '%s result %d (%d, %d)' % (what, k, i, j), c.facts, t, memo) and \
                                len(out.violations) + len(out.undecided) > 4:
                            return
    return go


def modis_unit(L, dt, rows):
    def go(out):
        scans, s = S('scans', 1), S('s', 0)
        for c in run(lambda I: L.call(I, scans, dt), [cmp_ge(psub(psub(scans, ONE), s))]):
            out.use(c)
            what = '%s %s' % (L.tag, dt)
            if not out.ob('the call returns', what, c.returned, [str(e) for e, _, _ in c.feasible_raises()]):
                continue
            memo = {}
            for r in rows:
                for w, col, ccol, cond in columns(L):
                    g = c.facts if cond is None else c.facts.assume(cond)
                    if g is None:
                        continue
                    for k, nm in enumerate(('longitude', 'latitude')):
                        t = modis.at(c, c.value[k], (padd(pscale(s, L.frows), const(r)), col), g)
                        defined(out, '%s %s row %d, %s' % (what, nm, r, w), g, t, memo)
                        if len(out.violations) + len(out.undecided) > 4:
                            return
    return go


def units():
    u = []
    for L in variants():
        for dt in ('f8', 'f4'):
            rows = list(range(L.frows))
            if core.TIER == 'quick':
                rows = sorted(({0, L.half, L.frows - 1} if L.five else {0, 1, L.half, L.frows // 2, L.frows - 1})
                              if dt == 'f8' else {L.frows - 1})
            for r in rows:
                u.append(('%s-%s-row%d' % (L.tag, dt, r), modis_unit(L, dt, [r])))
    for name, (f, hows) in E.ENTRIES.items():
        lazy = [h for h in hows if E.is_lazy(name, h)]
        if name.startswith(('simple', 'angle')):
            if core.TIER == 'thorough':
                u.append(('entry-%s-lazy' % name, entry_unit(name, lazy[-1], 'f8', 1)))
            continue
        for how in hows:
            u.append(('entry-%s-%s' % (name, how), entry_unit(name, how, 'f8', 1)))
        u.append(('entry-%s-f4' % name, entry_unit(name, hows[-1], 'f4', 0)))
        if not name.startswith('modis1km'):
            u.append(('entry-%s-2' % name, entry_unit(name, hows[0], 'f8', 2)))
    return u
