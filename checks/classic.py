"""The classic (spline based) interpolators: scenarios, references, and the records of the splines they make."""
from fractions import Fraction

from absint import arrays as A, terms as T
from absint.terms import ONE, ZERO, atom_poly, cmp_ge, const, leaf, mk_atom, padd, psub
from absint.vals import Arr, Num, Opaque
from . import geo, witness
from .geo import add, div, lift, mul, sub
from .scen import S, arr, get, run


def fixed(I, values, dtype=None):
    """A 1-d array of known numbers."""
    vals = [Fraction(v) for v in values]
    if dtype is None:
        dtype = 'i8' if all(v.denominator == 1 for v in vals) else 'f8'

    even = len(vals) > 16 and len({b - a for a, b in zip(vals, vals[1:])}) == 1

    def el(idx):
        if idx[0].is_const:
            return leaf(const(vals[int(idx[0].value)]))
        if even:
            return leaf(padd(const(vals[0]), T.pscale(idx[0], vals[1] - vals[0])))
        r = leaf(const(vals[-1]))
        for k in range(len(vals) - 2, -1, -1):
            r = T.t_ite(cmp_ge(psub(const(k), idx[0]), True), leaf(const(vals[k])), r)
        return r
    return I.lam_array((const(len(vals)),), dtype, el, (), True)


def elem(name, *idx):
    return leaf(atom_poly(mk_atom('elem', (name, tuple(x if isinstance(x, T.Poly) else const(x) for x in idx)))))


def value(c, a, idx, f=None):
    f = f or c.facts
    idx = tuple(x if isinstance(x, T.Poly) else const(x) for x in idx)
    return A.expand(A.read(c.I.content(a.buf), tuple(a.index(idx)), f), f)


def dims(a):
    return tuple(int(x.value) if x.is_const else None for x in a.shape)


def accepted(out, c, what):
    for exc, rel, st in c.feasible_raises():
        out.ob('valid input is accepted', what, False, str(exc), str(exc.where))
    return c.returned


def line(x0, y0, x1, y1, x):
    """The straight line through two points, at x (the positions are numbers)."""
    w = Fraction(x - x0, 1) / Fraction(x1 - x0, 1)
    return add(mul(const(1 - w), y0), mul(const(w), y1))


def fill_cols(ties, rows, cols, data, hrows, hcols):
    """Reference of the linear extrapolation to the first and last fine column: (cols, data)."""
    first, last = cols[0] != hcols[0], cols[-1] != hcols[-1]
    nc = list(cols)
    nd = []
    for r in data:
        r2 = list(r)
        if first:
            r2.insert(0, line(cols[0], r[0], cols[1], r[1], hcols[0]))
        if last:
            r2.append(line(cols[-2], r[-2], cols[-1], r[-1], hcols[-1]))
        nd.append(r2)
    if first:
        nc.insert(0, hcols[0])
    if last:
        nc.append(hcols[-1])
    return nc, nd


def fill_rows(rows, data, hrows, chunk):
    """Reference of the linear extrapolation to the first and last fine row of every chunk: (rows, data)."""
    lines = len(hrows)
    chunk = chunk or lines
    nr, nd = [], []
    for k in range(0, lines, chunk):
        lo = hrows[k]
        hi = hrows[k + chunk] if k + chunk < lines else None
        mine = [j for j, r in enumerate(rows) if (k == 0 or r >= lo) and (hi is None or r < hi)]
        end = hrows[min(k + chunk, lines) - 1]
        pos = [rows[j] for j in mine]
        if lo not in pos:
            a, b = mine[0], mine[1]
            nr.append(lo)
            nd.append([line(rows[a], x, rows[b], y, lo) for x, y in zip(data[a], data[b])])
        for j in mine:
            nr.append(rows[j])
            nd.append(list(data[j]))
        if end not in pos:
            a, b = mine[-2], mine[-1]
            nr.append(end)
            nd.append([line(rows[a], x, rows[b], y, end) for x, y in zip(data[a], data[b])])
    return nr, nd


def atoms_of(t, kind):
    """All atoms of a kind in a tree."""
    out, seen, todo = [], set(), []

    def poly(p):
        for m in p.terms:
            for aid, e in m:
                visit(T.ATOMS[aid])

    def visit(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind == kind:
            out.append(a)
        for x in a.args:
            arg(x)

    def arg(x):
        if isinstance(x, T.Poly):
            poly(x)
        elif isinstance(x, T.Tree):
            tree(x)
        elif isinstance(x, T.Atom):
            visit(x)
        elif isinstance(x, tuple):
            for y in x:
                arg(y)
    ts = set()

    def tree(x):
        if id(x) in ts:
            return
        ts.add(id(x))
        if x.cond is None:
            poly(x.leaf)
        else:
            visit(x.cond)
            tree(x.hi)
            tree(x.lo)
    tree(t)
    return out


def option(I, opts, name, default):
    v = opts.get(name)
    if v is None:
        return default
    return I.concrete(I.settle(v)) if isinstance(v, Num) else v


def spline_atom(uid, p, q):
    return leaf(atom_poly(mk_atom('spl', (uid, p, q, ZERO, ZERO))))


def records(c, kind='spline'):
    return [o for k, o, kw, loc, st in c.I.calls if k == kind]


def const_items(c, a):
    """The elements of a 1-d array of known numbers, or None."""
    n = dims(a)[0]
    if n is None:
        return None
    out = []
    for k in range(n):
        t = value(c, a, (k,))
        t = c.facts.simplify(t) if t.cond is not None else t
        if t.cond is not None or not t.leaf.is_const:
            return None
        out.append(Fraction(t.leaf.value))
    return out


def check_record(out, c, what, o, xs, ys, data, kx, ky, sample=None):
    """The spline o goes through the points xs (rows), ys (columns) with the values data[row][col] (trees)."""
    I = c.I
    x, y = const_items(c, o.x), const_items(c, o.y)
    ok = out.ob('tie point rows of the spline', what, x == [Fraction(v) for v in xs],
                'rows %s..., expected %s...' % (x and [str(v) for v in x[:14]], [str(v) for v in xs[:14]]))
    ok &= out.ob('tie point columns of the spline', what, y == [Fraction(v) for v in ys],
                 'columns %s..., expected %s...' % (y and [str(v) for v in y[:8]], [str(v) for v in ys[:8]]))
    for nm, want, dflt in (('kx', kx, 3), ('ky', ky, 3), ('s', 0, 0)):
        got = option(I, o.opts, nm, dflt)
        ok &= out.ob('degree and smoothing of the spline', '%s %s' % (what, nm), got == want, 'got %s, want %s' % (got, want))
    bbox = o.opts.get('bbox')
    ok &= out.ob('degree and smoothing of the spline', '%s bbox' % what, bbox is None, 'bbox is given')
    if not ok:
        return False
    rows, cols = (range(len(xs)), range(len(ys))) if sample is None else sample
    for i in rows:
        for j in cols:
            if not out.equal('value of the spline at a tie point', '%s (%d, %d)' % (what, i, j), c.facts,
                             value(c, o.z, (i, j)), data[i][j]):
                return False
    return True


def the_spline(t):
    """(uid, row, column) when the tree is a plain evaluation of one spline."""
    if t.cond is not None:
        return None
    p = t.leaf
    if len(p.terms) != 1:
        return None
    (m, k), = p.terms.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = T.ATOMS[m[0][0]]
    if a.kind != 'spl' or a.args[3] is not ZERO or a.args[4] is not ZERO:
        return None
    return a.args[:3]


def identify(c, uids, comps):
    """The splines in the order of the components whose first value they have (in their own order if in doubt)."""
    recs = {o.uid: o for o in records(c)}
    left = sorted(uids)
    out = []
    for k, data in enumerate(comps):
        hit = None
        for u in left:
            z = recs[u].z
            if dims(z) != (len(data), len(data[0])):
                continue
            try:
                if witness.compare(c.facts, value(c, z, (0, 0)), data[0][0]) is None:
                    hit = u
                    break
            except T.AnalysisError:
                pass
        if hit is None:
            return sorted(uids)
        left.remove(hit)
        out.append(hit)
    return out
