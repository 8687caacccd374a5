"""C05: multilinear interpolation is exact in every dimension and for every grid."""
from itertools import product

from absint import arrays as A, terms as T
from absint.terms import ONE, ZERO, atom_poly, cmp_ge, cmp_gt, const, leaf, mk_atom, padd, pmul, psub, sym
from absint.vals import Arr, Lib, Num
from .geo import add, div, lift, mul, sub
from .scen import S, arr, get, run

TITLE = 'Multilinear interpolation equals the multilinear form of the cell corners'
RULE = ('The value at a generic point (symbolic grid bounds, symbolic orders, symbolic values, symbolic point) is '
        'compared, region by region, with the tensor product of the one-dimensional linear interpolants of the cell '
        'that contains the point (the outermost cell outside of the grid).')
MINIMUM = 12
ASSUMPTIONS = ('points are finite and their cell number fits in a C int',)


def reference(d, n, m, w, v, point):
    """The multilinear interpolant at point[k] (trees) with values v(flat index)."""
    qs, lams = [], []
    for k in range(d):
        t = mul(div(sub(point[k], m[k]), w[k]), n[k])
        q = T.tmap(lambda p: T.ptrunc(p), t)
        last = psub(n[k], ONE)
        big = T.tmap(lambda p: p, q)
        q = T.t_ite(cond_ge(big, last), lift(last), big)
        q = T.t_ite(cond_ge(q, ZERO), q, lift(ZERO))
        qs.append(q)
        lams.append(sub(t, q))
    r = lift(ZERO)
    for corner in product((0, 1), repeat=d):
        flat = lift(ZERO)
        wt = lift(ONE)
        for k in range(d):
            flat = add(mul(flat, padd(n[k], ONE)), add(qs[k], const(corner[k])))
            wt = mul(wt, lams[k] if corner[k] else sub(ONE, lams[k]))
        r = add(r, mul(wt, T.tmap(v, flat)))
    return r


def cond_ge(t, b):
    def f(x):
        if x.cond is None:
            return cmp_ge(psub(x.leaf, b), True)
        return T.t_branch(x.cond, f(x.hi), f(x.lo))
    return f(t)


def generic(d, dt, through):
    def unit(out):
        ns, nv = S('ns', 0), S('nv', 0)
        n = [S('n%d' % k, 1) for k in range(d)]
        m = [sym('m%d' % k, False) for k in range(d)]
        w = [sym('w%d' % k, False) for k in range(d)]

        def setup(I):
            for x in w:
                I.st.assume(cmp_gt(x, False))
            smin = [Num(x, 'float') for x in m]
            smax = [Num(padd(x, y), 'float') for x, y in zip(m, w)]
            o = [Num(padd(x, ONE), 'int') for x in n]
            tot = ONE
            for x in n:
                tot = pmul(tot, padd(x, ONE))
            V = arr(I, 'values', [nv, tot], 'f8')
            s = arr(I, 's', [const(d), ns], 'f8')
            cls = get(I, 'geotiepoints.multilinear:MultilinearInterpolator')
            kw = {} if dt == 'f8' else {'dtype': Lib('numpy.float32')}
            args = [I.new_list(smin), I.new_list(smax), I.new_list(o)]
            if through == 'init':
                ip = I.call(cls, args + [V], kw)
            else:
                ip = I.call(cls, args, kw)
                I.call(I.getattr(ip, 'set_values'), [V], {})
            if through == 'method':
                return I.call(I.getattr(ip, 'interpolate'), [s], {})
            return I.call(ip, [s], {})
        for c in run(setup):
            out.use(c)
            for exc, rel, st in c.feasible_raises():
                out.ob('valid input is accepted', '%dd %s' % (d, dt), False, str(exc), str(exc.where))
            if not c.returned:
                continue
            r = c.value
            ok = isinstance(r, Arr) and len(r.shape) == 2 and r.shape[0] is nv and r.shape[1] is ns
            out.ob('result has one row per value row and one column per point', '%dd %s' % (d, dt), ok, str(r))
            out.ob('result has the requested precision', '%dd %s' % (d, dt), r.dtype == dt, r.dtype)
            if not ok:
                continue
            i, j = S('i', 0), S('j', 0)
            f = c.facts
            for q in (cmp_ge(psub(psub(ns, ONE), j)), cmp_ge(psub(psub(nv, ONE), i))):
                f = f.assume(q)
            got = A.expand(A.read(c.I.content(r.buf), tuple(r.index((i, j))), f), f)
            pt = [leaf(atom_poly(mk_atom('elem', ('s', (const(k), j))))) for k in range(d)]
            want = reference(d, n, m, w, lambda p: atom_poly(mk_atom('elem', ('values', (i, p)))), pt)
            out.equal('value = multilinear form of the cell corners', '%d dimensions, %s, through %s' % (d, dt, through),
                      f, got, want)
    return unit


def grid(orders):
    """The grid enumerates the nodes with the last index varying fastest, so that node values line up with it."""
    d = len(orders)

    def unit(out):
        m = [sym('m%d' % k, False) for k in range(d)]
        w = [sym('w%d' % k, False) for k in range(d)]

        def setup(I):
            cls = get(I, 'geotiepoints.multilinear:MultilinearInterpolator')
            ip = I.call(cls, [I.new_list([Num(x, 'float') for x in m]),
                              I.new_list([Num(padd(x, y), 'float') for x, y in zip(m, w)]),
                              I.new_list([Num(const(x), 'int') for x in orders])], {})
            return I.getattr(ip, 'grid')
        tot = 1
        for x in orders:
            tot *= x
        for c in run(setup):
            out.use(c)
            name = 'orders %s' % (orders,)
            for exc, rel, st in c.feasible_raises():
                out.ob('the grid is available', name, False, str(exc), str(exc.where))
            if not c.returned:
                continue
            g = c.value
            ok = isinstance(g, Arr) and [x.value if x.is_const else None for x in g.shape] == [d, tot]
            if not out.ob('the grid has one column per node', name, ok, str(g)):
                continue
            snap = c.I.snapshot(g)
            for col, node in enumerate(product(*[range(x) for x in orders])):
                for k in range(d):
                    want = add(m[k], mul(w[k], T.const(node[k]), T.precip(const(orders[k] - 1))))
                    got = A.expand(snap((const(k), const(col))), c.facts)
                    out.equal('node coordinates', '%s node %s axis %d' % (name, node, k), c.facts, got, want)
    return unit


def history(out):
    """The grid belongs to its interpolator, whatever other interpolators were asked before."""
    b = [[sym('%s%d' % (x, k), False) for k in range(2)] for x in ('m', 'w')]

    def setup(I):
        cls = get(I, 'geotiepoints.multilinear:MultilinearInterpolator')

        def make(lo, hi, orders):
            return I.call(cls, [I.new_list([Num(x, 'float') for x in lo]), I.new_list([Num(x, 'float') for x in hi]),
                                I.new_list([Num(const(x), 'int') for x in orders])], {})
        one = make([ZERO, ZERO], [ONE, ONE], (2, 3))
        I.getattr(one, 'grid')
        two = make(b[0], [padd(x, y) for x, y in zip(*b)], (3, 2))
        I.getattr(two, 'grid')
        return I.getattr(one, 'grid'), I.getattr(two, 'grid')
    for c in run(setup):
        out.use(c)
        for exc, rel, st in c.feasible_raises():
            out.ob('the grid is available', 'two interpolators', False, str(exc), str(exc.where))
        if not c.returned:
            continue
        for g, (lo, w), orders, nm in ((c.value[0], ([ZERO, ZERO], [ONE, ONE]), (2, 3), 'first'),
                                       (c.value[1], b, (3, 2), 'second')):
            ok = isinstance(g, Arr) and [x.value if x.is_const else None for x in g.shape] == [2, 6]
            if not out.ob('the grid has one column per node', nm + ' of two interpolators', ok, str(g)):
                continue
            snap = c.I.snapshot(g)
            for col, node in enumerate(product(*[range(x) for x in orders])):
                for k in range(2):
                    want = add(lo[k], mul(w[k], T.const(node[k]), T.precip(const(orders[k] - 1))))
                    out.equal('node coordinates do not depend on other interpolators',
                              '%s of two, node %s axis %d' % (nm, node, k), c.facts,
                              A.expand(snap((const(k), const(col))), c.facts), want)


def units():
    u = [('%dd-%s-%s' % (d, dt, th), generic(d, dt, th))
         for d, dt, th in ((1, 'f8', 'call'), (1, 'f4', 'init'), (2, 'f8', 'method'), (2, 'f4', 'call'),
                           (3, 'f8', 'call'), (3, 'f4', 'init'), (4, 'f8', 'init'), (4, 'f4', 'call'))]
    u += [('grid-%s' % 'x'.join(map(str, o)), grid(o)) for o in ((2,), (5,), (2, 3), (3, 2, 2), (2, 3, 2, 2))]
    u.append(('grid-history', history))
    return u
