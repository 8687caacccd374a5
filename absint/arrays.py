"""Array contents: what is stored where, as a log of (parametric) writes over a base.

A content is an immutable chain.  A Write covers a family of cells (index expressions over
bound variables); a Loop stands for all the writes of the iterations of a loop.  Reading a
cell solves the index equations of the writes, newest first.  Reads that are not needed
right away stay symbolic ('rd' atoms) and are resolved when a value is asked for.
"""
import itertools
from fractions import Fraction
from . import terms
from .terms import (ATOMS, AnalysisError, FALSE, ONE, Poly, Subst, TRUE, Tree, ZERO, atom_poly, cmp_eq, cmp_ge, const,
                    leaf, lin_split, mk_atom, mk_poly, padd, pfloordiv, pmul, pneg, poly_is_int, prange_num, pscale,
                    psub, sym, t_and, t_ite, t_not, t_or, tapply, tmap, tsub)
from .facts import EMPTY, Facts

CONTENTS = []
LOOP_SYMS = set()          # atom ids of loop variables (they may be substituted later)
STATS = {'lookups': 0, 'unsolved': 0}


class Unsolved(Exception):
    pass


def free_of(*xs):
    out = set()
    for x in xs:
        if x is None:
            continue
        if isinstance(x, (Poly, Tree)):
            out |= (x.syms & LOOP_SYMS)
        elif isinstance(x, Content):
            out |= x.free
        elif isinstance(x, (tuple, list)):
            out |= free_of(*x)
        elif isinstance(x, (set, frozenset)):
            out |= x
    return out


class Content:
    is_int = False

    def _init(self, free, is_int):
        self.uid = len(CONTENTS)
        CONTENTS.append(self)
        self.free = frozenset(free)
        self.free_order = tuple(sorted(self.free))
        self.is_int = is_int
        self.identity = tuple(atom_poly(ATOMS[a]) for a in self.free_order)


class Base(Content):
    """A content that does not depend on other writes."""
    prev = None


class Uninit(Base):
    def __init__(self, name, is_int):
        self.name = name
        self._init((), is_int)

    def at(self, idx, f, sub):
        a = mk_atom('uninit', (self.name, self.uid, tuple(idx)), self.is_int)
        return leaf(atom_poly(a))


class Elem(Base):
    """The unknown values of an input."""

    def __init__(self, name, is_int=False, lo=None, hi=None):
        self.name = name
        self.lo = const(lo) if isinstance(lo, (int, Fraction)) else lo
        self.hi = const(hi) if isinstance(hi, (int, Fraction)) else hi
        self._init((), is_int)

    def at(self, idx, f, sub):
        a = mk_atom('elem', (self.name, tuple(idx)), self.is_int, self.lo, self.hi)
        return leaf(atom_poly(a))


class Lam(Base):
    """Values computed from the index by fn(idx, facts) -> Tree."""

    def __init__(self, fn, is_int, free=(), eager=False):
        self.fn = fn
        self.eager = eager
        self.cache = {}
        self._init(free, is_int)

    def at(self, idx, f, sub):
        key = tuple(idx)
        r = self.cache.get(key)
        if r is None:
            r = self.fn(key)
            if len(self.cache) < 200000:
                self.cache[key] = r
        if sub is not None:
            r = sub.tree(r)
        return r


class Tab(Base):
    """A one-dimensional table of known values."""

    def __init__(self, values, is_int, free=()):
        self.values = tuple(values)
        self._init(free_of(self.values) | set(free), is_int)

    def at(self, idx, f, sub):
        i = idx[0]
        if i.is_const:
            k = i.value
            if 0 <= k < len(self.values):
                r = self.values[int(k)]
            else:
                r = leaf(atom_poly(mk_atom('outside', (self.uid, i), self.is_int)))
        else:
            lin = self.linear()
            if lin is not None:
                r = leaf(padd(lin[0], pmul(lin[1], i)))
            elif len(self.values) > 4000:
                raise AnalysisError('symbolic index in a long table')
            else:
                r = self._switch(i)
        if sub is not None:
            r = sub.tree(r)
        return r

    def linear(self):
        r = getattr(self, '_lin', None)
        if r is None:
            vs = self.values
            r = False
            if len(vs) >= 2 and all(v.cond is None for v in vs):
                d = psub(vs[1].leaf, vs[0].leaf)
                if all(psub(b.leaf, a.leaf) is d for a, b in zip(vs, vs[1:])):
                    r = (vs[0].leaf, d)
            elif len(vs) == 1 and vs[0].cond is None:
                r = (vs[0].leaf, ZERO)
            self._lin = r
        return r or None

    def _switch(self, i):
        lo, hi = prange_num(i)
        out = self.values[-1]
        for k in range(len(self.values) - 2, -1, -1):
            out = t_ite(cmp_ge(psub(const(k), i)), self.values[k], out)
        return out


class Write(Content):
    """prev, then cells index(vars) = value for all the vars where guard holds."""

    def __init__(self, prev, index, value, vars=(), guard=TRUE, where=None):
        self.prev, self.index, self.value, self.vars, self.guard, self.where = prev, tuple(index), value, tuple(vars), guard, where
        bound = {v[0].atoms()[0].id for v in self.vars}
        free = free_of(prev) | (free_of(self.index, value, guard, [v[1] for v in vars], [v[2] for v in vars]) - bound)
        self._init(free, prev.is_int)


class LoopBase(Content):
    """The content at the start of an iteration: prev and the writes of the iterations before."""

    def __init__(self, prev, var, lo):
        self.prev, self.var, self.lo = prev, var, lo
        self.loop = None
        self._init(free_of(prev, lo) | {var.atoms()[0].id}, prev.is_int)


class Loop(Content):
    """prev, then the writes of the iterations lo..hi (inclusive) of a loop."""

    def __init__(self, base, body, hi, guard=TRUE, parallel=None):
        self.prev, self.base, self.body, self.lo, self.hi, self.guard = base.prev, base, body, base.lo, hi, guard
        self.var = base.var
        self.parallel = parallel
        base.loop = self
        va = self.var.atoms()[0]
        self.bvar = sym('b', True)
        LOOP_SYMS.add(self.bvar.atoms()[0].id)
        free = free_of(self.prev, self.lo, hi, guard) | (free_of(body) - {va.id})
        self._init(free, base.is_int)
        self._recs = None

    def records(self):
        """The writes of one iteration, newest first, over the bound variables."""
        if self._recs is None:
            sub = {self.var.atoms()[0]: self.bvar}
            s = Subst(sub)
            out = []
            for r in flatten(self.body, self.base):
                out.append(Record(((self.bvar, self.lo, self.hi, self),) + tuple((v, _sp(s, lo), _sp(s, hi), o) for v, lo, hi, o in r.vars),
                                  tuple(s.tree(_t(e)) for e in r.index), s.tree(r.guard), s.tree(r.value), r.where))
            self._recs = out
        return self._recs


class Guarded(Content):
    """Re-logs the writes of `body` down to `stop`, under a condition, on top of prev."""

    def __init__(self, prev, body, stop, guard):
        self.prev, self.body, self.stop, self.guard = prev, body, stop, guard
        self._init(free_of(prev, body, guard), prev.is_int)
        self._recs = None

    def records(self):
        if self._recs is None:
            self._recs = [Record(r.vars, r.index, t_and(self.guard, r.guard), r.value, r.where)
                          for r in flatten(self.body, self.stop)]
        return self._recs


class Ite(Content):
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b
        self.prev = None
        self._init(free_of(cond, a, b), a.is_int)


class Record:
    __slots__ = ('vars', 'index', 'guard', 'value', 'where')

    def __init__(self, vars, index, guard, value, where=None):
        self.vars, self.index, self.guard, self.value, self.where = vars, index, guard, value, where


def _t(x):
    return leaf(x) if isinstance(x, Poly) else x


def _sp(s, p):
    if isinstance(p, Tree):
        return s.tree(p)
    r = s.poly(p)
    return r


def flatten(c, stop):
    """Records from content c down to (not including) stop, newest first."""
    out = []
    while c is not stop:
        if isinstance(c, Write):
            out.append(Record(tuple(v if len(v) == 4 else (v + (c,)) for v in c.vars), c.index, c.guard, c.value, c.where))
        elif isinstance(c, Loop):
            for r in c.records():
                out.append(r if c.guard is TRUE else Record(r.vars, r.index, t_and(c.guard, r.guard), r.value, r.where))
        elif isinstance(c, Guarded):
            out.extend(c.records())
        else:
            raise AnalysisError('the contents of an array are replaced in a loop (%s)' % type(c).__name__)
        c = c.prev
        if c is None:
            raise AnalysisError('lost track of the contents of an array')
    return out


def merge_contents(cond, a, b):
    """Content that is a where cond holds, else b."""
    if a is b:
        return a
    anc = set()
    x = a
    while x is not None:
        anc.add(x.uid)
        x = x.prev
    y = b
    while y is not None and y.uid not in anc:
        y = y.prev
    if y is None:
        return Ite(cond, a, b)
    out = y
    if a is not y:
        out = Guarded(out, a, y, cond)
    if b is not y:
        out = Guarded(out, b, y, t_not(cond))
    return out


# ------------------------------------------------------------------ reads

def rd_atom(c, idx, env=None):
    env = c.identity if env is None else env
    a = mk_atom('rd', (c.uid, tuple(idx), tuple(env)), c.is_int)
    return leaf(atom_poly(a))


def lift_index(fn, idx):
    """Apply fn to a tuple of Polys for every combination of the leaves of the index trees."""
    idx = [leaf(i) if isinstance(i, Poly) else i for i in idx]
    for k, t in enumerate(idx):
        if t.cond is not None:
            def br(p, k=k):
                new = list(idx)
                new[k] = leaf(p)
                return lift_index(fn, new)
            return tmap(br, t)
    return fn(tuple(t.leaf for t in idx))


def read(c, idx, f=EMPTY):
    """The value at the index (Polys or Trees); may contain 'rd' atoms."""
    return lift_index(lambda i: _read(c, i, f), [f.simplify(i) if isinstance(i, Tree) and i.cond is not None else i for i in idx])


def _read(c, idx, f):
    n = 0
    while True:
        if isinstance(c, Write) and not c.vars:
            n += 1
            if n > 400:
                return rd_atom(c, idx)
            try:
                hit, val = solve(Record((), c.index, c.guard, c.value), idx, None, f)
            except Unsolved:
                return rd_atom(c, idx)
            if hit is TRUE:
                return val
            if hit is FALSE:
                c = c.prev
                continue
            return rd_atom(c, idx)
        if isinstance(c, Write):
            try:
                hit, val = solve(Record(tuple(v + (c,) for v in c.vars), c.index, c.guard, c.value), idx, None, f)
            except Unsolved:
                return rd_atom(c, idx)
            if hit is TRUE:
                return val
            if hit is FALSE:
                c = c.prev
                continue
            return rd_atom(c, idx)
        if isinstance(c, (Elem, Uninit)):
            return c.at(idx, f, None)
        if isinstance(c, Tab) and (idx[0].is_const or c.linear()):
            return c.at(idx, f, None)
        if isinstance(c, Lam) and c.eager:
            return c.at(idx, f, None)
        return rd_atom(c, idx)


def solve(rec, idx, sub, f):
    """(hit condition, value) of a record at the index; value of the last iteration that hits."""
    hit, val, _ = solve_full(rec, idx, sub, f)
    return hit, val


def solve_full(rec, idx, sub, f):
    def S(x):
        if x is TRUE or sub is None:
            return x
        if isinstance(x, Tree):
            return sub.tree(x)
        return sub.poly(x)
    index = [S(_t(e)) for e in rec.index]
    if len(index) != len(idx):
        raise AnalysisError('an index has the wrong number of dimensions')
    if not rec.vars:
        hit = TRUE
        for e, i in zip(index, idx):
            if e.cond is None:
                p = psub(e.leaf, i)
                h = cmp_eq(p, True)
            else:
                h = tmap(lambda q: cmp_eq(psub(q, i), True), e)
            if h is FALSE:
                return FALSE, None, {}
            hit = t_and(hit, h)
        if hit is not TRUE:
            hit = f.simplify(hit)
            if hit is FALSE:
                return FALSE, None, {}
        hit = t_and(hit, S(rec.guard))
        hit = f.simplify(hit)
        if hit is FALSE:
            return FALSE, None, {}
        return hit, S(rec.value), {}
    vs = [(v.atoms()[0], _poly(S(lo), f), _poly(S(hi), f), o) for v, lo, hi, o in rec.vars]
    ids = {v[0].id: k for k, v in enumerate(vs)}
    eqs = []
    hit = TRUE
    for e, i in zip(index, idx):
        if e.cond is not None:
            if not (e.syms & set(ids)):
                h = tmap(lambda q: cmp_eq(psub(q, i), True), e)
                h = f.simplify(h)
                if h is FALSE:
                    return FALSE, None, {}
                hit = t_and(hit, h)
                continue
            e = f.simplify(e)
            if e.cond is not None:
                raise Unsolved('index %r' % (e,))
        eqs.append(psub(e.leaf, i))
    sol = {}
    conds = [hit]

    def apply_sol(p):
        if not sol:
            return p
        r = Subst(sol).poly(p)
        if isinstance(r, Tree):
            r = f.simplify(r)
            if r.cond is not None:
                raise Unsolved('a tree')
            r = r.leaf
        return r
    pending = eqs
    progress = True
    while pending and progress:
        progress = False
        rest = []
        # equations with the fewest unknowns first
        scored = []
        for e in pending:
            e = apply_sol(e)
            un = [a for a in ids if a in e.syms and ATOMS[a] not in sol]
            scored.append((len(un), e, un))
        scored.sort(key=lambda x: x[0])
        for n, e, un in scored:
            e = apply_sol(e)
            un = [a for a in ids if a in e.syms and ATOMS[a] not in sol]
            if not un:
                h = f.simplify(cmp_eq(e, True))
                if h is FALSE:
                    return FALSE, None, {}
                conds.append(h)
                progress = True
                continue
            if _solve_eq(e, un, vs, ids, sol, conds, f, apply_sol):
                progress = True
                if any(c is FALSE for c in conds):
                    return FALSE, None, {}
            else:
                rest.append(e)
        pending = rest
    if pending:
        raise Unsolved('equations')
    # variables that the index does not determine: the last iteration
    guard = S(rec.guard)
    for k, (a, lo, hi, o) in enumerate(vs):
        if a not in sol:
            h2, l2 = apply_sol(hi), apply_sol(lo)
            if a.id in guard.syms and f.simplify(guard) is not TRUE:
                ups, lows = _guard_bounds(f.simplify(Subst(dict(sol)).tree(guard) if sol else guard), a, set(ids), f)
                for u in ups:
                    t = f.simplify(cmp_ge(psub(u, h2), True))
                    if t is TRUE:
                        continue
                    if t is not FALSE and f.simplify(cmp_ge(psub(h2, u), True)) is not TRUE:
                        raise Unsolved('guard')
                    h2 = u
                for lw in lows:
                    conds.append(cmp_ge(psub(h2, lw), True))
            # hi may depend on other unsolved variables: they are before it
            conds.append(cmp_ge(psub(h2, l2), True))
            sol[a] = h2
    full = {}
    # close the solution (bounds of inner variables refer to outer ones)
    for a in sol:
        full[a] = apply_sol(sol[a])
    for k, (a, lo, hi, o) in enumerate(vs):
        s = Subst(full)
        v = full[a]
        l2, h2 = s.poly(lo), s.poly(hi)
        for t in (cmp_ge(psub(v, l2), True), cmp_ge(psub(h2, v), True)):
            if t is FALSE:
                return FALSE, None, {}
            if t is not TRUE:
                t = f.simplify(t)
                if t is FALSE:
                    return FALSE, None, {}
            conds.append(t)
    hit = TRUE
    for c in conds:
        hit = t_and(hit, c)
    s = Subst(full)
    hit = t_and(hit, s.tree(guard))
    hit = f.simplify(hit)
    if hit is FALSE:
        return FALSE, None, {}
    return hit, s.tree(S(rec.value)), {o: full[a] for a, lo, hi, o in vs}


def _guard_bounds(guard, a, ids, f):
    """Upper and lower bounds of the variable a that are equivalent to the part of the guard that has a."""
    ups, lows = [], []
    while guard.cond is not None:
        if guard.lo is FALSE:
            c, pos, guard = guard.cond, True, guard.hi
        elif guard.hi is FALSE:
            c, pos, guard = guard.cond, False, guard.lo
        else:
            raise Unsolved('guard')
        if a.id not in c.syms:
            continue
        if c.kind not in ('ge', 'eq') or (c.kind == 'eq' and not pos):
            raise Unsolved('guard')
        op, p = c.kind, c.args[0]
        sp = lin_split(p, a.id)
        if sp is None or not sp[0].is_const or sp[0].value not in (1, -1) or any(x in sp[1].syms for x in ids):
            raise Unsolved('guard')
        k, rest = sp[0].value, sp[1]
        v = pscale(rest, -k)          # a == v at the border
        if op == 'eq':
            ups.append(v)
            lows.append(v)
        elif op == 'ge' and a.is_int and poly_is_int(p):
            if pos:                   # k*a + rest >= 0
                (lows if k == 1 else ups).append(v)
            elif k == 1:              # a < v
                ups.append(psub(v, ONE))
            else:
                lows.append(padd(v, ONE))
        else:
            raise Unsolved('guard')
    if guard is not TRUE:
        raise Unsolved('guard')
    return ups, lows


def _poly(x, f):
    if isinstance(x, Tree):
        x = f.simplify(x)
        if x.cond is not None:
            raise Unsolved('bound is not a polynomial')
        return x.leaf
    return x


def _solve_eq(e, un, vs, ids, sol, conds, f, apply_sol):
    """Solve e == 0 for the unknown variables un (adding to sol); False if it cannot be done yet."""
    parts = []
    rest = e
    for a in un:
        sp = lin_split(rest, a)
        if sp is None:
            return False
        c, rest = sp
        if any(x in c.syms for x in ids):
            return False
        parts.append((c, ATOMS[a]))
    if any(x in rest.syms for x in ids if ATOMS[x] not in sol):
        return False
    if len(parts) == 1:
        c, a = parts[0]
        t = pneg(rest)
        if c.is_const:
            cv = c.value
            if cv in (1, -1):
                sol[a] = pscale(t, cv)
                return True
            q = pfloordiv(t, c)
            conds.append(f.simplify(cmp_eq(psub(t, pmul(c, q)), True)))
            sol[a] = q
            return True
        if f.prove_gt(c):
            q = pfloordiv(t, c)
            conds.append(f.simplify(cmp_eq(psub(t, pmul(c, q)), True)))
            sol[a] = q
            return True
        return False
    # mixed radix: sum of c_k * v_k == -rest, coefficients of one sign
    info = []
    for c, a in parts:
        k = ids[a.id]
        lo, hi = apply_sol(vs[k][1]), apply_sol(vs[k][2])
        if any(x in lo.syms or x in hi.syms for x in ids if ATOMS[x] not in sol):
            return False
        info.append([c, a, lo, hi, k])
    signs = set()
    for i in info:
        c = i[0]
        if f.prove_gt(c):
            signs.add(1)
        elif f.prove_gt(pneg(c)):
            signs.add(-1)
        else:
            return False
    t = pneg(rest)
    if signs == {-1}:
        for i in info:
            i[0] = pneg(i[0])
        t = pneg(t)
    elif signs != {1}:
        # some reversed: v = lo + hi - v'
        return False
    for c, a, lo, hi, k in info:
        t = psub(t, pmul(c, lo))
    import functools

    def cmpc(x, y):
        d = psub(x[0], y[0])
        if f.prove_gt(d):
            return -1
        if f.prove_gt(pneg(d)):
            return 1
        return x[4] - y[4]
    info.sort(key=functools.cmp_to_key(cmpc))
    for n, (c, a, lo, hi, k) in enumerate(info):
        inner = info[n + 1:]
        if not inner:
            if c.is_const and c.value == 1:
                u = t
            else:
                u = pfloordiv(t, c)
                conds.append(f.simplify(cmp_eq(psub(t, pmul(c, u)), True)))
            sol[a] = padd(u, lo)
            continue
        mx = ZERO
        for c2, a2, l2, h2, k2 in inner:
            mx = padd(mx, pmul(c2, psub(h2, l2)))
        u = pfloordiv(t, c)
        if not f.prove_gt(psub(c, mx)):
            # the ranges overlap: the last iteration of the outer loop wins
            if any(k2 < k for _, _, _, _, k2 in inner):
                raise Unsolved('overlapping writes')
            top = psub(hi, lo)
            ge = f.simplify(cmp_ge(psub(top, u), True))
            if ge is FALSE:
                u = top
            elif ge is not TRUE:
                raise Unsolved('overlapping writes')
        sol[a] = padd(u, lo)
        t = psub(t, pmul(c, u))
    return True


# ------------------------------------------------------------------ full resolution

DEPTH = [0]
MAX_DEPTH = 60


def lookup(c, idx, f, sub=None, facts_limit=True):
    """The value at idx (tuple of Polys), all cases decided or gated; values may contain rd atoms."""
    STATS['lookups'] += 1
    while True:
        if isinstance(c, Base):
            return c.at(idx, f, sub)
        if isinstance(c, Ite):
            cond = c.cond if sub is None else sub.tree(c.cond)
            cond = f.simplify(cond)
            if cond is TRUE:
                c = c.a
                continue
            if cond is FALSE:
                c = c.b
                continue
            return gate(cond, lambda g: lookup(c.a, idx, g, sub), lambda g: lookup(c.b, idx, g, sub), f)
        if isinstance(c, (Write, Guarded)):
            if isinstance(c, Write):
                recs = [Record(tuple(v if len(v) == 4 else v + (c,) for v in c.vars), c.index, c.guard, c.value, c.where)]
            else:
                recs = c.records()
            r = _pick(recs, idx, f, sub, c)
            if isinstance(r, Tree):
                return r
            nxt = c.prev
            if r is None:
                c = nxt
                continue
            return _gated(r, 0, f, lambda g: lookup(nxt, idx, g, sub))
        if isinstance(c, Loop):
            r = _pick(c.records(), idx, f, sub, c, None if sub is None and c.guard is TRUE else
                      (c.guard if sub is None else sub.tree(c.guard)))
            nxt = c.prev
        elif isinstance(c, LoopBase):
            lp = c.loop
            if lp is None:
                return rd_atom(c, idx, None if sub is None else [_sp(sub, p) for p in c.identity])
            # the iterations before var
            v = c.var if sub is None else _poly(sub.ptree(c.var), f)
            recs = []
            hi = psub(c.var, ONE)
            for rec in lp.records():
                w = list(rec.vars)
                w[0] = (w[0][0], c.lo, hi, lp)
                recs.append(Record(tuple(w), rec.index, rec.guard, rec.value, rec.where))
            r = _pick(recs, idx, f, sub, c, lp.guard if sub is None else sub.tree(lp.guard))
            nxt = c.prev
        else:
            raise AnalysisError('unknown content')
        if isinstance(r, Tree):
            return r
        if r is None:
            c = nxt
            continue
        return _gated(r, 0, f, lambda g: lookup(nxt, idx, g, sub))


def gate(cond, fa, fb, f):
    ga, gb = f.assume(cond), f.assume(cond, False)
    if ga is None:
        return fb(gb if gb is not None else f)
    if gb is None:
        return fa(ga)
    return t_ite(cond, fa(ga), fb(gb))


def _gated(cands, k, f, rest):
    if k == len(cands):
        return rest(f)
    hit, val = cands[k]
    hit = f.simplify(hit)
    if hit is TRUE:
        return val
    if hit is FALSE:
        return _gated(cands, k + 1, f, rest)
    return gate(hit, lambda g: val, lambda g: _gated(cands, k + 1, g, rest), f)


def _pick(recs, idx, f, sub, c, guard=None):
    """Among the records (newest first in program order of one iteration) the value at idx:
    a Tree if decided, None if nothing hits, else candidates [(hit, value)] in order of priority."""
    found = []
    if guard is not None:
        guard = f.simplify(guard)
        if guard is FALSE:
            return None
    for r in recs:
        try:
            hit, val, sol = solve_full(r, idx, sub, f)
        except Unsolved as e:
            STATS['unsolved'] += 1
            # cells of this write cannot be told: unknown value
            return leaf(atom_poly(mk_atom('unk', (c.uid, tuple(idx), () if sub is None else tuple(_sp(sub, p) for p in c.identity)), c.is_int)))
        if hit is FALSE:
            continue
        if guard is not None:
            hit = t_and(guard, hit)
        found.append((hit, val, sol, r))
        if hit is TRUE and not r.vars:
            break
    if not found:
        return None
    if len(found) == 1:
        hit, val = found[0][:2]
        return val if hit is TRUE else [(hit, val)]
    # later iterations win over earlier ones
    out = []
    for n, (hit, val, sol, r) in enumerate(found):
        h = hit
        for m, (hit2, val2, sol2, r2) in enumerate(found):
            if m == n:
                continue
            later = _later(r2, sol2, r, sol, m < n)
            if later is FALSE or later is TRUE and False:
                continue
            beaten = t_and(hit2, later)
            h = t_and(h, t_not(beaten))
        h = f.simplify(h)
        if h is FALSE:
            continue
        if h is TRUE:
            return val
        out.append((h, val))
    return out or None


def _later(r2, sol2, r1, sol1, newer):
    """Condition that the write r2 happened after the write r1 (newer: r2 is after r1 in one iteration)."""
    out = TRUE if newer else FALSE
    common = []
    for (v2, _, _, o2), (v1, _, _, o1) in zip(r2.vars, r1.vars):
        if o1 is not o2:
            break
        common.append(o1)
    for o in reversed(common):
        d = psub(sol2[o], sol1[o])
        gt, eq = cmp_ge(psub(d, ONE), True), cmp_eq(d, True)
        out = t_or(gt, t_and(eq, out))
    return out


class Expander(Subst):
    """Resolves the 'rd' atoms of a value, given facts."""

    def __init__(self, f, depth=0):
        self.f = f
        self.map = {}
        self.keys = frozenset([-1])
        self.direct = frozenset()
        self.pc, self.ac, self.tc = {}, {}, {}
        self.depth = depth

    def touches(self, x):
        return -1 in x.syms

    def _atom(self, a):
        if a.kind == 'rd':
            uid, idx, env = a.args
            # indices may contain reads themselves
            idx2, ch, _ = self._args(idx)
            env2, ch2, _ = self._args(env)
            return lift_index(lambda e: lift_index(lambda i: self._resolve(uid, i, e), idx2) if True else None,
                              env2) if env2 else lift_index(lambda i: self._resolve(uid, i, ()), idx2)
        return Subst._atom(self, a)

    def _resolve(self, uid, idx, env):
        if self.depth > MAX_DEPTH:
            return leaf(atom_poly(mk_atom('deep', (uid, tuple(idx)), CONTENTS[uid].is_int)))
        c = CONTENTS[uid]
        f = self.f
        if f.eqs:
            idx = tuple(_simp(f, i) for i in idx)
        sub = None
        if tuple(env) != c.identity:
            sub = Subst({ATOMS[k]: v for k, v in zip(c.free_order, env)})
        v = lookup(c, tuple(idx), f, sub)
        v = f.prune(f.norm(v) if f.eqs else v)
        if -1 in v.syms:
            for rdself in v.syms:
                break
            e = Expander(f, self.depth + 1)
            e.pc, e.ac, e.tc = self.pc, self.ac, self.tc
            own = rd_atom_id(c, idx, env)
            if own is not None and _contains(v, own):
                return v        # cannot be resolved further (inside an unfinished loop)
            v = e.tree(v)
            v = f.prune(v)
        return v


def _simp(f, p):
    r = f.norm(p)
    return r


def rd_atom_id(c, idx, env):
    key = ('rd', (c.uid, tuple(idx), tuple(env) if env else c.identity))
    return terms._atom_tab.get(key)


def _contains(t, a):
    ap = atom_poly(a)
    for p in terms.tree_polys(t):
        if a in p.deep_atoms() or p is ap:
            return True
    return False


_expanders = {}


def expand(t, f=EMPTY):
    """Resolve every read in t."""
    if -1 not in t.syms:
        return t
    e = Expander(f)
    r = e.tree(t)
    return r
