"""Comparing an abstract value with its specification.

`compare` first tries to prove the two values equal in every case that the facts allow.  Only when the proof
fails does it look for a refutation: an assignment of the free symbols of the *terms* (nothing of the analysed
program is run) under which the two terms differ.  A difference is reported as a violation only with such an
assignment; when neither a proof nor an assignment is found, the analysis is inconclusive (AnalysisError).
"""
import itertools
import math
import random
from fractions import Fraction

from absint import terms as T
from absint.facts import equal_trees
from absint.terms import ATOMS, AnalysisError, Poly, Tree

HARD = {'unk', 'rd', 'deep'}


class Undetermined(Exception):
    pass


class Infeasible(Exception):
    pass


class Valuation:
    def __init__(self, rng, eqs=None, small=6, nice=False, hints=None):
        self.rng, self.small, self.nice = rng, small, nice
        self.hints = hints or {}
        self.val = {}
        self.eqs = eqs or {}
        self.store = {}
        self.parent = None
        self.bound_ids = ()
        # sometimes all values stay on one side of the places where conditions change
        self.calm = rng.random() < 0.3

    def inside(self, ids, values):
        """The valuation below a binder: the bound variables have the given values."""
        v = Valuation.__new__(Valuation)
        v.rng, v.small, v.nice, v.hints, v.eqs, v.store, v.calm = (
            self.rng, self.small, self.nice, self.hints, self.eqs, self.store, self.calm)
        v.parent, v.bound_ids = self, ids
        v.val = dict(self.val)
        v.val.update(zip(ids, values))
        return v

    def reduction(self, a):
        """The value of a reduction over all elements of an array."""
        name, t, dims = a.args
        ns = [self.poly(d) for d in dims]
        n = math.prod(ns)
        if not dims or n > 600 or n <= 0:
            raise Undetermined('lam')
        syms = {T.ATOMS[i].args[0]: i for i in bound_symbols(t)}
        if len({x.split('_')[0] for x in syms}) > 1:
            raise Undetermined('lam')
        pos = {int(x.split('_')[1].split('#')[0]): i for x, i in syms.items()}
        r = []
        for ix in itertools.product(*[range(int(x)) for x in ns]):
            r.append(self.inside(tuple(pos.values()), [ix[k] for k in pos]).tree(t))
        if name in ('any', 'all'):
            return int({'any': any, 'all': all}[name](x != 0 for x in r))
        if name in ('min', 'max', 'sum'):
            return {'min': min, 'max': max, 'sum': sum}[name](r)
        if name == 'mean':
            return sum(r) / len(r)
        raise Undetermined('lam')

    # ------------------------------------------------------------ atoms
    def _rand(self, a, lo, hi, is_int):
        rng = self.rng
        if is_int:
            if lo is None and hi is None:
                lo, hi = -self.small, self.small
            elif lo is None:
                lo = hi - self.small
            elif hi is None:
                hi = lo + self.small
            lo, hi = math.ceil(lo), math.floor(hi)
            if lo > hi:
                raise Infeasible
            c = rng.random()
            if c < 0.2:
                return lo
            if c < 0.4:
                return hi
            return rng.randint(lo, hi)
        h = self.hints.get(a.id) if a is not None else None
        if h and rng.random() < 0.75:
            # around the places where a condition changes
            b = rng.choice(h)
            if self.calm:
                v = b * rng.uniform(-1, 1)
                if (lo is None or v >= lo) and (hi is None or v <= hi):
                    return v
            v = rng.choice((b, b * rng.uniform(0.5, 1.5), b + rng.uniform(-1, 1), -b * rng.uniform(0.5, 1.5)))
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        lo = -1.0 if lo is None and hi is None else lo
        if lo is None:
            lo = hi - 2.0
        if hi is None:
            hi = lo + 2.0
        lo, hi = float(lo), float(hi)
        if self.nice and rng.random() < 0.6:
            return rng.choice([lo, hi, 0.5 * (lo + hi), lo + 0.25 * (hi - lo)])
        return rng.uniform(lo, hi)

    def hashed(self, key, lo, hi, is_int, a=None):
        v = self.store.get(key)
        if v is None:
            v = self.store[key] = self._rand(a, lo, hi, is_int)
        return v

    def atom(self, a):
        v = self.val.get(a.id)
        if v is None:
            if a.id in self.eqs:
                v = self.poly(self.eqs[a.id])
            else:
                v = self._atom(a)
            self.val[a.id] = v
        return v

    def bound(self, b):
        if b is None:
            return None
        return self.poly(b) if isinstance(b, Poly) else b

    def arg(self, x):
        if isinstance(x, Poly):
            v = self.poly(x)
            return round(v, 9) if isinstance(v, float) else v
        if isinstance(x, Tree):
            v = self.tree(x)
            return round(v, 9) if isinstance(v, float) else v
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def _atom(self, a):
        k = a.kind
        if k in HARD:
            raise Undetermined(k)
        if k == 'lam':
            return self.reduction(a)
        if k == 'sym' and self.parent is not None:
            return self.parent.atom(a)
        if k == 'sym':
            return self._rand(a, self.bound(a.lo), self.bound(a.hi), a.is_int)
        if k == 'const':
            if a.args[0] in ('pi', 'π'):
                return math.pi
            raise Undetermined('const %s' % (a.args[0],))
        ev = [self.arg(x) for x in a.args]
        if k == 'fdiv':
            if ev[1] == 0:
                raise Infeasible
            return math.floor(Fraction(ev[0]) / Fraction(ev[1])) if not isinstance(ev[0], float) else math.floor(
                ev[0] / ev[1])
        if k == 'recip':
            if ev[0] == 0:
                raise Infeasible
            return 1 / Fraction(ev[0]) if not isinstance(ev[0], float) else 1 / ev[0]
        try:
            if k == 'sin':
                return math.sin(ev[0])
            if k == 'cos':
                return math.cos(ev[0])
            if k in ('asin', 'acos'):
                x = float(ev[0])
                if abs(x) > 1 + 1e-9:
                    raise Infeasible
                return getattr(math, k)(max(-1.0, min(1.0, x)))
            if k == 'atan':
                return math.atan(ev[0])
            if k == 'atan2':
                return math.atan2(ev[0], ev[1])
            if k == 'exp':
                return math.exp(ev[0])
            if k == 'sqrt':
                if ev[0] < -1e-9:
                    raise Infeasible
                return math.sqrt(max(0.0, ev[0]))
            if k == 'abs':
                return abs(ev[0])
            if k == 'pow':
                return ev[0] ** ev[1]
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Infeasible
        if k == 'cdiv':
            if ev[1] == 0:
                raise Infeasible
            return int(Fraction(ev[0]) / Fraction(ev[1]))
        if k == 'trunc':
            return int(ev[0])
        if k in ('div0', 'nan', 'inf', 'outside', 'uninit'):
            return self.hashed((k,) + tuple(ev), 1000, 2000, False)
        if k in ('b', 'ge', 'gt'):
            return self.cond(a)
        # everything else is an unknown function of its arguments
        return self.hashed((k,) + tuple(ev), self.bound(a.lo), self.bound(a.hi), a.is_int, a)

    def poly(self, p):
        s = 0
        for m, c in p.terms.items():
            for aid, e in m:
                v = self.atom(ATOMS[aid])
                if e < 0 and v == 0:
                    raise Infeasible
                if e < 0 and not isinstance(v, float):
                    v = Fraction(v)
                try:
                    c = c * v ** e
                except OverflowError:
                    raise Infeasible
            s = s + c
        return s

    def cond(self, c):
        if c.kind == 'ge':
            return self.poly(c.args[0]) >= 0
        if c.kind == 'gt':
            return self.poly(c.args[0]) > 0
        if c.kind in HARD:
            raise Undetermined(c.kind)
        if c.kind == 'lam':
            return self.reduction(c) == 1
        return self.hashed((c.kind,) + tuple(self.arg(x) for x in c.args), 0, 1, True) == 1

    def tree(self, t):
        while t.cond is not None:
            t = t.hi if self.cond(t.cond) else t.lo
        return self.poly(t.leaf)

    def facts_hold(self, f):
        for p, strict in f.ineqs:
            v = self.poly(p)
            if v < 0 or (strict and v == 0):
                return False
        for cid, pos in f.lits.items():
            if ATOMS[cid].kind not in ('ge', 'gt') and self.cond(ATOMS[cid]) != pos:
                return False
        for t in f.resid:
            if not self.tree(t):
                return False
        for aid, q in f.eqs.items():
            if abs(self.atom(ATOMS[aid]) - self.poly(q)) > 1e-9:
                return False
            a = ATOMS[aid]
            for b, s in ((a.lo, 1), (a.hi, -1)):
                if b is not None and s * (self.atom(a) - self.bound(b)) < -1e-9:
                    return False
        return True

    def describe(self):
        out = {}
        for k, v in self.val.items():
            if isinstance(k, int):
                a = ATOMS[k]
                if a.kind in ('sym', 'elem'):
                    out[T.show_atom(a)] = float(v) if not isinstance(v, int) else v
        return out


_bs = {}


def bound_symbols(t):
    """ids of the bound index variables in a tree"""
    r = _bs.get(id(t))
    if r is None:
        ids = set()
        for a in all_atoms(t):
            if a.kind == 'sym' and str(a.args[0]).startswith('%'):
                ids.add(a.id)
        r = _bs[id(t)] = (t, frozenset(ids))
    return r[1]


def all_atoms(t):
    out, todo = {}, [t]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, Poly):
            todo += [ATOMS[aid] for m in x.terms for aid, e in m]
        elif isinstance(x, Tree):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.cond is None:
                todo.append(x.leaf)
            else:
                todo += [x.cond, x.hi, x.lo]
        elif isinstance(x, T.Atom):
            if x.id not in out:
                out[x.id] = x
                todo += list(x.args)
    return list(out.values())


def breakpoints(f, *trees):
    """atom id -> values at which a condition of the facts or trees changes"""
    out = {}
    ps, seen = [p for p, _ in f.ineqs], set()
    todo = list(trees)
    while todo:
        x = todo.pop()
        if x is None or x.cond is None or id(x) in seen:
            continue
        seen.add(id(x))
        if x.cond.kind in ('ge', 'gt'):
            ps.append(x.cond.args[0])
        todo += [x.hi, x.lo]
    for p in ps[:400]:
        c0 = p.terms.get((), 0)
        for m, c in p.terms.items():
            if len(m) == 1 and m[0][1] == 1 and not ATOMS[m[0][0]].is_int and c0:
                v = float(-Fraction(c0) / Fraction(c))
                out.setdefault(m[0][0], [])
                if v not in out[m[0][0]] and len(out[m[0][0]]) < 12:
                    out[m[0][0]].append(v)
    for aid in list(out):
        if ATOMS[aid].kind == 'lam':
            for b in all_atoms(ATOMS[aid].args[1]):
                if b.kind == 'elem':
                    out.setdefault(b.id, []).extend(out[aid])
    return out


def refute(f, s, t, tries=4000, seed=1, tol=1e-7):
    """An assignment under which s and t differ, or None; the number of assignments that satisfied the facts."""
    rng = random.Random(seed)
    n = und = 0
    hints = breakpoints(f, s, t)
    for k in range(tries):
        v = Valuation(rng, f.eqs, small=(3, 6, 20, 60)[k % 4], nice=k % 2 == 0, hints=hints if k % 5 else None)
        try:
            if not v.facts_hold(f):
                continue
            x = v.tree(s)
            y = v.tree(t)
        except Infeasible:
            continue
        except Undetermined:
            und += 1
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        n += 1
        if abs(x - y) > tol * max(1.0, abs(x), abs(y)):
            return (v.describe(), float(x), float(y)), n, und
        if n > 600:
            break
    return None, n, und


def compare(f, got, want, seed=1):
    """None if proved equal; a description of a difference otherwise.  AnalysisError if undecided."""
    ok, w = equal_trees(f, got, want)
    if ok:
        return None
    g, p, q = w
    cand = [(g, T.leaf(p), T.leaf(q)), (f, got, want)]
    tot = 0
    for ff, s, t in cand:
        r, n, und = refute(ff, s, t, seed=seed)
        tot += n
        if r is not None:
            vals, x, y = r
            return {'got': x, 'want': y, 'with': {k: vals[k] for k in list(vals)[:24]},
                    'case': [T.show(i[0]) for i in g.ineqs[:8]],
                    'got_term': T.show(p)[:600], 'want_term': T.show(q)[:600]}
    raise AnalysisError('inconclusive comparison (%d assignments agree): %s  ~  %s  where %s' % (
        tot, T.show(p)[:500], T.show(q)[:500], [T.show(i[0]) for i in g.ineqs[:8]]))


def feasible(f, cond, seed=1, tries=4000):
    """An assignment that satisfies the facts and the condition tree, or None."""
    rng = random.Random(seed)
    hints = breakpoints(f, cond)
    for k in range(tries):
        v = Valuation(rng, f.eqs, small=(3, 6, 20, 60)[k % 4], nice=k % 2 == 0, hints=hints if k % 5 else None)
        try:
            if v.facts_hold(f) and v.tree(cond):
                return v.describe()
        except (Infeasible, Undetermined, OverflowError, ZeroDivisionError):
            continue
    return None
