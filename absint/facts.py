"""What is known where: conjunctions of conditions, and sign proofs by bound substitution."""
import math
from fractions import Fraction
from .terms import (ATOMS, AnalysisError, FALSE, ONE, Poly, Subst, TRUE, Tree, ZERO, atom_poly, const, leaf,
                    lin_split, mk_atom, mk_poly, node, padd, pmul, pneg, poly_is_int, prange_num, pscale, psub,
                    sym, t_and, t_ite, t_not, tree_conds, cmp_ge, is_zero, tree_leaves, ppow, pfloordiv)

MAX_PROVE_DEPTH = 14
_modk = {}
STATS = {'proofs': 0, 'facts': 0}


class Contradiction(Exception):
    pass


class Facts:
    """An immutable set of facts."""

    def __init__(self, lits=None, ineqs=(), eqs=None, resid=(), parent=None):
        self.lits = lits or {}          # cond atom id -> bool
        self.ineqs = ineqs              # tuple of (poly, strict): poly >= 0 or > 0
        self.eqs = eqs or {}            # atom id -> poly (solved equalities)
        self.resid = resid              # trees that are neither literals nor conjunctions
        self._subst = None
        self.cache = dict(parent.cache) if parent is not None else {}
        self.pcache = {k: v for k, v in parent.pcache.items() if v} if parent is not None else {}
        self.index = None
        self.deep = None
        self.scache = {}
        self.kids = {}
        STATS['facts'] += 1
        self.serial = STATS['facts']

    # -------------------------------------------------------------- equalities
    @property
    def subst(self):
        if self._subst is None:
            self._subst = Subst({ATOMS[k]: v for k, v in self.eqs.items()})
        return self._subst

    def norm(self, x):
        if not self.eqs:
            return x
        if isinstance(x, Poly):
            r = self.subst.poly(x)
            if isinstance(r, Tree):
                if r.cond is None:
                    return r.leaf
                return x
            return r
        return self.subst.tree(x)

    # -------------------------------------------------------------- extension
    def assume(self, t, sign=True):
        """These facts and the tree t; None if contradictory."""
        if not sign:
            t = t_not(t)
        if t is TRUE:
            return self
        key = t
        if key in self.kids:
            return self.kids[key]
        r = self._assume(t)
        if len(self.kids) < 400:
            self.kids[key] = r
        return r

    def _assume(self, t):
        if self.eqs:
            t = self.norm(t)
        t = self.prune(t)
        if t is FALSE:
            return None
        if t is TRUE:
            return self
        todo = [t]
        lits = dict(self.lits)
        ineqs = list(self.ineqs)
        new_eq = []
        resid = list(self.resid)
        changed = False
        while todo:
            x = todo.pop()
            if x is TRUE:
                continue
            if x is FALSE:
                return None
            lit = self._implied(x)
            if lit is None:
                resid.append(x)
                changed = True
                continue
            c, pos, rest = lit
            if c.id in lits:
                if lits[c.id] != pos:
                    return None
            else:
                lits[c.id] = pos
                changed = True
                if c.kind == 'ge':
                    p = c.args[0] if pos else psub(pneg(c.args[0]), ONE)
                    ineqs.append((p, False))
                    self._find_eq(p, ineqs, new_eq)
                elif c.kind == 'gt':
                    p = c.args[0]
                    ineqs.append((p, True) if pos else (pneg(p), False))
                    if not pos:
                        self._find_eq_real(pneg(p), ineqs, new_eq)
            if rest is not TRUE:
                todo.append(rest)
        if not changed:
            return self
        f = Facts(lits, tuple(ineqs), self.eqs, tuple(resid), self)
        for p in new_eq:
            f = f.add_eq(p)
            if f is None:
                return None
        # does it follow from the facts that something is violated?
        for p, strict in ineqs[len(self.ineqs):]:
            q = f.norm(p)
            if q.is_const and (q.value < 0 or (strict and q.value == 0)):
                return None
            if poly_is_int(q):
                if f.without(p).prove_ge(psub(pneg(q), ONE), 4):
                    return None
        # residuals may have become decided
        if f.resid:
            res = f.resid
            f.resid = ()
            for x in res:
                y = f.prune(f.norm(x))
                if y is FALSE:
                    return None
                if y is TRUE:
                    continue
                if y is x:
                    f.resid = f.resid + (x,)
                else:
                    g = f.assume(y)
                    if g is None:
                        return None
                    f = g
        return f

    def contradictory(self):
        """Do the facts exclude each other (real inequalities included)?"""
        qs = []
        for p, strict in self.ineqs:
            q = self.norm(p)
            if isinstance(q, Poly):
                qs.append((p, q, strict))
        for p, q, strict in qs:
            g = self.without(p)
            if poly_is_int(q):
                if g.prove_ge(psub(pneg(q), ONE)):
                    return True
            elif g.prove_ge(pneg(q)) if strict else g.prove_gt(pneg(q)):
                return True
        return False

    def without(self, p):
        return Facts(self.lits, tuple(x for x in self.ineqs if x[0] is not p), self.eqs, ())

    @staticmethod
    def _implied(t):
        """A literal implied by t, with the rest: (cond, positive, rest)."""
        if t.lo is FALSE:
            return t.cond, True, t.hi
        if t.hi is FALSE:
            return t.cond, False, t.lo
        cs = tree_conds(t)
        if len(cs) <= 12:
            for c in cs.values():
                n = node(c, TRUE, FALSE)
                if t_and(t, t_not(n)) is FALSE:
                    return c, True, _cof(t, c, True)
                if t_and(t, n) is FALSE:
                    return c, False, _cof(t, c, False)
        return None

    def _find_eq(self, p, ineqs, new_eq):
        if self._find_eq_real(p, ineqs, new_eq):
            return
        # p >= 0 is new, and p <= 0 was known
        if poly_is_int(p) and self.prove_ge(pneg(p), 5):
            new_eq.append(p)

    @staticmethod
    def _find_eq_real(p, ineqs, new_eq):
        q = pneg(p)
        for r, s in ineqs:
            if r is q and not s:
                new_eq.append(p)
                return True
        return False

    def add_eq(self, p):
        """Learn p == 0."""
        p = self.norm(p)
        if not p.terms:
            return self
        if p.is_const:
            return None
        best = None
        isint = poly_is_int(p)
        # Y - n*floor(Y/n) - r == 0
        for m, c in p.terms.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fdiv' and isint and isinstance(c, int):
                at = ATOMS[m[0][0]]
                u, n = at.args
                if n.is_const and abs(c) == n.value:
                    s = -1 if c > 0 else 1
                    rest = pscale(psub(p, mk_poly({m: c})), s)     # rest == n * fdiv
                    d = psub(u, rest)
                    nv = n.value
                    # rest = n*k for some k; solve for a symbol in rest
                    K = _modk.get((rest, nv))
                    if K is None:
                        lo, hi = prange_num(rest)
                        lo = math.ceil(lo / nv) if lo != -math.inf else None
                        hi = math.floor(hi / nv) if hi != math.inf else None
                        if lo is not None and hi is not None and lo > hi:
                            return None
                        K = const(lo) if lo is not None and lo == hi else sym('k', True, lo, hi)
                        _modk[(rest, nv)] = K
                    if K.is_const:
                        return self.add_eq(psub(rest, K if nv == 1 else const(K.value * nv)))
                    sol = _solve_for(psub(rest, pscale(K, nv)), exclude=K.atoms()[0].id)
                    if sol is not None:
                        a, q = sol
                        return self._with_eq(a, q)
        sol = _solve_for(p)
        if sol is None:
            return self
        return self._with_eq(*sol)

    def _with_eq(self, a, q):
        s = Subst({a: q})
        eqs = {}
        for k, v in self.eqs.items():
            w = s.poly(v)
            if isinstance(w, Tree):
                if w.cond is not None:
                    return self
                w = w.leaf
            eqs[k] = w
        eqs[a.id] = q
        ineqs = []
        for p, st in self.ineqs:
            w = s.poly(p)
            if isinstance(w, Tree):
                if w.cond is not None:
                    ineqs.append((p, st))
                    continue
                w = w.leaf
            if w.is_const:
                if w.value < 0 or (st and w.value == 0):
                    return None
                continue
            ineqs.append((w, st))
        # the bounds of the replaced symbol
        ap = atom_poly(a)
        if a.lo is not None:
            ineqs.append((psub(q, a.lo), False))
        if a.hi is not None:
            ineqs.append((psub(a.hi, q), False))
        f = Facts(self.lits, tuple(ineqs), eqs, self.resid)
        for c, v in list(self.lits.items()):
            at = ATOMS[c]
            t = s.cond(at)
            d = f.prune(t)
            if (d is TRUE and not v) or (d is FALSE and v):
                return None
        return f

    # -------------------------------------------------------------- decisions
    def decide(self, c):
        """True, False or None for a condition atom."""
        if c.id in self.lits:
            return self.lits[c.id]
        k = c.id
        if k in self.cache:
            return self.cache[k]
        r = self._decide(c)
        if r is not None or len(self.cache) < 20000:
            self.cache[k] = r
        return r

    def _decide(self, c):
        if self.eqs:
            t = self.subst.cond(c)
            if t is TRUE:
                return True
            if t is FALSE:
                return False
            if t.cond is not c:
                if t.hi is TRUE and t.lo is FALSE:
                    return self.decide(t.cond)
                if t.hi is FALSE and t.lo is TRUE:
                    d = self.decide(t.cond)
                    return None if d is None else not d
                return None
        if c.kind == 'ge':
            p = c.args[0]
            if self.prove_ge(p):
                return True
            if self.prove_ge(psub(pneg(p), ONE)):
                return False
        elif c.kind == 'gt':
            p = c.args[0]
            if self.prove_gt(p):
                return True
            if self.prove_ge(pneg(p)):
                return False
        return None

    def prune(self, t):
        """Remove decided conditions (against these facts only)."""
        if t.cond is None:
            return t
        cache = {}

        def go(x):
            if x.cond is None:
                return x
            r = cache.get(x)
            if r is None:
                d = self.decide(x.cond)
                if d is True:
                    r = go(x.hi)
                elif d is False:
                    r = go(x.lo)
                else:
                    r = node(x.cond, go(x.hi), go(x.lo))
                cache[x] = r
            return r
        return go(t)

    def simplify(self, t, budget=4000):
        """Prune with the conditions of each branch taken into account."""
        if self.eqs:
            t = self.norm(t)
        t = self.prune(t)
        if t.cond is None:
            return t
        n = [budget]

        def go(f, x):
            if x.cond is None:
                return x
            n[0] -= 1
            if n[0] < 0:
                return x
            d = f.decide(x.cond)
            if d is True:
                return go(f, x.hi)
            if d is False:
                return go(f, x.lo)
            c = node(x.cond, TRUE, FALSE)
            fh, fl = f.assume(c), f.assume(c, False)
            if fh is None and fl is None:
                return x.hi if x.hi.cond is None else go(f, x.hi)
            if fh is None:
                return go(fl, x.lo)
            if fl is None:
                return go(fh, x.hi)
            return node(x.cond, go(fh, x.hi), go(fl, x.lo))
        return go(self, t)

    def cases(self, t, limit=3000):
        """Every feasible leaf of t with the facts that lead to it."""
        out = []

        def go(f, x):
            if len(out) > limit:
                raise AnalysisError('too many cases')
            if x.cond is None:
                out.append((f, x.leaf))
                return
            d = f.decide(x.cond)
            if d is not False:
                fh = f if d is True else f.assume(node(x.cond, TRUE, FALSE))
                if fh is not None:
                    go(fh, fh.norm(x.hi) if fh.eqs is not f.eqs else x.hi)
            if d is not True:
                fl = f if d is False else f.assume(node(x.cond, FALSE, TRUE))
                if fl is not None:
                    go(fl, fl.norm(x.lo) if fl.eqs is not f.eqs else x.lo)
        go(self, self.norm(t) if self.eqs else t)
        return out

    def holds(self, t):
        """Is the condition provable?"""
        return self.simplify(t) is TRUE

    def refuted(self, t):
        return self.simplify(t) is FALSE

    # -------------------------------------------------------------- proofs
    def _index(self):
        if self.index is None:
            idx = {}
            for p, s in self.ineqs:
                for a in p.atoms():
                    idx.setdefault(a.id, []).append((p, s))
            self.index = idx
        return self.index

    def prove_ge(self, p, depth=MAX_PROVE_DEPTH):
        return self._prove(p, False, depth)

    def prove_gt(self, p, depth=MAX_PROVE_DEPTH):
        if poly_is_int(p):
            return self._prove(psub(p, ONE), False, depth)
        return self._prove(p, True, depth)

    def prove_eq(self, p):
        p = self.norm(p)
        if is_zero(p):
            return True
        return self.prove_ge(p) and self.prove_ge(pneg(p))

    def _prove(self, p, strict, depth):
        if self.eqs:
            p = self.norm(p)
        key = (p, strict)
        if key in self.pcache:
            return self.pcache[key]
        STATS['proofs'] += 1
        self._fuel = 400
        r = self._search(p, strict, depth, ())
        if r or len(self.pcache) < 20000:
            self.pcache[key] = r
        return r

    def _search(self, p, strict, depth, used):
        if p.is_const:
            return p.value > 0 if strict else p.value >= 0
        lo, hi = prange_num(p)
        if lo > 0 or (lo == 0 and not strict):
            return True
        if hi < 0 or (hi == 0 and strict and not self.ineqs):
            return False
        if depth <= 0 or self._fuel <= 0:
            return False
        if self._hopeless(p):
            return False
        self._fuel -= 1
        # directly a known fact (up to a positive factor)?
        for f, s in self._near(p):
            k = _ratio(p, f)
            if k is not None and k[0] > 0:
                c = k[1]
                if c > 0 or (c == 0 and (s or not strict)):
                    return True
        atoms = sorted(p.atoms(), key=lambda a: (-a.level, -a.id))
        tried = 0
        for a in atoms:
            sp = lin_split(p, a.id)
            if sp is None:
                continue
            A, B = sp
            pos = self._sign(A, depth)
            if pos is None:
                continue
            bounds = self._bounds(a, pos > 0)
            if not bounds:
                continue
            for b, s in bounds:
                key = (a.id, b)
                if key in used:
                    continue
                q = padd(pmul(A, b), B)
                if self.eqs:
                    q = self.norm(q)
                if q is p:
                    continue
                if self._search(q, strict and not s, depth - 1, used + (key,)):
                    return True
                if self._fuel <= 0:
                    return False
            tried += 1
            if tried >= 3:
                break
        return False

    def _near(self, p):
        seen = set()
        out = []
        idx = self._index()
        for a in p.atoms()[:4]:
            for f in idx.get(a.id, ()):
                if f[0] not in seen:
                    seen.add(f[0])
                    out.append(f)
        return out

    def _deep_ineqs(self):
        d = self.deep
        if d is None:
            d = set()
            for p, s in self.ineqs:
                d |= deep_ids(p)
            self.deep = d
        return d

    def _hopeless(self, p):
        """Does p depend on a quantity about which nothing at all is known?"""
        for a in p.atoms():
            if a.lo is not None or a.hi is not None or a.kind not in UNBOUNDED or a.id in self._deep_ineqs():
                continue
            odd = False
            for m in p.terms:
                for x, e in m:
                    if x == a.id and e & 1:
                        odd = True
            if odd and not any(b is not a and b.kind not in ('elem', 'sym') and a.id in deep_ids_atom(b) for b in p.atoms()):
                return True
        return False

    def _sign(self, A, depth):
        """1 if A >= 0, -1 if A <= 0, else None."""
        k = (A, depth)
        r = self.scache.get(k, self)
        if r is self:
            r = self.scache[k] = self._sign_of(A, depth)
        return r

    def _sign_of(self, A, depth):
        if A.is_const:
            return 1 if A.value > 0 else -1
        lo, hi = prange_num(A)
        if lo >= 0:
            return 1
        if hi <= 0:
            return -1
        if depth <= 2:
            return None
        if self._search(A, False, min(depth - 2, 5), ()):
            return 1
        if self._search(pneg(A), False, min(depth - 2, 5), ()):
            return -1
        return None

    def _bounds(self, a, lower):
        """Polynomials b with a >= b (lower) or a <= b, with strictness flags."""
        out = []
        late = []
        k = a.kind
        if k == 'fdiv':
            u, n = a.args
            if n.is_const and n.value > 0:
                c = n.value
                if lower:
                    late.append((pscale(padd(u, const(1 - c)) if poly_is_int(u) else psub(u, const(c)),
                                       Fraction(1, 1) / c), False))
                else:
                    late.append((pscale(u, Fraction(1, 1) / c), False))
        elif k == 'trunc':
            u = a.args[0]
            lo, hi = prange_num(u)
            if lo >= 0:
                late.append((psub(u, ONE), True) if lower else (u, False))
                if lower:
                    late.append((ZERO, False))
            else:
                late.append((psub(u, ONE), True) if lower else (padd(u, ONE), True))
        b = a.lo if lower else a.hi
        if b is not None:
            out.append((b, False))
        for f, s in self._index().get(a.id, ()):
            sp = lin_split(f, a.id)
            if sp is None or not sp[0].is_const:
                continue
            c = sp[0].value
            if (c > 0) == lower:
                out.append((pscale(sp[1], Fraction(-1) / Fraction(c)), s))
        if k not in ('sym', 'fdiv', 'trunc', 'elem') or (k == 'elem' and not out):
            lo, hi = prange_num(atom_poly(a))
            v = lo if lower else hi
            if v not in (math.inf, -math.inf):
                out.append((const(v) if isinstance(v, int) else const(Fraction(v)), False))
        return out[:8] + late


UNBOUNDED = ('sym', 'elem', 'uninit')
_deep_ids = {}
_deep_ids_atom = {}


def deep_ids(p):
    r = _deep_ids.get(p)
    if r is None:
        r = _deep_ids[p] = frozenset(a.id for a in p.deep_atoms())
    return r


def deep_ids_atom(a):
    r = _deep_ids_atom.get(a.id)
    if r is None:
        r = _deep_ids_atom[a.id] = deep_ids(atom_poly(a))
    return r


def _cof(t, c, pos):
    return t_ite(node(c, TRUE, FALSE), t, FALSE) if False else _cofactor(t, c, pos)


def _cofactor(t, c, pos):
    if t.cond is None or t.cond.id > c.id:
        return t
    if t.cond is c:
        return t.hi if pos else t.lo
    return node(t.cond, _cofactor(t.hi, c, pos), _cofactor(t.lo, c, pos))


def _ratio(p, f):
    """p = k*f + c for constants: (k, c)."""
    mf = [m for m in f.terms if m != ()]
    mp = [m for m in p.terms if m != ()]
    if len(mf) != len(mp) or not mf:
        return None
    if set(mf) != set(mp):
        return None
    k = Fraction(p.terms[mf[0]]) / Fraction(f.terms[mf[0]])
    for m in mf:
        if Fraction(p.terms[m]) != k * f.terms[m]:
            return None
    return k, p.terms.get((), 0) - k * f.terms.get((), 0)


def _solve_for(p, exclude=None):
    """An atom with coefficient +-1 (any constant for reals), and its value where p == 0."""
    best = None
    isint = poly_is_int(p)
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.id == exclude or a.kind not in ('sym', 'elem', 'fdiv', 'trunc'):
                continue
            if isint and abs(c) != 1:
                continue
            if not isint and a.is_int:
                continue
            # not anywhere else in p
            if any(m2 != m and any(x == a.id for x, _ in m2) for m2 in p.terms):
                continue
            rest = psub(p, mk_poly({m: c}))
            if a.kind == 'sym' and a.id in rest.syms:
                continue
            if any(x is a for x in rest.deep_atoms()):
                continue
            q = pscale(rest, Fraction(-1) / Fraction(c))
            rank = (0 if a.kind == 'sym' else 1, -a.id)
            if best is None or rank < best[0]:
                best = (rank, a, q)
    if best is None:
        return None
    return best[1], best[2]


EMPTY = Facts()


def equal_trees(f, s, t, limit=3000):
    """Are the two values equal in every case that the facts allow?  Returns (ok, witness)."""
    if s is t:
        return True, None
    from .terms import tapply
    todo = tapply('pair', lambda p, q: atom_poly(mk_atom('pair', (p, q))) if p is not q else ONE, s, t)
    for g, leafp in f.cases(todo, limit):
        if leafp is ONE:
            continue
        a = leafp.atoms()[0]
        p, q = a.args
        d = g.norm(psub(p, q))
        if isinstance(d, Poly) and is_zero(d):
            continue
        if g.prove_ge(d) and g.prove_ge(pneg(d)):
            continue
        if g.contradictory():
            continue
        return False, (g, p, q)
    return True, None
