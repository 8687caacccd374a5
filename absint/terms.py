"""Canonical terms: the value domain of the abstract interpreter.

A *polynomial* maps monomials over *atoms* to exact rational coefficients; atoms are
hash-consed (symbols, elements of unknown arrays, floor divisions, elementary functions,
reciprocals).  Equal polynomials are the same object, so value equality is identity.

A *tree* is an ordered decision diagram over condition atoms with polynomial leaves: the
gated (join) form of a value.  Booleans are trees with leaves 0 and 1.
"""
from fractions import Fraction
import math


class AnalysisError(Exception):
    """The analysis cannot handle this construct (never a verdict about the property)."""


# ------------------------------------------------------------------ atoms

class Tree:
    __slots__ = ('cond', 'hi', 'lo', 'leaf', 'syms', 'hash', 'depth')

    def __repr__(self):
        return show_tree(self)

    def __hash__(self):
        return self.hash

    def __eq__(self, other):
        return self is other


class Atom:
    __slots__ = ('id', 'kind', 'args', 'is_int', 'lo', 'hi', 'level', 'syms')

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_atom_tab = {}


def mk_atom(kind, args, is_int=False, lo=None, hi=None):
    key = (kind, args)
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.args, a.is_int = kind, args, is_int
        a.lo, a.hi = lo, hi
        syms = set()
        _collect_syms(args, syms)
        for b in (lo, hi):
            if b is not None and not isinstance(b, (int, float, Fraction)):
                pass
        if kind == 'sym':
            syms = {a.id}
        elif kind == 'rd':
            syms.add(-1)
        a.syms = frozenset(syms)
        lvl = 0
        for x in _polys_in(args):
            lvl = max(lvl, x.level + 1)
        for b in (lo, hi):
            if isinstance(b, Poly):
                lvl = max(lvl, b.level + 1)
        a.level = lvl
        ATOMS.append(a)
        _atom_tab[key] = a
    return a


def _polys_in(args):
    for x in args:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            yield from _polys_in(x)
        elif isinstance(x, Tree):
            yield from tree_polys(x)


def _collect_syms(args, out):
    for x in args:
        if isinstance(x, Poly):
            out |= x.syms
        elif isinstance(x, Tree):
            out |= x.syms
        elif isinstance(x, tuple):
            _collect_syms(x, out)


_sym_n = [0]


def sym(name, is_int=True, lo=None, hi=None, unique=True):
    """A fresh symbol; lo and hi are inclusive bounds (Poly or number)."""
    if unique:
        _sym_n[0] += 1
        name = '%s#%d' % (name, _sym_n[0])
    if lo is not None and not isinstance(lo, Poly):
        lo = const(lo)
    if hi is not None and not isinstance(hi, Poly):
        hi = const(hi)
    a = mk_atom('sym', (name,), is_int, lo, hi)
    return atom_poly(a)


# ------------------------------------------------------------------ polynomials

class Poly:
    __slots__ = ('terms', 'key', 'syms', 'level', '_int', 'hash', '_rng')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.hash

    def __eq__(self, other):
        return self is other

    @property
    def is_const(self):
        return not self.key or (len(self.key) == 1 and self.key[0][0] == ())

    @property
    def value(self):
        return self.terms.get((), 0)

    def atoms(self):
        out = []
        seen = set()
        for m in self.terms:
            for aid, _ in m:
                if aid not in seen:
                    seen.add(aid)
                    out.append(ATOMS[aid])
        return out

    def deep_atoms(self):
        """All atoms, including those inside of other atoms."""
        seen = {}
        _deep(self, seen)
        return seen.values()


_deep_cache = {}


def _deep(p, seen):
    for a in p.atoms():
        if a.id not in seen:
            seen[a.id] = a
            _deep_args(a.args, seen)


def _deep_args(args, seen):
    for x in args:
        if isinstance(x, Poly):
            _deep(x, seen)
        elif isinstance(x, Tree):
            for q in tree_polys(x):
                _deep(q, seen)
        elif isinstance(x, tuple):
            _deep_args(x, seen)


_poly_tab = {}


def _norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mk_poly(terms):
    terms = {m: (c if c.__class__ is int else _norm_coef(c)) for m, c in terms.items() if c != 0}
    if len(terms) > 1:
        key = tuple(sorted(terms.items()))
    else:
        key = tuple(terms.items())
    p = _poly_tab.get(key)
    if p is None:
        p = Poly()
        p.terms, p.key = terms, key
        p.hash = hash(key)
        p._int = None
        p._rng = None
        syms = set()
        lvl = 0
        for aid in {aid for m in terms for aid, _ in m}:
            a = ATOMS[aid]
            syms |= a.syms
            if a.level > lvl:
                lvl = a.level
        p.syms = frozenset(syms)
        p.level = lvl
        _poly_tab[key] = p
    return p


_const_tab = {}


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = float_const(c)
        if isinstance(c, Poly):
            return c
    p = _const_tab.get(c)
    if p is None:
        p = _const_tab[c] = mk_poly({(): c})
    return p


def float_const(x):
    if x != x or x in (math.inf, -math.inf):
        return atom_poly(mk_atom('const', ('nan' if x != x else str(x),)))
    if x and not float(x).is_integer():
        for base, mono in ((math.pi / 180, Fraction(1, 180)), (math.pi, Fraction(1))):
            for mult in (1, 2, Fraction(1, 2), Fraction(1, 4)):
                if abs(x - base * float(mult)) <= 4e-16 * abs(x):
                    return pmul(PI, const(mono * mult))
        if abs(x - 180 / math.pi) <= 4e-16 * abs(x):
            return pmul(const(180), ppow(PI, -1))
    return _norm_coef(Fraction(repr(x)))


def atom_poly(a):
    return mk_poly({((a.id, 1),): 1})


PI = atom_poly(mk_atom('const', ('pi',)))
ZERO = const(0)
ONE = const(1)


def padd(p, q):
    if p.is_const and p.value == 0:
        return q
    if q.is_const and q.value == 0:
        return p
    t = dict(p.terms)
    for m, c in q.terms.items():
        t[m] = t.get(m, 0) + c
    return mk_poly(t)


def pneg(p):
    return mk_poly({m: -c for m, c in p.terms.items()})


def psub(p, q):
    if p is q:
        return ZERO
    return padd(p, pneg(q))


def pscale(p, c):
    return mk_poly({m: k * c for m, k in p.terms.items()})


_pmul_cache = {}
MAX_TERMS = 60000


def pmul(p, q):
    if p.is_const:
        return pscale(q, p.value)
    if q.is_const:
        return pscale(p, q.value)
    key = (p, q) if id(p) <= id(q) else (q, p)
    r = _pmul_cache.get(key)
    if r is None:
        if len(p.terms) * len(q.terms) > MAX_TERMS:
            raise AnalysisError('term too large')
        t = {}
        over = {}
        for m1, c1 in p.terms.items():
            for m2, c2 in q.terms.items():
                m, red = mono_mul(m1, m2)
                if red:
                    over[m] = over.get(m, 0) + c1 * c2
                else:
                    t[m] = t.get(m, 0) + c1 * c2
        for m, c in over.items():
            if c:
                for m2, c2 in reduce_mono(m).terms.items():
                    t[m2] = t.get(m2, 0) + c * c2
        r = mk_poly(t)
        _pmul_cache[key] = r
    return r


def mono_mul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    red = False
    for a, e in m2:
        if a in d:
            n = d[a] + e
            if n == 0:
                del d[a]
            else:
                d[a] = n
                k = ATOMS[a].kind
                if k == 'sqrt' or (k == 'sin' and n > 1) or k == 'recip' or k == 'b2i':
                    red = True
        else:
            d[a] = e
    return tuple(sorted(d.items())), red


def reduce_mono(m):
    """A monomial with an over-large power of a reducible atom, as a canonical polynomial."""
    rest = []
    out = ONE
    for aid, e in m:
        a = ATOMS[aid]
        if a.kind == 'sqrt' and (e > 1 or e < 0):
            u = a.args[0]
            k, r = divmod(e, 2)
            out = pmul(out, ppow(u, k))
            if r:
                rest.append((aid, 1))
        elif a.kind == 'sin' and e > 1:
            c = mk_fn('cos', a.args[0])
            k, r = divmod(e, 2)
            out = pmul(out, ppow(psub(ONE, pmul(c, c)), k))
            if r:
                rest.append((aid, 1))
        elif a.kind == 'recip' and e < 0:
            out = pmul(out, ppow(a.args[0], -e))
        else:
            rest.append((aid, e))
    base = mk_poly({tuple(rest): 1})
    return pmul(base, out) if out is not ONE else base


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow(precip(p), -n)
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def precip(p):
    if p.is_const:
        if p.value == 0:
            return atom_poly(mk_atom('const', ('1/0',)))
        return const(Fraction(1) / p.value)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if all(ATOMS[a].kind not in ('sqrt', 'recip', 'sin') for a, _ in m):
            return mk_poly({tuple((a, -e) for a, e in m): Fraction(1) / c})
        out = const(Fraction(1) / c)
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'recip':
                out = pmul(out, ppow(at.args[0], e))
            elif at.kind == 'sqrt':
                out = pmul(out, ppow(pmul(atom_poly(at), precip(at.args[0])), e))
            elif at.kind == 'sin':
                out = pmul(out, mk_poly({((a, -e),): 1}))
            else:
                out = pmul(out, mk_poly({((a, -e),): 1}))
        return out
    # pull out the common monomial and the leading coefficient
    lead = p.key[-1][1]
    q = pscale(p, Fraction(1) / lead)
    common = None
    for m in q.terms:
        d = {a: e for a, e in m if e > 0 and ATOMS[a].kind not in ('sqrt', 'recip', 'sin')}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    out = const(Fraction(1) / lead)
    if common:
        inv = mk_poly({tuple(sorted((a, -e) for a, e in common.items())): 1})
        q = pmul(q, inv)
        out = pmul(out, inv)
        if q.is_const or len(q.terms) == 1:
            return pmul(out, precip(q))
    r = atom_poly(mk_atom('recip', (q,)))
    return pmul(out, r)


def pdiv(p, q):
    return pmul(p, precip(q))


def poly_is_int(p):
    """Is the polynomial integer valued (by its shape)?"""
    if p._int is None:
        ok = True
        for m, c in p.terms.items():
            if not isinstance(c, int):
                ok = False
                break
            for a, e in m:
                if e < 0 or not ATOMS[a].is_int:
                    ok = False
                    break
        p._int = ok
    return p._int


def clear_denominators(p):
    """An equivalent-to-zero numerator: multiply by every reciprocal's argument and by
    negative powers."""
    for _ in range(12):
        recips = {}
        negs = {}
        for m in p.terms:
            for a, e in m:
                if ATOMS[a].kind == 'recip':
                    recips[a] = max(recips.get(a, 0), e)
                elif e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if not recips and not negs:
            return p
        if negs:
            p = pmul(p, mk_poly({tuple(sorted(negs.items())): 1}))
        for a, e in recips.items():
            u = ATOMS[a].args[0]
            out = ZERO
            for m, c in p.terms.items():
                d = dict(m)
                k = d.pop(a, 0)
                t = mk_poly({tuple(sorted(d.items())): c})
                out = padd(out, pmul(t, ppow(u, e - k)))
            p = out
    return p


_zero_cache = {}


def is_zero(p):
    """Is the polynomial identically zero as a rational function of its atoms?"""
    if not p.terms:
        return True
    r = _zero_cache.get(p)
    if r is None:
        q = clear_denominators(p)
        r = not q.terms
        _zero_cache[p] = r
    return r


def lin_split(p, aid):
    """p as A*a + B (or None if not linear in the atom)."""
    A, B = {}, {}
    for m, c in p.terms.items():
        for a, e in m:
            if a == aid:
                if e != 1:
                    return None
                A[tuple(x for x in m if x[0] != aid)] = c
                break
        else:
            B[m] = c
    return mk_poly(A), mk_poly(B)


# ------------------------------------------------------------------ integer division

def pfloordiv(p, n):
    """floor(p / n); n a Poly. Canonical for a positive constant n and integer p."""
    if n.is_const and n.value != 0:
        c = n.value
        if p.is_const:
            return const(math.floor(Fraction(p.value) / Fraction(c)))
        if c == 1 and poly_is_int(p):
            return p
        if isinstance(c, int) and c > 0:
            A, B = {}, {}
            for m, k in p.terms.items():
                integral = all(ATOMS[a].is_int and e > 0 for a, e in m)
                if integral and isinstance(k, int):
                    q, r = divmod(k, c)
                    if m != () and r and 2 * r > c:
                        q, r = q + 1, r - c
                    if q:
                        A[m] = q
                    if r:
                        B[m] = r
                elif m == ():
                    q = math.floor(Fraction(k) / c)
                    A[m] = q
                    B[m] = k - q * c
                else:
                    B[m] = k
            a, b = mk_poly(A), mk_poly(B)
            if b.is_const:
                return padd(a, const(math.floor(Fraction(b.value) / c)))
            # floor((g*x + r) / (g*h)) = floor((x + floor(r/g)) / h)
            if poly_is_int(b):
                g = c
                for m, k in b.terms.items():
                    if m != ():
                        g = math.gcd(g, k)
                if g > 1:
                    b2 = mk_poly({m: (k // g) for m, k in b.terms.items()})
                    return padd(a, pfloordiv(b2, const(c // g)))
                # nested: floor((floor(u/m) + r)/n) = floor((u + r m)/(m n))
                if len([m for m in b.terms if m != ()]) == 1:
                    (m0, k0), = [(m, k) for m, k in b.terms.items() if m != ()]
                    if k0 == 1 and len(m0) == 1 and m0[0][1] == 1 and ATOMS[m0[0][0]].kind == 'fdiv':
                        at = ATOMS[m0[0][0]]
                        if at.args[1].is_const:
                            mm = at.args[1].value
                            return padd(a, pfloordiv(padd(at.args[0], const(b.value * mm)), const(mm * c)))
            lo, hi = prange_num(b)
            if lo is not None and hi is not None and lo > -math.inf and hi < math.inf:
                fl, fh = math.floor(Fraction(lo) / c), math.floor(Fraction(hi) / c)
                if fl == fh:
                    return padd(a, const(fl))
            r = mk_atom('fdiv', (b, const(c)), True)
            return padd(a, atom_poly(r))
        if isinstance(c, int) and c < 0:
            return pfloordiv(pneg(p), const(-c))
        if isinstance(c, Fraction):
            return pfloordiv(pscale(p, c.denominator), const(c.numerator))
    # symbolic divisor: exact multiples split off
    if len(n.terms) == 1:
        (m, c), = n.terms.items()
        A, B = {}, {}
        md = dict(m)
        for pm, k in p.terms.items():
            d = dict(pm)
            if all(d.get(a, 0) >= e for a, e in md.items()) and isinstance(k, int) and isinstance(c, int) and k % c == 0:
                for a, e in md.items():
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                A[tuple(sorted(d.items()))] = k // c
            else:
                B[pm] = k
        a, b = mk_poly(A), mk_poly(B)
        if A:
            if not b.terms:
                return a
            if b.is_const and b.value == 0:
                return a
            return padd(a, pfloordiv_sym(b, n))
    return pfloordiv_sym(p, n)


def pfloordiv_sym(p, n):
    return atom_poly(mk_atom('fdiv', (p, n), True))


def pmod(p, n):
    return psub(p, pmul(n, pfloordiv(p, n)))


# ------------------------------------------------------------------ elementary functions

FN_RANGE = {'sin': (-1, 1), 'cos': (-1, 1), 'asin': (-math.pi / 2, math.pi / 2),
            'acos': (0, math.pi), 'atan2': (-math.pi, math.pi), 'sqrt': (0, math.inf), 'atan': (-math.pi / 2, math.pi / 2),
            'exp': (0, math.inf)}


def leading_negative(p):
    return bool(p.key) and p.key[-1][1] < 0


def _sqrt_factor(p):
    """sqrt(c * m^2) -> (factor polynomial, rest) for a single-term p."""
    (m, c), = p.terms.items()
    out = []
    rest = []
    for a, e in m:
        if e % 2 == 0:
            out.append((a, e // 2))
        else:
            return None
    if c <= 0:
        return None
    c = Fraction(c)
    sn, sd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if sn * sn != c.numerator or sd * sd != c.denominator:
        return None
    return mk_poly({tuple(out): Fraction(sn, sd)})


def mk_fn(name, *args):
    """An elementary function of polynomials; returns a Poly or a Tree."""
    p = args[0]
    if name == 'sin':
        if p.is_const and p.value == 0:
            return ZERO
        if leading_negative(p):
            return pneg(mk_fn('sin', pneg(p)))
        if len(p.terms) == 1:
            a = _single_atom(p)
            if a is not None and a.kind == 'asin':
                return a.args[0]
    elif name == 'cos':
        if p.is_const and p.value == 0:
            return ONE
        if leading_negative(p):
            return mk_fn('cos', pneg(p))
        a = _single_atom(p)
        if a is not None and a.kind == 'acos':
            return a.args[0]
        if a is not None and a.kind == 'asin':
            return mk_fn('sqrt', psub(ONE, pmul(a.args[0], a.args[0])))
    elif name == 'asin':
        if p.is_const and p.value in (0, 1, -1):
            return pscale(PI, Fraction(int(p.value), 2))
        if leading_negative(p):
            q = mk_fn('asin', pneg(p))
            return pneg(q) if isinstance(q, Poly) else tmap(pneg, q)
        a = _single_atom(p)
        if a is not None and a.kind == 'sin' and _within(a.args[0], Fraction(1, 2)):
            return a.args[0]
        if a is not None and a.kind == 'cos' and _within(a.args[0], Fraction(1, 2)):
            u = a.args[0]
            half = pscale(PI, Fraction(1, 2))
            return t_ite(cmp_ge(u, False), leaf(psub(half, u)), leaf(padd(half, u)))
    elif name == 'acos':
        if p.is_const and p.value in (0, 1, -1):
            return pscale(PI, Fraction(1 - int(p.value), 2))
        if leading_negative(p):
            q = mk_fn('acos', pneg(p))
            return psub(PI, q) if isinstance(q, Poly) else tmap(lambda x: psub(PI, x), q)
        # acos(x) = pi/2 - asin(x): one canonical form
        q = mk_fn('asin', p)
        half = pscale(PI, Fraction(1, 2))
        return psub(half, q) if isinstance(q, Poly) else tmap(lambda x: psub(half, x), q)
    elif name == 'sqrt':
        if p.is_const and p.value >= 0:
            c = Fraction(p.value)
            sn, sd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if sn * sn == c.numerator and sd * sd == c.denominator:
                return const(Fraction(sn, sd))
        if len(p.terms) == 1:
            f = _sqrt_factor(p)
            if f is not None:
                lo, hi = prange_num(f)
                if lo is not None and lo >= 0:
                    return f
                if hi is not None and hi <= 0:
                    return pneg(f)
                return t_ite(cmp_ge(f, False), leaf(f), leaf(pneg(f)))
        # pull a positive square factor out of the coefficients
        g = None
        for m, c in p.terms.items():
            c = abs(Fraction(c))
            g = c if g is None else Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                                             g.denominator * c.denominator)
        if g and g != 1:
            out, inner = _square_part(g)
            if out != 1 or inner != g:
                return pmul(const(out), atom_poly(mk_atom('sqrt', (pscale(p, inner / g),))))
    elif name == 'atan2':
        y, x = args
        r = _atan2_polar(y, x)
        if r is not None:
            return r
        # scale invariance: divide by the common positive content
        c = None
        for q in (y, x):
            for k in q.terms.values():
                k = abs(Fraction(k))
                c = k if c is None else Fraction(math.gcd(c.numerator * k.denominator, k.numerator * c.denominator),
                                                 c.denominator * k.denominator)
        if c:
            y, x = pscale(y, 1 / c), pscale(x, 1 / c)
        args = (y, x)
    elif name == 'tan':
        return pdiv(mk_fn('sin', p), mk_fn('cos', p))
    a = mk_atom(name, args)
    return atom_poly(a)


_sqpart = {}


def _square_part(g):
    """g = out**2 * inner, inner a (nearly) square-free integer: the same for numbers with a square ratio."""
    r = _sqpart.get(g)
    if r is None:
        n = g.numerator * g.denominator
        out, inner, q = 1, 1, 2
        while q * q <= n and q < 20000:
            e = 0
            while n % q == 0:
                n //= q
                e += 1
            out *= q ** (e // 2)
            if e & 1:
                inner *= q
            q += 1 if q == 2 else 2
        w = math.isqrt(n)
        if w * w == n:
            out *= w
        else:
            inner *= n
        r = _sqpart[g] = (Fraction(out, g.denominator), Fraction(inner))
    return r


def _single_atom(p):
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def _within(u, frac):
    """|u| <= frac * pi, by ranges."""
    lo, hi = prange_num(u)
    return lo is not None and hi is not None and lo >= -math.pi * float(frac) * (1 + 1e-12) \
        and hi <= math.pi * float(frac) * (1 + 1e-12)


def _atan2_polar(y, x):
    """atan2(k sin u, k cos u) = u for k > 0 and u in (-pi, pi]."""
    if len(y.terms) != 1 or len(x.terms) != 1:
        return None
    for aid, e in list(y.terms)[0]:
        a = ATOMS[aid]
        if a.kind == 'sin' and e == 1:
            u = a.args[0]
            c = mk_fn('cos', u)
            ks = pmul(y, mk_poly({((aid, -1),): 1}))
            if pmul(ks, c) is x:
                lo, hi = prange_num(ks)
                if lo is not None and lo >= 0 and _within(u, 1):
                    return u
    return None


# ------------------------------------------------------------------ numeric ranges

def _num(p):
    if isinstance(p, Poly):
        if p.is_const:
            return p.value
        return None
    return p


_rng_depth = [0]


def atom_range(a):
    k = a.kind
    if k == 'const':
        if a.args[0] == 'pi':
            return math.pi, math.pi
        return -math.inf, math.inf
    if k == 'cos':
        if _within(a.args[0], Fraction(1, 2)):
            return 0, 1
        return -1, 1
    if k == 'sqrt':
        lo, hi = prange_num(a.args[0])
        return (math.sqrt(max(lo, 0)) if lo not in (None, -math.inf) else 0,
                math.sqrt(hi) if hi not in (None, math.inf) and hi >= 0 else math.inf)
    if k == 'asin':
        lo, hi = prange_num(a.args[0])
        l2, h2 = -math.pi / 2, math.pi / 2
        if lo is not None and lo >= 0:
            l2 = 0
        if hi is not None and hi <= 0:
            h2 = 0
        return l2, h2
    if k in FN_RANGE:
        return FN_RANGE[k]
    if k == 'fdiv' and a.args[1].is_const:
        lo, hi = prange_num(a.args[0])
        n = a.args[1].value
        if n > 0:
            return (math.floor(Fraction(lo) / n) if lo not in (None, -math.inf) else -math.inf,
                    math.floor(Fraction(hi) / n) if hi not in (None, math.inf) else math.inf)
    if k == 'trunc':
        lo, hi = prange_num(a.args[0])
        return (math.trunc(lo) if lo not in (None, -math.inf) else -math.inf,
                math.trunc(hi) if hi not in (None, math.inf) else math.inf)
    if k == 'b2i':
        return 0, 1
    lo = hi = None
    if _rng_depth[0] < 12:
        _rng_depth[0] += 1
        try:
            if a.lo is not None:
                lo = prange_num(a.lo)[0]
            if a.hi is not None:
                hi = prange_num(a.hi)[1]
        finally:
            _rng_depth[0] -= 1
    return (-math.inf if lo is None else lo), (math.inf if hi is None else hi)


def _imul(a, b):
    cands = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                cands.append(0)
            else:
                cands.append(x * y)
    return min(cands), max(cands)


def _ipow(r, e):
    lo, hi = r
    if e < 0:
        if lo > 0:
            f = lambda v: 0 if v == math.inf else (Fraction(1, 1) / Fraction(v))
            return _ipow((f(hi), f(lo)), -e)
        if lo >= 0:
            return 0, math.inf
        return -math.inf, math.inf
    if e == 1:
        return r
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        l = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return l ** e, m ** e
    return lo ** e, hi ** e


def prange_num(p):
    """Numeric lower and upper bounds of a polynomial (possibly infinite)."""
    if p._rng is not None:
        return p._rng
    lo = hi = 0
    for m, c in p.terms.items():
        r = (c, c)
        for aid, e in m:
            r = _imul(r, _ipow(atom_range(ATOMS[aid]), e))
        if r[0] == -math.inf or lo == -math.inf:
            lo = -math.inf
        else:
            lo = lo + r[0]
        if r[1] == math.inf or hi == math.inf:
            hi = math.inf
        else:
            hi = hi + r[1]
    if _rng_depth[0] == 0:
        p._rng = (lo, hi)
    return lo, hi


# ------------------------------------------------------------------ trees

_tree_tab = {}


def leaf(p):
    t = _tree_tab.get(p)
    if t is None:
        t = Tree()
        t.cond = t.hi = t.lo = None
        t.leaf = p
        t.syms = p.syms
        t.hash = hash(('leaf', p))
        t.depth = 0
        _tree_tab[p] = t
    return t


MAX_DEPTH = 400


def node(cond, hi, lo):
    if hi is lo:
        return hi
    key = (cond.id, hi, lo)
    t = _tree_tab.get(key)
    if t is None:
        t = Tree()
        t.cond, t.hi, t.lo, t.leaf = cond, hi, lo, None
        t.syms = cond.syms | hi.syms | lo.syms
        t.hash = hash(('node', cond.id, hi.hash, lo.hash))
        t.depth = 1 + max(hi.depth, lo.depth)
        if t.depth > MAX_DEPTH:
            raise AnalysisError('decision tree too deep')
        _tree_tab[key] = t
    return t


TRUE = leaf(ONE)
FALSE = leaf(ZERO)


def tconst(c):
    return leaf(const(c))


def tree_polys(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    if t.cond is None:
        yield t.leaf
    else:
        yield from _polys_in(t.cond.args)
        yield from tree_polys(t.hi, seen)
        yield from tree_polys(t.lo, seen)


def tree_leaves(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    if t.cond is None:
        yield t.leaf
    else:
        yield from tree_leaves(t.hi, seen)
        yield from tree_leaves(t.lo, seen)


def tree_conds(t, seen=None, out=None):
    if seen is None:
        seen, out = set(), {}
    if t in seen or t.cond is None:
        return out
    seen.add(t)
    out[t.cond.id] = t.cond
    tree_conds(t.hi, seen, out)
    tree_conds(t.lo, seen, out)
    return out


def tmap(f, t, cache=None):
    """Apply a Poly -> Poly|Tree function to the leaves."""
    if t.cond is None:
        r = f(t.leaf)
        return leaf(r) if isinstance(r, Poly) else r
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is None:
        hi, lo = tmap(f, t.hi, cache), tmap(f, t.lo, cache)
        r = t_branch(t.cond, hi, lo)
        cache[t] = r
    return r


def t_branch(cond, hi, lo):
    """node(), but correct when the branches test smaller conditions."""
    if (hi.cond is None or hi.cond.id > cond.id) and (lo.cond is None or lo.cond.id > cond.id):
        return node(cond, hi, lo)
    return t_ite(node(cond, TRUE, FALSE), hi, lo)


_apply_cache = {}


def tapply(op, f, s, t):
    """Combine two trees with f(Poly, Poly) -> Poly|Tree; op names f in the cache."""
    if s.cond is None and t.cond is None:
        r = f(s.leaf, t.leaf)
        return leaf(r) if isinstance(r, Poly) else r
    key = (op, s, t)
    r = _apply_cache.get(key)
    if r is None:
        if t.cond is None or (s.cond is not None and s.cond.id < t.cond.id):
            c = s.cond
            r = t_branch(c, tapply(op, f, s.hi, t), tapply(op, f, s.lo, t))
        elif s.cond is None or t.cond.id < s.cond.id:
            c = t.cond
            r = t_branch(c, tapply(op, f, s, t.hi), tapply(op, f, s, t.lo))
        else:
            c = s.cond
            r = t_branch(c, tapply(op, f, s.hi, t.hi), tapply(op, f, s.lo, t.lo))
        _apply_cache[key] = r
    return r


def t_ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    key = ('ite', c, a, b)
    r = _apply_cache.get(key)
    if r is None:
        tops = [x.cond for x in (c, a, b) if x.cond is not None]
        if c.cond is None:
            if c.leaf.is_const:
                return a if c.leaf.value else b
            # the value of a variable of unknown truth (0 or 1)
            c = t_ite(cmp_eq(c.leaf, ZERO), FALSE, TRUE)
            if c.cond is None:
                return t_ite(c, a, b)
            tops.append(c.cond)
        top = min(tops, key=lambda x: x.id)

        def cof(x, pos):
            if x.cond is top:
                return x.hi if pos else x.lo
            return x
        r = node(top, t_ite(cof(c, True), cof(a, True), cof(b, True)),
                 t_ite(cof(c, False), cof(a, False), cof(b, False)))
        _apply_cache[key] = r
    return r


def t_not(a):
    return t_ite(a, FALSE, TRUE)


def t_and(a, b):
    return t_ite(a, b, FALSE)


def t_or(a, b):
    return t_ite(a, TRUE, b)


def tadd(a, b):
    return tapply('+', padd, a, b)


def tsub(a, b):
    return tapply('-', psub, a, b)


def tmul(a, b):
    return tapply('*', pmul, a, b)


def tdiv(a, b):
    return tapply('/', pdiv, a, b)


def tneg(a):
    return tmap(pneg, a)


def tfdiv(a, b):
    return tapply('//', pfloordiv, a, b)


def tmod(a, b):
    return tapply('%', pmod, a, b)


def tfn(name, *ts):
    if len(ts) == 1:
        return tmap(lambda p: mk_fn(name, p), ts[0])
    return tapply('fn:' + name, lambda p, q: mk_fn(name, p, q), ts[0], ts[1])


# ------------------------------------------------------------------ comparisons

def _content(p):
    g = None
    for m, c in p.terms.items():
        c = Fraction(c)
        g = abs(c) if g is None else Fraction(math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                                              g.denominator * c.denominator)
    return g


def cmp_ge(p, integer=None):
    """The condition p >= 0 as a tree."""
    if p.is_const:
        return TRUE if p.value >= 0 else FALSE
    if integer is None:
        integer = poly_is_int(p) or _all_int_atoms(p)
    if integer:
        # make it primitive, then floor the constant
        g = None
        for m, c in p.terms.items():
            if m != ():
                c = Fraction(c)
                g = abs(c) if g is None else Fraction(
                    math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                    g.denominator * c.denominator)
        q = {m: Fraction(c) / g for m, c in p.terms.items() if m != ()}
        k = math.floor(Fraction(p.terms.get((), 0)) / g)
        q[()] = k
        q = mk_poly(q)
        lo, hi = prange_num(q)
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
        lead = [c for m, c in q.key if m != ()][-1]
        if lead < 0:
            # p >= 0  <=>  not (-p - 1 >= 0)
            a = mk_atom('ge', (psub(pneg(q), ONE),), True)
            return node(a, FALSE, TRUE)
        return node(mk_atom('ge', (q,), True), TRUE, FALSE)
    # reals: not (-p > 0)
    return t_not(cmp_gt(pneg(p), False))


def cmp_gt(p, integer=None):
    """The condition p > 0 as a tree."""
    if p.is_const:
        return TRUE if p.value > 0 else FALSE
    if integer is None:
        integer = poly_is_int(p) or _all_int_atoms(p)
    if integer:
        d = 1
        for c in p.terms.values():
            if isinstance(c, Fraction):
                d = d * c.denominator // math.gcd(d, c.denominator)
        return cmp_ge(psub(pscale(p, d), ONE), True)
    lo, hi = prange_num(p)
    if lo > 0:
        return TRUE
    if hi <= 0:
        return FALSE
    if len(p.terms) == 1:
        r = _sign_arg(p)
        if r is not None:
            return cmp_gt(r, False)
    g = _content(p)
    return node(mk_atom('gt', (pscale(p, 1 / g),), False), TRUE, FALSE)


def _sign_arg(p):
    """A simpler polynomial with the sign of this monomial."""
    (m, c), = p.terms.items()
    keep = []
    for aid, e in m:
        a = ATOMS[aid]
        lo, hi = atom_range(a)
        if lo is not None and lo > 0:
            continue
        keep.append((aid, e))
    if len(keep) == 1 and keep[0][1] == 1:
        a = ATOMS[keep[0][0]]
        if a.kind in ('sin', 'asin') and (a.kind == 'asin' or _within(a.args[0], Fraction(1, 2))):
            return pscale(a.args[0], 1 if c > 0 else -1)
    if len(keep) < len(m):
        return mk_poly({tuple(keep): 1 if c > 0 else -1})
    return None


def _all_int_atoms(p):
    return all(ATOMS[a].is_int and e > 0 for m in p.terms for a, e in m)


def cmp_eq(p, integer=None):
    if p.is_const:
        return TRUE if p.value == 0 else FALSE
    if integer is None:
        integer = poly_is_int(p) or _all_int_atoms(p)
    if integer:
        # content that does not divide the constant: never equal
        g = None
        for m, c in p.terms.items():
            if m != ():
                c = Fraction(c)
                g = abs(c) if g is None else Fraction(
                    math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                    g.denominator * c.denominator)
        if (Fraction(p.terms.get((), 0)) / g).denominator != 1:
            return FALSE
        return t_and(cmp_ge(p, True), cmp_ge(pneg(p), True))
    if is_zero(p):
        return TRUE
    return t_and(t_not(cmp_gt(p, False)), t_not(cmp_gt(pneg(p), False)))


def bool_atom(name, *args):
    return node(mk_atom('b', (name,) + args), TRUE, FALSE)


# ------------------------------------------------------------------ substitution

class Subst:
    """A simultaneous replacement of symbols (atoms) by polynomials."""

    def __init__(self, mapping):
        self.map = {a.id: p for a, p in mapping.items()}
        self.keys = frozenset(s for a in mapping for s in (a.syms if a.kind == 'sym' else ()))
        self.direct = frozenset(a.id for a in mapping if a.kind != 'sym')
        self.pc = {}
        self.ac = {}
        self.tc = {}

    def touches(self, x):
        if self.direct:
            return True
        return not self.keys.isdisjoint(x.syms)

    def poly(self, p):
        if not self.touches(p):
            return p
        r = self.pc.get(p)
        if r is None:
            r = self._poly(p)
            self.pc[p] = r
        return r

    def ptree(self, p):
        """Substitute in a polynomial, giving a tree."""
        r = self.poly(p)
        return leaf(r) if isinstance(r, Poly) else r

    def _poly(self, p):
        vals = {}
        same = True
        for m in p.terms:
            for aid, _ in m:
                if aid not in vals:
                    v = vals[aid] = self.atom(ATOMS[aid])
                    if v is not None:
                        same = False
        if same:
            return p
        acc = {}            # terms of the result
        polys = []          # results of monomials with larger replacements
        trees = []
        for m, c in p.terms.items():
            keep = []
            simple = True
            change = []
            for aid, e in m:
                v = vals[aid]
                if v is None:
                    keep.append((aid, e))
                    continue
                if isinstance(v, Tree) and v.cond is None:
                    v = v.leaf
                change.append((v, e))
                if simple and not (isinstance(v, Poly) and e == 1 and len(v.key) == 1):
                    simple = False
            if not change:
                acc[m] = acc.get(m, 0) + c
                continue
            if simple:
                mono = tuple(keep)
                k = c
                for v, e in change:
                    m2, c2 = v.key[0]
                    mono, red = mono_mul(mono, m2)
                    k = k * c2
                    if red:
                        simple = False
                        break
                if simple:
                    acc[mono] = acc.get(mono, 0) + k
                    continue
            cur = mk_poly({tuple(keep): c})
            for v, e in change:
                if isinstance(v, Tree) or isinstance(cur, Tree):
                    vt = leaf(v) if isinstance(v, Poly) else v
                    ct = leaf(cur) if isinstance(cur, Poly) else cur
                    cur = tapply('*', pmul, ct, tmap(lambda q: ppow(q, e), vt))
                else:
                    cur = pmul(cur, ppow(v, e))
            (trees if isinstance(cur, Tree) else polys).append(cur)
        for q in polys:
            for m, c in q.terms.items():
                acc[m] = acc.get(m, 0) + c
        out = mk_poly(acc)
        if trees:
            out = leaf(out)
            for t in trees:
                out = tadd(out, t)
            if out.cond is None:
                return out.leaf
        return out

    def atom(self, a):
        """The replacement of an atom, or None if unchanged."""
        if a.id in self.map:
            return self.map[a.id]
        if not self.touches(a):
            return None
        if a.id in self.ac:
            return self.ac[a.id]
        r = self._atom(a)
        self.ac[a.id] = r
        return r

    def _atom(self, a):
        args, changed, trees = self._args(a.args)
        if not changed:
            return None
        if a.kind == 'sym':
            return None
        return self._dist(a, args)

    def _args(self, args):
        out = []
        changed = False
        for x in args:
            if isinstance(x, Poly):
                y = self.poly(x)
            elif isinstance(x, Tree):
                y = self.tree(x)
            elif isinstance(x, tuple):
                y, ch, _ = self._args(x)
                y = tuple(y)
                if not ch:
                    y = x
            else:
                y = x
            if y is not x:
                changed = True
            out.append(y)
        return out, changed, None

    def _dist(self, a, args):
        """Rebuild an atom; distribute over tree-valued arguments."""
        return rebuild_lifted(a, args)

    def tree(self, t):
        if not self.touches(t):
            return t
        r = self.tc.get(t)
        if r is None:
            if t.cond is None:
                r = self.poly(t.leaf)
                if isinstance(r, Poly):
                    r = leaf(r)
            else:
                c = self.cond(t.cond)
                r = t_ite(c, self.tree(t.hi), self.tree(t.lo))
            self.tc[t] = r
        return r

    def cond(self, c):
        if not self.touches(c):
            return node(c, TRUE, FALSE)
        args, changed, _ = self._args(c.args)
        if not changed:
            return node(c, TRUE, FALSE)
        return rebuild_cond_lifted(c, args)


def _find_tree_arg(args):
    for i, x in enumerate(args):
        if isinstance(x, Tree):
            return (i,)
        if isinstance(x, tuple):
            s = _find_tree_arg(x)
            if s is not None:
                return (i,) + s
    return None


def _get(args, path):
    for i in path:
        args = args[i]
    return args


def _set(args, path, v):
    args = list(args)
    if len(path) == 1:
        args[path[0]] = v
    else:
        args[path[0]] = tuple(_set(args[path[0]], path[1:], v))
    return args


# atoms whose tree arguments stay trees (bodies of bound arrays)
KEEP_TREES = {'lam'}


def rebuild_lifted(a, args):
    if a.kind not in KEEP_TREES:
        path = _find_tree_arg(args)
        if path is not None:
            t = _get(args, path)
            return tmap(lambda p: rebuild_lifted(a, _set(args, path, p)), t)
    return rebuild_atom(a, args)


def rebuild_cond_lifted(c, args):
    if c.kind not in KEEP_TREES and c.kind != 'b':
        path = _find_tree_arg(args)
        if path is not None:
            t = _get(args, path)
            return tmap(lambda p: rebuild_cond_lifted(c, _set(args, path, p)), t)
    if c.kind == 'ge':
        return cmp_ge(args[0])
    if c.kind == 'gt':
        return cmp_gt(args[0])
    path = _find_tree_arg(args)
    if path is not None:
        t = _get(args, path)
        return tmap(lambda p: rebuild_cond_lifted(c, _set(args, path, p)), t)
    return node(mk_atom(c.kind, tuple(args)), TRUE, FALSE)


def rebuild_atom(a, args):
    k = a.kind
    if k == 'fdiv':
        return pfloordiv(args[0], args[1])
    if k == 'recip':
        return precip(args[0])
    if k in ('sin', 'cos', 'asin', 'acos', 'sqrt', 'atan2', 'tan'):
        return mk_fn(k, *args)
    if k == 'trunc':
        return ptrunc(args[0])
    if k in BITS:
        return fold_bits(k, args[0], args[1])
    return atom_poly(mk_atom(k, tuple(args), a.is_int, a.lo, a.hi))


BITS = ('f:BitAnd', 'f:BitOr', 'f:BitXor')


def fold_bits(k, p, q):
    if p.is_const and q.is_const:
        a, b = int(p.value), int(q.value)
        return const(a & b if k == 'f:BitAnd' else a | b if k == 'f:BitOr' else a ^ b)
    for x, y in ((p, q), (q, p)):
        if x.is_const and x.value == 0:
            return ZERO if k == 'f:BitAnd' else y
    return atom_poly(mk_atom(k, (p, q), True))


def ptrunc(p):
    """C cast to an integer: truncation towards zero."""
    if p.is_const:
        return const(math.trunc(p.value))
    if poly_is_int(p):
        return p
    return atom_poly(mk_atom('trunc', (p,), True))


def subst_tree(t, mapping):
    if not mapping:
        return t
    return Subst(mapping).tree(t)


# ------------------------------------------------------------------ display

def show_atom(a):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'const':
        return a.args[0]
    if k == 'fdiv':
        return '(%s)//%s' % (show(a.args[0]), show(a.args[1]))
    if k == 'recip':
        return '1/(%s)' % show(a.args[0])
    if k == 'elem':
        return '%s[%s]' % (a.args[0], ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in a.args[1]))
    if k == 'ge':
        return '%s >= 0' % show(a.args[0])
    if k == 'gt':
        return '%s > 0' % show(a.args[0])
    return '%s(%s)' % (k, ', '.join(_show_arg(x) for x in a.args))


def _show_arg(x):
    if isinstance(x, tuple):
        return '(' + ', '.join(_show_arg(y) for y in x) + ')'
    return repr(x) if not isinstance(x, str) else x


def show(p, limit=8):
    if not p.terms:
        return '0'
    out = []
    for m, c in p.key[:limit]:
        fs = []
        for a, e in m:
            s = show_atom(ATOMS[a])
            fs.append(s if e == 1 else '%s^%d' % (s, e))
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(fs))
        else:
            out.append('%s*%s' % (c, '*'.join(fs)))
    if len(p.key) > limit:
        out.append('...(%d terms)' % len(p.key))
    return ' + '.join(out)


def show_tree(t, limit=6):
    if t.cond is None:
        return show(t.leaf)
    if limit == 0:
        return '...'
    return '(if %s then %s else %s)' % (show_atom(t.cond), show_tree(t.hi, limit - 1), show_tree(t.lo, limit - 1))
