"""Normal forms of rational functions.

`rational(t)` turns an arithmetic term into numerator and (factored) denominator over
atoms.  Two terms with the same normal form are equal wherever no divisor vanishes; the
divisors are returned so that the caller can establish that.
"""

from __future__ import annotations

import time
from contextlib import contextmanager
from fractions import Fraction

import z3

LIMIT = 60000  # monomials
DEADLINE = None


class TooBig(Exception):
    pass


@contextmanager
def patience(secs):
    """Larger polynomials, within a time limit."""
    global DEADLINE
    DEADLINE = time.time() + secs
    try:
        yield
    finally:
        DEADLINE = None


ONE = {(): Fraction(1)}


def p_add(a, b, k=1):
    if not b:
        return a
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def _mm(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 4 * LIMIT and DEADLINE is None:
        raise TooBig
    if len(a) > len(b):
        a, b = b, a
    out = {}
    for m, c in a.items():
        if DEADLINE is not None and time.time() > DEADLINE:
            raise TooBig
        for n, d in b.items():
            k = _mm(m, n)
            v = out.get(k, 0) + c * d
            if v == 0:
                out.pop(k, None)
            else:
                out[k] = v
    if len(out) > (LIMIT if DEADLINE is None else 20 * LIMIT):
        raise TooBig
    return out


def p_pow(a, n):
    out = ONE
    for _ in range(n):
        out = p_mul(out, a)
    return out


def p_key(p):
    """Up to a constant factor."""
    if not p:
        return ()
    ms = sorted(p)
    c = p[ms[0]]
    return tuple((m, p[m] / c) for m in ms)


def _order(m):
    """Graded lexicographic order."""
    return sum(e for _, e in m), tuple((-a, e) for a, e in m)


def _quotient(m, n):
    """m / n, or None."""
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) - e
        if v < 0:
            return None
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def combination(p, hyps, steps=2000):
    """Is p a combination of the given polynomials (found by division)?"""
    hyps = [(max(h, key=_order), h) for h in hyps if h]
    for _ in range(steps):
        if not p:
            return True
        # prefer the largest monomial that can be reduced: every monomial must go
        m = max(p, key=_order)
        for lead, h in hyps:
            q = _quotient(m, lead)
            if q is not None:
                p = p_add(p, p_mul({q: p[m] / h[lead]}, h), -1)
                break
        else:
            return False
    return False


def _substituted(p, x, q):
    """p with q for the variable x."""
    out, powers = {}, {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(x, 0)
        if not e:
            out = p_add(out, {m: c})
            continue
        if e not in powers:
            powers[e] = p_pow(q, e)
        out = p_add(out, p_mul({tuple(sorted(d.items())): c}, powers[e]))
    return out


def eliminate(p, hyps, rounds=60):
    """Solves hypotheses for variables of p that occur in them once, and linearly."""
    hyps = [h for h in hyps if h]
    for _ in range(rounds):
        mine = {a for m in p for a, _ in m}
        hit = None
        for i, h in enumerate(hyps):
            for m in h:
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in mine and all(n is m or n == m or m[0][0] not in dict(n) for n in h):
                    hit = (i, m)
                    break
            if hit:
                break
        if hit is None:
            break
        i, m = hit
        h = hyps.pop(i)
        q = {n: -c / h[m] for n, c in h.items() if n != m}
        p = _substituted(p, m[0][0], q)
        hyps = [g for g in (_substituted(g, m[0][0], q) for g in hyps) if g]
    return p, hyps


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}  # d: key -> (poly, exponent)

    def add(self, o, k=1):
        if not self.d and not o.d:
            return Rat(p_add(self.n, o.n, k))
        den = dict(self.d)
        for key, (p, e) in o.d.items():
            if key not in den or den[key][1] < e:
                den[key] = (p, e)
        return Rat(p_add(self._over(den), o._over(den), k), den)

    def _over(self, den):
        n = self.n
        for key, (p, e) in den.items():
            have = self.d.get(key, (p, 0))[1]
            if e > have:
                n = p_mul(n, p_pow(p, e - have))
        return n

    def mul(self, o):
        den = dict(self.d)
        for key, (p, e) in o.d.items():
            den[key] = (p, e + den.get(key, (p, 0))[1])
        return Rat(p_mul(self.n, o.n), den).cancel()

    def over(self, den):
        """Divided by further factors."""
        return self.mul(Rat(ONE, den)) if den else self

    def cancel(self):
        """Removes denominators that are the numerator itself or monomial factors."""
        if not self.n:
            return Rat({})
        k = p_key(self.n)
        if k in self.d:
            p, e = self.d[k]
            m = next(iter(p))
            c = self.n[m] / p[m]
            den = dict(self.d)
            if e == 1:
                den.pop(k)
            else:
                den[k] = (p, e - 1)
            return Rat({(): c}, den)
        return self

    def inv(self):
        num = ONE
        for _, (p, e) in self.d.items():
            num = p_mul(num, p_pow(p, e))
        if len(self.n) == 1 and () in self.n:
            return Rat({m: c / self.n[()] for m, c in num.items()})
        k = p_key(self.n)
        m0 = sorted(self.n)[0]
        c = self.n[m0]
        return Rat({m: v / c for m, v in num.items()}, {k: (dict(k), 1)}).cancel()


class Ring:
    def __init__(self, squares=None):
        self.cache = {}
        self.atoms = {}  # id -> term
        self.divisors = []
        self.keep = []
        self.dens = {}
        self.squares = {} if squares is None else squares  # atom id -> term it is the square root of
        self.names = {}  # normal form of a polynomial -> (variable, its first coefficient)

    def name(self, t):
        """Writes the polynomial t, wherever it occurs as a subterm, as a new variable: what
        is proved for all values of the variable holds for that of the polynomial."""
        r = self.of(t)
        k = self._named(r)
        if not r.d and len(r.n) < 2 or k in self.names:
            return
        v = z3.Real(f"name!{len(self.names)}")
        self.atoms[v.get_id()] = v
        self.keep.append(v)
        self.names[k] = (v.get_id(), r.n[sorted(r.n)[0]])
        self.cache.clear()

    @staticmethod
    def _named(r):
        return p_key(r.n), tuple(sorted((k, e) for k, (_, e) in r.d.items()))

    def of(self, t):
        if isinstance(t, (int, Fraction)):
            return Rat({(): Fraction(t)} if t else {})
        stack = [t]
        while stack:
            u = stack[-1]
            if u.get_id() in self.cache:
                stack.pop()
                continue
            ch = self._children(u)
            todo = [c for c in ch if c.get_id() not in self.cache]
            if todo:
                stack += todo
                continue
            stack.pop()
            self.keep.append(u)
            r = self._build(u, [self.cache[c.get_id()] for c in ch])
            if self.names and (r.d or len(r.n) > 1):
                v, c = self.names.get(self._named(r), (None, None))
                if v is not None:
                    r = Rat({((v, 1),): r.n[sorted(r.n)[0]] / c})
            self.cache[u.get_id()] = r
        return self.cache[t.get_id()]

    def _children(self, u):
        if not z3.is_app(u):
            return []
        k = u.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            return u.children()
        if k == z3.Z3_OP_POWER and z3.is_rational_value(u.arg(1)) and u.arg(1).denominator_as_long() == 1 and u.arg(1).numerator_as_long() >= 0:
            return [u.arg(0)]
        return []

    def _build(self, u, ch):
        if z3.is_rational_value(u):
            v = Fraction(u.numerator_as_long(), u.denominator_as_long())
            return Rat({(): v} if v else {})
        k = u.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = ch[0]
            for c in ch[1:]:
                r = r.add(c)
            return r
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r.add(c, -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return Rat({m: -c for m, c in ch[0].n.items()}, ch[0].d)
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = self.tidy(r.mul(c))
            return r
        if k == z3.Z3_OP_DIV and ch:
            if not ch[1].n:
                raise TooBig  # division by zero
            if not (len(ch[1].n) == 1 and () in ch[1].n):
                self.divisors.append(u.arg(1))
            r = ch[0]
            for f in self._factors(u.arg(1)):
                if f.get_id() in self.squares:  # 1 / sqrt(a) = sqrt(a) / a
                    r = self.tidy(r.mul(self.cache[f.get_id()])).mul(self.of(self.squares[f.get_id()]).inv())
                else:
                    r = r.mul(self.cache[f.get_id()].inv())
            return r
        if k == z3.Z3_OP_POWER and ch:
            r = Rat(ONE)
            for _ in range(u.arg(1).numerator_as_long()):
                r = self.tidy(r.mul(ch[0]))
            return r
        self.atoms[u.get_id()] = u
        return Rat({((u.get_id(), 1),): Fraction(1)})

    @staticmethod
    def _factors(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            return [f for c in t.children() for f in Ring._factors(c)]
        return [t]

    def tidy(self, r):
        """Squares of square roots are replaced."""
        while self.squares:
            hit = next((a for m in r.n for a, e in m if e >= 2 and a in self.squares), None)
            if hit is None:
                break
            parts = {}
            for m, c in r.n.items():
                d = dict(m)
                e = d.pop(hit, 0)
                if e % 2:
                    d[hit] = 1
                parts.setdefault(e // 2, {})[tuple(sorted(d.items()))] = c
            sq, out = self.of(self.squares[hit]), Rat({})
            for e, n in parts.items():
                t = Rat(n)
                for _ in range(e):
                    t = t.mul(sq)
                out = out.add(t)
            r = Rat(out.n, {}).over(out.d).over(r.d)
        return r

    def key(self, t):
        """Normal form of a term without (or with constant) denominators, else None."""
        try:
            r = self.of(t)
        except TooBig:
            return None
        return p_key(r.n), tuple(sorted((k, e) for k, (_, e) in r.d.items()))

    def zero(self, a, b):
        """Is a = b an identity (where the divisors do not vanish)?"""
        r = self.of(a).add(self.of(b), -1)
        return not self.tidy(r).n


class Cuts:
    """Numbers replaced by variables wherever they are computed."""

    def __init__(self, squares):
        self.ring = Ring(squares)
        self.table = {}

    def add(self, t, v, opaque):
        """What to write for t (v unless it is a multiple of an earlier one)."""
        r = self.ring.tidy(self.ring.of(t))
        if Ring._named(r) in self.table:
            return self(t)
        self.table[Ring._named(r)] = (v, r.n[sorted(r.n)[0]])
        if not opaque:
            self.ring.cache[v.get_id()] = r
        self.ring.keep.append(v)
        return v

    def __call__(self, t):
        try:
            r = self.ring.tidy(self.ring.of(t))
        except TooBig:
            return t
        if not r.n:
            return z3.RealVal(0)
        v, c = self.table.get(Ring._named(r), (None, None))
        if v is None:
            return t
        k = r.n[sorted(r.n)[0]] / c
        return v if k == 1 else -v if k == -1 else z3.RealVal(str(k)) * v


class Facts:
    """Numbers known not to vanish, or to be positive (see `Scenario.nonzero`)."""

    def __init__(self, squares):
        self.ring = Ring(squares)
        self.keys, self.pos, self.least = set(), set(), set()
        self.rationals = []  # (normal form, positive)

    def add(self, t, positive=False):
        k = self.ring.key(t)
        if k is not None:
            self.keys.add(k)
            if positive:
                self.pos.add(self._signed(t))
            r = self.ring.of(t)
            if r.d:
                self.rationals.append((r, positive))

    def _signed(self, t):
        try:
            r = self.ring.of(t)
        except TooBig:
            return None
        if not r.n:
            return None
        return p_key(r.n), r.n[sorted(r.n)[0]] > 0, tuple(sorted((k, e) for k, (_, e) in r.d.items()))

    def add_nonneg(self, t):
        self.least.add(self._signed(t))

    def nonneg(self, t):
        """Known not to be negative (or a sum of squares)."""
        if isinstance(t, (int, Fraction)):
            return t >= 0
        return self._squares(t) or self.positive(t) or bool(self.least) and self._signed(t) in self.least

    def _squares(self, t):
        if z3.is_rational_value(t):
            return t.numerator_as_long() >= 0
        if not z3.is_app(t):
            return False
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ADD:
            return all(self._squares(c) for c in ch)
        return k == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].eq(ch[1])

    def _known(self, t, positive):
        """Equal to a known quotient?"""
        try:
            r = self.ring.of(t)
            return bool(r.d) and any((p or not positive) and not self.ring.tidy(r.add(o, -1)).n for o, p in self.rationals)
        except TooBig:
            return False

    def nonzero(self, t):
        if isinstance(t, (int, Fraction)):
            return t != 0
        if not self.keys:
            return False
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) and all(z3.is_rational_value(c) and not c.eq(z3.RealVal(0)) or self.nonzero(c) for c in t.children()):
                return True
        return self.ring.key(t) in self.keys or self._known(t, False)

    def positive(self, t):
        if isinstance(t, (int, Fraction)):
            return t > 0
        return bool(self.pos) and (self._signed(t) in self.pos or self._known(t, True))
