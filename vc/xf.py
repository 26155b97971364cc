"""Symbolic values: extended reals, booleans and integers, with constant folding.

Floating point numbers are modelled as extended reals: NaN, +inf, -inf or a
mathematical real.  Every operation follows IEEE-754 on the non-finite values and
is exact on the finite ones (rounding, overflow and the sign of zero are not
modelled; dividing a non-zero number by zero gives an infinity of unknown sign).

All values are either Python constants (bool / int / Fraction) or z3 terms; the
constant-folding keeps proofs small and lets the *same* spec code be evaluated on
concrete numbers, where comparisons are three-valued (`MAYBE` inside a tolerance).
"""

from __future__ import annotations

import math
import sys
from contextlib import contextmanager
from fractions import Fraction

import z3


class _Maybe:
    def __repr__(self):
        return "MAYBE"

    def __bool__(self):
        raise TypeError("MAYBE has no truth value")


MAYBE = _Maybe()


class Undecided(Exception):
    """A concrete contract depends on a comparison that is within the tolerance."""

# ---------------------------------------------------------------- booleans


def is_const_bool(a):
    return isinstance(a, bool) or a is MAYBE


def _b(a):
    import numpy as np

    if isinstance(a, np.bool_):
        return bool(a)
    if isinstance(a, np.ndarray):
        if a.shape != ():
            raise TypeError("expected scalar boolean")
        return _b(a.item())
    if isinstance(a, (bool, _Maybe)) or z3.is_bool(a):
        return a
    raise TypeError(f"not a boolean: {a!r} {type(a)}")


def and_(*xs):
    out = []
    maybe = False
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        if x is MAYBE:
            maybe = True
            continue
        out.append(x)
    if not out:
        return MAYBE if maybe else True
    assert not maybe
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def or_(*xs):
    out = []
    maybe = False
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        if x is MAYBE:
            maybe = True
            continue
        out.append(x)
    if not out:
        return MAYBE if maybe else False
    assert not maybe
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def not_(a):
    a = _b(a)
    if isinstance(a, bool):
        return not a
    if a is MAYBE:
        return MAYBE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = _b(a), _b(b)
    if a is MAYBE or b is MAYBE:
        return MAYBE
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    if a.eq(b):
        return True
    return a == b


def xor_(a, b):
    return not_(iff(a, b))


def ite_b(c, a, b):
    c, a, b = _b(c), _b(a), _b(b)
    if c is True:
        return a
    if c is False:
        return b
    if is_const_bool(a) and is_const_bool(b) and a is b:
        return a
    if c is MAYBE:
        return MAYBE
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else not_(c)
    if a is True:
        return or_(c, b)
    if a is False:
        return and_(not_(c), b)
    if b is True:
        return or_(not_(c), a)
    if b is False:
        return and_(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- reals / ints


def is_num(a):
    return isinstance(a, (int, Fraction)) and not isinstance(a, bool)


def zr(a):
    """Constant or term -> z3 real term."""
    if isinstance(a, Fraction):
        return z3.RealVal(a)
    if isinstance(a, int):
        return z3.RealVal(a)
    if z3.is_int(a):
        return z3.ToReal(a)
    return a


def zi(a):
    if isinstance(a, int):
        return z3.IntVal(a)
    return a


class Ctx:
    """Collects the definitional axioms of fresh names (square roots, ...)."""

    def __init__(self):
        self.axioms = []
        self.cache = {}
        self.counter = 0
        self.keep = []
        self.tol = None  # concrete mode: (abs, rel) tolerance for comparisons
        self.named = []  # (float, value): irrational constants, see `golden_ratio`
        self.facts = None  # see Scenario.nonzero
        self.cuts = None  # see Scenario.generalise
        self.squares = {}  # names of square roots -> their squares
        self.least = {}  # names of integers -> lower bounds

    @contextmanager
    def exactly(self):
        """Compare numbers that were not computed (inputs) without a tolerance."""
        old = self.tol
        if old is not None:
            self.tol = (Fraction(0), Fraction(0))
        try:
            yield
        finally:
            self.tol = old

    def fresh(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def memo(self, key, make):
        if key not in self.cache:
            self.cache[key] = make()
        return self.cache[key]


CTX = Ctx()


def golden_ratio():
    """The golden ratio.  Floating-point constants of the code that are nearest to it, or
    to one of its simple multiples, are from here on taken to be the exact number."""
    v = (1 + 5**0.5) / 2
    if CTX.tol is not None:
        return xf(v)
    p = z3.Real("golden ratio")
    CTX.axioms += [p * p == p + 1, p > z3.RealVal("1.618"), p < z3.RealVal("1.6181")]
    g = XF(p)
    CTX.named += [(v, g), (v + 1, g + xf(1)), (v - 1, g - xf(1)), (2 - v, xf(2) - g), (2 * v - 1, g + g - xf(1))]
    return g


def set_ctx(ctx):
    global CTX
    CTX = ctx
    return ctx


def tid(a):
    if isinstance(a, (int, Fraction)):
        return ("c", Fraction(a))
    CTX.keep.append(a)
    return ("t", a.get_id())


def _cut(t):
    return t if CTX.cuts is None else CTX.cuts(t)


def r_add(a, b):
    if is_num(a) and is_num(b):
        return Fraction(a) + Fraction(b)
    if is_num(a) and a == 0:
        return b
    if is_num(b) and b == 0:
        return a
    return _cut(zr(a) + zr(b))


def r_neg(a):
    if is_num(a):
        return -Fraction(a)
    return _cut(-a)


def r_sub(a, b):
    if is_num(a) and is_num(b):
        return Fraction(a) - Fraction(b)
    if is_num(b) and b == 0:
        return a
    if is_num(a) and a == 0:
        return r_neg(zr(b))
    return _cut(zr(a) - zr(b))


def r_mul(a, b):
    if is_num(a) and is_num(b):
        return Fraction(a) * Fraction(b)
    if is_num(a):
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
        if a == -1:
            return r_neg(zr(b))
    if is_num(b):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        if b == -1:
            return r_neg(zr(a))
    return _cut(zr(a) * zr(b))


def r_div(a, b):
    if is_num(a) and is_num(b):
        if b == 0:
            return Fraction(0)
        return Fraction(a) / Fraction(b)
    if is_num(a) and a == 0:
        return Fraction(0)
    if is_num(b):
        if b == 0:
            return Fraction(0)
        return r_mul(a, Fraction(1) / Fraction(b))
    return _cut(zr(a) / zr(b))


def _near(a, b):
    if CTX.tol is None:
        return False
    ta, tr = CTX.tol
    d = abs(Fraction(a) - Fraction(b))
    return d <= ta + tr * max(abs(Fraction(a)), abs(Fraction(b)))


def r_lt(a, b):
    if is_num(a) and is_num(b):
        if a != b and _near(a, b):
            return MAYBE
        if a == b and CTX.tol is not None:
            return MAYBE if CTX.strict_ties else False
        return bool(a < b)
    if a is b or (not is_num(a) and not is_num(b) and a.eq(b)):
        return False
    if CTX.facts is not None and (CTX.facts.pos or CTX.facts.least):
        d = r_sub(b, a)
        if CTX.facts.positive(d):
            return True
        if CTX.facts.positive(r_neg(d)) or CTX.facts.least and CTX.facts.nonneg(r_neg(d)):
            return False
    return zr(a) < zr(b)


def r_le(a, b):
    return not_(r_lt(b, a))


def r_eq(a, b):
    if is_num(a) and is_num(b):
        if a == b:
            return True
        if _near(a, b):
            return MAYBE
        return False
    if a is b or (not is_num(a) and not is_num(b) and a.eq(b)):
        return True
    if CTX.facts is not None and CTX.facts.keys and CTX.facts.nonzero(r_sub(a, b)):
        return False
    return zr(a) == zr(b)


Ctx.strict_ties = False


def r_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if is_num(a) and is_num(b) and a == b:
        return a
    if c is MAYBE:
        return a  # arbitrary: callers mark the result undecided
    if not is_num(a) and not is_num(b) and a.eq(b):
        return a
    return z3.If(c, zr(a), zr(b))


# ints


def i_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if c is MAYBE:
        raise Undecided
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    return z3.If(c, zi(a), zi(b))


def i_bin(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return op(a, b)
    return op(zi(a), zi(b))


def i_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return zi(a) == zi(b)


def i_linear(t):
    """(coefficients by name, constant) of an integer term, or None."""
    if isinstance(t, int):
        return {}, t
    if z3.is_int_value(t):
        return {}, t.as_long()
    if not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return {t.decl().name(): 1}, 0
    if k not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return None
    parts = [i_linear(c) for c in t.children()]
    if any(p is None for p in parts):
        return None
    if k == z3.Z3_OP_MUL:
        out = ({}, 1)
        for p in parts:
            if p[0] and out[0]:
                return None
            (cs, c), m = (p, out[1]) if p[0] else (out, p[1])
            out = {n: v * m for n, v in cs.items()}, c * m
        return out
    cs, c = {}, 0
    for i, (d, e) in enumerate(parts):
        m = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and i) else 1
        c += m * e
        for n, v in d.items():
            cs[n] = cs.get(n, 0) + m * v
    return cs, c


def i_least(a):
    """A lower bound, or None."""
    if not CTX.least:
        return None
    p = i_linear(a)
    if p is None or any(v < 0 or n not in CTX.least for n, v in p[0].items() if v):
        return None
    return p[1] + sum(v * CTX.least[n] for n, v in p[0].items() if v)


def i_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if CTX.least:
        lo = i_least(zi(b) - zi(a))
        if lo is not None and lo > 0:
            return True
        lo = i_least(zi(a) - zi(b))
        if lo is not None and lo >= 0:
            return False
    return zi(a) < zi(b)


def i_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return zi(a) <= zi(b)


# ---------------------------------------------------------------- extended reals


class XF:
    __slots__ = ("nan", "pinf", "ninf", "r")
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.nan, self.pinf, self.ninf, self.r = nan, pinf, ninf, r

    # -- predicates
    @property
    def inf(self):
        return or_(self.pinf, self.ninf)

    @property
    def finite(self):
        return and_(not_(self.nan), not_(self.pinf), not_(self.ninf))

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    @property
    def const(self):
        return (
            is_num(self.r)
            and is_const_bool(self.nan)
            and is_const_bool(self.pinf)
            and is_const_bool(self.ninf)
        )

    def canon(self):
        if self.plain:
            return self
        return XF(r_ite(self.finite, self.r, Fraction(0)), self.nan, self.pinf, self.ninf)

    # sign predicates of the (possibly infinite) value
    # (exact on constants: no tolerance)
    def pos(self):
        p = self.r > 0 if is_num(self.r) else r_lt(0, self.r)
        return or_(self.pinf, and_(self.finite, p))

    def neg_(self):
        p = self.r < 0 if is_num(self.r) else r_lt(self.r, 0)
        return or_(self.ninf, and_(self.finite, p))

    def exact_zero(self):
        p = self.r == 0 if is_num(self.r) else r_eq(self.r, 0)
        return and_(self.finite, p)

    # -- arithmetic
    def __add__(self, o):
        o = xf(o)
        if self.plain and o.plain:
            return XF(r_add(self.r, o.r))
        nan = or_(self.nan, o.nan, and_(self.pinf, o.ninf), and_(self.ninf, o.pinf))
        pinf = and_(not_(nan), or_(self.pinf, o.pinf))
        ninf = and_(not_(nan), or_(self.ninf, o.ninf))
        return XF(r_add(self.r, o.r), nan, pinf, ninf)

    __radd__ = __add__

    def __neg__(self):
        return XF(r_neg(self.r), self.nan, self.ninf, self.pinf)

    def __sub__(self, o):
        return self + (-xf(o))

    def __rsub__(self, o):
        return xf(o) + (-self)

    def __mul__(self, o):
        o = xf(o)
        if self.plain and o.plain:
            return XF(r_mul(self.r, o.r))
        nan = or_(
            self.nan,
            o.nan,
            and_(self.inf, o.exact_zero()),
            and_(o.inf, self.exact_zero()),
        )
        anyinf = or_(self.inf, o.inf)
        same = or_(and_(self.pos(), o.pos()), and_(self.neg_(), o.neg_()))
        diff = or_(and_(self.pos(), o.neg_()), and_(self.neg_(), o.pos()))
        pinf = and_(not_(nan), anyinf, same)
        ninf = and_(not_(nan), anyinf, diff)
        return XF(r_mul(self.r, o.r), nan, pinf, ninf)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = xf(o)
        if o.plain and is_num(o.r) and o.r != 0 and self.plain:
            return XF(r_div(self.r, o.r))
        oz = o.exact_zero()
        if CTX.facts is not None and o.plain and CTX.facts.nonzero(o.r):
            oz = False
        if self.plain and o.plain and oz is False:
            return XF(r_div(self.r, o.r))
        # sign of a zero divisor is unknown
        if oz is False:
            zpos = True
        else:
            zpos = CTX.memo(
                ("zsign", tid(o.r)), lambda: z3.Bool(CTX.fresh("zsign"))
            ) if not is_num(o.r) else _const_zero_sign(o)
        opos = or_(o.pos(), and_(oz, zpos))
        oneg = or_(o.neg_(), and_(oz, not_(zpos)))
        nan = or_(self.nan, o.nan, and_(self.inf, o.inf), and_(self.exact_zero(), oz))
        big = or_(self.inf, and_(oz, not_(self.exact_zero()), self.finite))
        same = or_(and_(self.pos(), opos), and_(self.neg_(), oneg))
        pinf = and_(not_(nan), big, same)
        ninf = and_(not_(nan), big, not_(same))
        r = r_ite(o.finite, r_div(self.r, o.r), Fraction(0))
        return XF(r, nan, pinf, ninf)

    def __rtruediv__(self, o):
        return xf(o) / self

    def __abs__(self):
        if is_num(self.r):
            r = abs(self.r)
        else:
            r = r_ite(r_lt(self.r, 0), r_neg(self.r), self.r)
        return XF(r, self.nan, self.inf, False)

    # -- comparisons (IEEE: false on NaN)
    def lt(self, o):
        o = xf(o)
        if self.plain and o.plain:
            return r_lt(self.r, o.r)
        ok = and_(not_(self.nan), not_(o.nan))
        return and_(
            ok,
            or_(
                and_(self.ninf, not_(o.ninf)),
                and_(o.pinf, not_(self.pinf)),
                and_(self.finite, o.finite, r_lt(self.r, o.r)),
            ),
        )

    def eq(self, o):
        o = xf(o)
        if self.plain and o.plain:
            return r_eq(self.r, o.r)
        ok = and_(not_(self.nan), not_(o.nan))
        return and_(
            ok,
            or_(
                and_(self.pinf, o.pinf),
                and_(self.ninf, o.ninf),
                and_(self.finite, o.finite, r_eq(self.r, o.r)),
            ),
        )

    def le(self, o):
        o = xf(o)
        if self.plain and o.plain:
            return r_le(self.r, o.r)
        ok = and_(not_(self.nan), not_(o.nan))
        return and_(ok, not_(o.lt(self)))

    def same(self, o):
        """Identity as values: NaN is the same as NaN."""
        o = xf(o)
        if self.plain and o.plain:
            return r_eq(self.r, o.r)
        return or_(
            and_(self.nan, o.nan),
            and_(self.pinf, o.pinf),
            and_(self.ninf, o.ninf),
            and_(self.finite, o.finite, r_eq(self.r, o.r)),
        )

    def __lt__(self, o):
        return self.lt(o)

    def __le__(self, o):
        return self.le(o)

    def __gt__(self, o):
        return xf(o).lt(self)

    def __ge__(self, o):
        return xf(o).le(self)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not_(self.eq(o))

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            out = XF(Fraction(1))
            for _ in range(n):
                out = out * self
            return out
        raise TypeError(n)

    def __repr__(self):
        if self.const:
            return str(to_float(self))
        return f"XF({self.r}|{self.nan},{self.pinf},{self.ninf})"


def _const_zero_sign(o):
    return True


NAN = XF(Fraction(0), nan=True)
PINF = XF(Fraction(0), pinf=True)
NINF = XF(Fraction(0), ninf=True)


def xf(a) -> XF:
    import numpy as np

    if isinstance(a, XF):
        return a
    if isinstance(a, np.ndarray) and a.shape == ():
        return xf(a.item())
    if isinstance(a, (bool, np.bool_)):
        return XF(Fraction(int(a)))
    if isinstance(a, Fraction):
        return XF(a)
    if isinstance(a, (int, np.integer)):
        return XF(Fraction(int(a)))
    if isinstance(a, (float, np.floating)):
        a = float(a)
        if math.isnan(a):
            return NAN
        if math.isinf(a):
            return PINF if a > 0 else NINF
        return XF(Fraction(a))
    if z3.is_expr(a):
        if z3.is_bool(a):
            return XF(z3.If(a, z3.RealVal(1), z3.RealVal(0)))
        if z3.is_int(a):
            return XF(z3.ToReal(a))
        return XF(a)
    raise TypeError(f"{a!r} {type(a)}")


def to_float(a: XF) -> float:
    if a.nan is True:
        return math.nan
    if a.pinf is True:
        return math.inf
    if a.ninf is True:
        return -math.inf
    try:
        return float(a.r)
    except OverflowError:
        return math.inf if a.r > 0 else -math.inf


def x_ite(c, a: XF, b: XF) -> XF:
    c = _b(c)
    a, b = xf(a), xf(b)
    if c is True:
        return a
    if c is False:
        return b
    if c is MAYBE:
        if a.const and b.const and a.same(b) is True:
            return a
        return XF(a.r, MAYBE, MAYBE, MAYBE)  # undecided value
    return XF(
        r_ite(c, a.r, b.r),
        ite_b(c, a.nan, b.nan),
        ite_b(c, a.pinf, b.pinf),
        ite_b(c, a.ninf, b.ninf),
    )


def x_max(a, b):
    a, b = xf(a), xf(b)
    nan = or_(a.nan, b.nan)
    if a.plain and b.plain and z3.is_expr(a.r) and z3.is_expr(b.r) and a.r.get_id() > b.r.get_id():
        a, b = b, a  # commutative: one term for both orders
    c = a.lt(b)
    if c is MAYBE:
        c = to_float(a) < to_float(b)
    out = x_ite(c, b, a)
    if nan is False:
        return out
    return x_ite(nan, NAN, out)


def x_min(a, b):
    return -x_max(-xf(a), -xf(b))


def x_sign(a):
    a = xf(a)
    r = r_ite(
        a.pos(), Fraction(1), r_ite(a.neg_(), Fraction(-1), Fraction(0))
    )
    return XF(r, a.nan)


def _sqrt_frac(q):
    n, d = q.numerator, q.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def r_sqrt(a):
    """Non-negative square root of a real (0 for negatives)."""
    if is_num(a):
        a = Fraction(a)
        if a <= 0:
            return Fraction(0)
        q = _sqrt_frac(a)
        if q is not None:
            return q
        if CTX.tol is not None:
            return Fraction(math.sqrt(float(a)))

    def make():
        s = z3.Real(CTX.fresh("sqrt"))
        CTX.axioms.append(s >= 0)
        CTX.axioms.append(z3.Implies(zr(a) >= 0, s * s == zr(a)))
        CTX.axioms.append(z3.Implies(zr(a) < 0, s == 0))
        if CTX.facts is not None and CTX.facts.nonneg(a):
            CTX.squares[s.get_id()] = zr(a)
            CTX.keep.append(s)
            if CTX.facts.positive(a):
                CTX.facts.add(s, True)
        return s

    key = CTX.facts.ring.key(zr(a)) if CTX.facts is not None else None
    if key is not None:  # the root of the same number, however it is written
        num, den = key
        p = CTX.facts.ring.of(zr(a)).n
        return CTX.memo(("sqrt", num, den, p[sorted(p)[0]] if p else 0), make)
    return CTX.memo(("sqrt", tid(a)), make)


def x_sqrt(a):
    a = xf(a)
    nan = or_(a.nan, a.neg_())
    if CTX.facts is not None and a.plain and CTX.facts.nonneg(a.r):
        nan = False
    return XF(r_sqrt(a.r), nan, a.pinf, False)


_UF = {}


def ufun(name, nargs, sort=None):
    sort = sort if sort is not None else z3.RealSort()
    key = (name, nargs, sort.name())
    if key not in _UF:
        _UF[key] = z3.Function(name, *([z3.RealSort()] * nargs), sort)
    return _UF[key]


_PYFUN = {
    "exp": math.exp, "log": math.log, "tanh": math.tanh, "sin": math.sin,
    "cos": math.cos, "log1p": math.log1p, "expm1": math.expm1, "tan": math.tan,
    "atan2": math.atan2, "pow": math.pow, "logistic": lambda x: 1 / (1 + math.exp(-x)),
    "cbrt": math.cbrt,
}


def x_fun(name, *args):
    """Transcendental functions: uninterpreted on reals (a stated assumption)."""
    args = [xf(a) for a in args]
    if all(a.const for a in args):
        try:
            return xf(_PYFUN[name](*[to_float(a) for a in args]))
        except (ValueError, OverflowError, ZeroDivisionError):
            return NAN
    nan = or_(*[a.nan for a in args])
    flags = []
    for a in args:
        flags += [xf(a.pinf).r, xf(a.ninf).r]
    f = ufun("fun_" + name, len(args) * 3)
    app = f(*[zr(x) for a in args for x in (a.canon().r, xf(a.pinf).r, xf(a.ninf).r)])
    if name == "exp":
        CTX.axioms.append(app > 0)
    bad = or_(*[a.inf for a in args])
    if name in ("log", "pow", "log1p", "tan"):
        g = ufun("nan_" + name, len(args) * 3, z3.BoolSort())
        nan = or_(nan, g(*[zr(x) for a in args for x in (a.canon().r, xf(a.pinf).r, xf(a.ninf).r)]))
    return XF(app, or_(nan, bad))
