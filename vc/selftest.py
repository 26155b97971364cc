"""Tests of the verification condition generator.

1. CPython/JAX cross-check: the symbolic interpreter, fed with constants, must compute
   what JAX computes, for functions covering the primitives the contracts meet.
2. The polynomial prover: normal forms must have the value of the term they come from, and
   only combinations of the hypotheses may be recognised as such.
3. Broken bodies: a correct body must be proved and a broken one refuted, with a
   counter-model that replays.
"""

from __future__ import annotations

import random
import sys
from fractions import Fraction

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import z3

from . import ring as R
from . import xf as X
from .core import Conc, ModelSource, RandomSource, Sym, sarr
from .jx import Unsupported, lift
from .runner import Obligation, process
from .xf import and_, implies, not_, or_, xf

FNS = {
    "arith": lambda x, y: (x + y, x - y, x * y, x / y, -x, jnp.abs(x), jnp.sign(x), x**2, x**3),
    "minmax": lambda x, y: (jnp.minimum(x, y), jnp.maximum(x, y), jnp.max(x), jnp.min(x), jnp.argmax(x), jnp.argmin(x)),
    "compare": lambda x, y: (x < y, x <= y, x == y, x != y, x >= y, jnp.isfinite(x), jnp.isnan(x / y)),
    "bool": lambda x, y: ((x < y) & (x > 0), (x < y) | (x > 0), ~(x < y), (x < y) ^ (y > 0), jnp.all(x < y), jnp.any(x > y)),
    "where": lambda x, y: (jnp.where(x < y, x, y), jnp.where(x[0] > 0, x, y), jnp.clip(x, -1.0, 1.0)),
    "shape": lambda x, y: (jnp.stack([x, y]), jnp.concatenate([x, y]), x[::-1], x[1:], x[None] * y[:, None], jnp.roll(x, 1)),
    "dot": lambda x, y: (x @ y, jnp.outer(x, y) @ x, jnp.sum(x), jnp.cumsum(x), jnp.sum(jnp.outer(x, y), axis=0), jnp.tensordot(x, y, 1)),
    "index": lambda x, y: (x[jnp.argmax(y)], x.at[jnp.argmin(y)].set(7.0), jax.lax.dynamic_slice(x, (jnp.argmax(y),), (1,)), x.at[0].add(2.0)),
    "cond": lambda x, y: jax.lax.cond(x[0] < y[0], lambda: (x, 1), lambda: (y + 1, 2)),
    "switch": lambda x, y: jax.lax.switch(jnp.argmax(x), [lambda: x, lambda: y, lambda: x + y]),
    "scan": lambda x, y: jax.lax.scan(lambda c, t: (c * 0.5 + t, c), x[0], y),
    "fori": lambda x, y: jax.lax.fori_loop(0, 3, lambda i, c: c + x[i] * y, y),
    "grad": lambda x, y: jax.grad(lambda z: jnp.sum(z * z * y) + z[0] * z[1])(x),
    "jvp": lambda x, y: jax.jvp(lambda z: z * z[::-1], (x,), (y,)),
    "sqrt": lambda x, y: (jnp.sqrt(x * x), jnp.linalg.norm(x)),
    "sort": lambda x, y: (jnp.sort(x), jnp.argsort(x)),
    "int": lambda x, y: (jnp.argmax(x) + 2, (jnp.argmax(x) - 1) * 3, jnp.argmax(x) % 2, jnp.where(jnp.argmax(x) == 1, 5, 6)),
    "vmap": lambda x, y: jax.vmap(lambda a, b: jnp.where(a > b, a * b, a))(x, y),
    "eye": lambda x, y: (jnp.eye(3) @ x, jnp.diag(x), jnp.tril(jnp.outer(x, y)), jnp.arange(3) * x),
}


def X_le(a, b):
    return xf(a).le(b)


def X_lt(a, b):
    return xf(a).lt(b)


def X_same(a, b):
    return xf(a).same(b)


def close(e, v):
    if isinstance(e, X.XF):
        f = X.to_float(e)
        if np.isnan(v) or not np.isfinite(v):
            return (np.isnan(f) and np.isnan(v)) or f == v
        return abs(f - v) <= 1e-9 * (1 + abs(v))
    return e == v


def crosscheck(seed, n):
    rng = random.Random(seed)
    bad = []
    for name, f in FNS.items():
        for _ in range(n):
            x = np.array([rng.choice([rng.gauss(0, 2), float(rng.randint(-2, 2))]) for _ in range(3)])
            y = np.array([rng.choice([rng.gauss(0, 2), float(rng.randint(-2, 2))]) for _ in range(3)])
            if name in ("arith", "compare") and rng.random() < 0.4:
                x[rng.randrange(3)] = rng.choice([np.nan, np.inf, -np.inf, 0.0])
            want = [np.asarray(o) for o in jtu.tree_leaves(f(jnp.asarray(x), jnp.asarray(y)))]
            S = Sym("selftest")
            S.prover, S.hyps = None, list
            S.ctx.tol = (0, 0)
            try:
                out = S.run(f, sarr(lift(x), np.float64), sarr(lift(y), np.float64))
            except Unsupported as e:
                bad.append((name, str(e)))
                break
            got = jtu.tree_leaves(out, is_leaf=lambda a: isinstance(a, np.ndarray))
            for a, b in zip(got, want):
                if a.shape != b.shape:
                    bad.append((name, "shape", a.shape, b.shape))
                    continue
                if name == "sqrt":
                    continue
                for ix in np.ndindex(b.shape):
                    try:
                        ok = close(a[ix], b[ix].item())
                    except Exception as e:  # noqa: BLE001
                        ok = False
                        bad.append((name, repr(e)[:200]))
                    if not ok:
                        bad.append((name, x.tolist(), y.tolist(), ix, str(a[ix]), b[ix].item()))
    return bad


def _contract(body, post, pre=None, finite=True):
    def ob(S):
        x = S.float("x", (2,), finite=finite)
        y = S.float("y", (2,), finite=finite)
        f = S.fn("f")
        if pre:
            S.assume(pre(S, x, y))
        out = S.run(lambda x, y: body(x, y, f), x, y)
        S.check("post", post(S, x, y, f, out))

    return ob


def _clip_ok(S, x, y, f, out):
    return and_(*[and_(X_le(y[0], o), X_le(o, y[1])) for o in out])


TOYS = [
    ("clip", _contract(lambda x, y, f: jnp.minimum(jnp.maximum(x, y[0]), y[1]), _clip_ok, lambda S, x, y: X_le(y[0], y[1])), True),
    ("clip-broken", _contract(lambda x, y, f: jnp.minimum(jnp.maximum(x, y[0]), y[1] + 1), _clip_ok, lambda S, x, y: X_le(y[0], y[1])), False),
    ("call", _contract(lambda x, y, f: f(x) + f(y), lambda S, x, y, f, o: S.same(o, sarr(np.array(S.s(f.spec(x)) + S.s(f.spec(y)))))), True),
    ("call-broken", _contract(lambda x, y, f: f(x) + f(x), lambda S, x, y, f, o: S.same(o, sarr(np.array(S.s(f.spec(x)) + S.s(f.spec(y)))))), False),
    ("gradient", _contract(lambda x, y, f: jax.grad(f)(x) * y, lambda S, x, y, f, o: and_(*[X_same(o[i], f.dspec(0, x)[i] * y[i]) for i in range(2)])), True),
    ("gradient-broken", _contract(lambda x, y, f: jax.grad(f)(y) * y, lambda S, x, y, f, o: and_(*[X_same(o[i], f.dspec(0, x)[i] * y[i]) for i in range(2)])), False),
    ("square", _contract(lambda x, y, f: jnp.sum(x * x), lambda S, x, y, f, o: X_le(xf(0), S.s(o))), True),
    ("square-broken", _contract(lambda x, y, f: jnp.sum(x * y), lambda S, x, y, f, o: X_le(xf(0), S.s(o))), False),
    ("nan", _contract(lambda x, y, f: jnp.where(x[0] < y[0], x[0], y[0]), lambda S, x, y, f, o: implies(X_lt(x[0], y[0]), X_same(S.s(o), x[0])), finite=False), True),
    ("nan-broken", _contract(lambda x, y, f: jnp.where(x[0] >= y[0], y[0], x[0]), lambda S, x, y, f, o: implies(not_(X_lt(x[0], y[0])), X_same(S.s(o), y[0])), finite=False), False),
]


def _term(rng, vs, at, depth):
    """A random term and its value."""
    if not depth or rng.random() < 0.15:
        if rng.random() < 0.2:
            c = Fraction(rng.randint(-3, 3), rng.randint(1, 3))
            return z3.RealVal(str(c)), c
        i = rng.randrange(len(vs))
        return vs[i], at[i]
    a, u = _term(rng, vs, at, depth - 1)
    b, v = _term(rng, vs, at, depth - 1)
    k = rng.choice("+-*/*")
    if k == "/" and v == 0:
        k = "*"
    return {"+": lambda: (a + b, u + v), "-": lambda: (a - b, u - v), "*": lambda: (a * b, u * v), "/": lambda: (a / b, u / v)}[k]()


def _value(p, at):
    out = Fraction(0)
    for m, c in p.items():
        for a, e in m:
            c = c * at[a] ** e
        out += c
    return out


def algebra(seed, n):
    rng, bad = random.Random(seed), []
    vs = [z3.Real(f"v{i}") for i in range(6)]
    for _ in range(n):
        at = [Fraction(rng.choice([-3, -2, -1, 1, 2, 3, 5]), rng.choice([1, 2, 7])) for _ in vs]
        roots = rng.random() < 0.5  # the last variable is a square root
        if roots:
            at[0] = at[-1] ** 2
        ids = {v.get_id(): x for v, x in zip(vs, at)}
        ring = R.Ring({vs[-1].get_id(): vs[0]} if roots else {})
        t, v = _term(rng, vs, at, 4)
        try:
            r = ring.tidy(ring.of(t))
        except R.TooBig:  # division by zero
            continue
        d = Fraction(1)
        for p, e in r.d.values():
            d *= _value(p, ids) ** e
        if d == 0 or _value(r.n, ids) / d != v:
            bad.append(("value", str(t), v))
        if ring.zero(t, t + 1) or not ring.zero(t, t):
            bad.append(("zero", str(t)))
        # hypotheses that hold at the point: whatever follows from them holds there
        hs = []
        for _ in range(3):
            h, w = _term(rng, vs[1:], at[1:], 3)
            if z3.is_rational_value(z3.simplify(h)):
                continue
            hs.append((h, w))
        ring = R.Ring()
        try:
            hs = [p for p in (ring.of(h - z3.RealVal(str(w))).n for h, w in hs) if p and _value(p, ids) == 0]
            g, w = _term(rng, vs[1:], at[1:], 3)
            goal = ring.of(g).n
        except R.TooBig:
            continue
        p, rest = R.eliminate(goal, hs)
        if _value(p, ids) != _value(goal, ids) or any(_value(h, ids) for h in rest):
            bad.append(("eliminate", str(g)))
        if _value(goal, ids) != 0 and R.combination(p, rest):
            bad.append(("combination", str(g)))
        q = {}
        for h in hs:
            q = R.p_add(q, R.p_mul(h, ring.of(vs[rng.randrange(6)] + 2).n))
        if len(hs) == 1 and not R.combination(*R.eliminate(q, hs)):
            bad.append(("missed", [len(h) for h in hs]))
    return bad


def main(seed=0):
    bad = crosscheck(seed, 12) + algebra(seed, 300)
    for b in bad[:10]:
        print("disagreement:", b)
    err = bool(bad)
    for name, fn, good in TOYS:
        r = process(Obligation(name, fn, ["toy"], search=60), "quick", seed)
        ok = (r["discharged"] == r["obligations"] and not r["violation"] and not r["errors"]) if good else bool(r["violation"] and r["violation"]["failing_input"])
        if not ok:
            err = True
            print("self-test failed:", name, r["violation"], r["errors"], r["undecided"])
    print(f"self-test: {len(FNS)} functions cross-checked, {len(TOYS)} toy contracts, {'FAILED' if err else 'ok'}")
    return 3 if err else 0
