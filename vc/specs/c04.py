"""C04: conversions between problem types."""

from vc.core import *
from vc.driver import *
from vc.runner import Property
from vc.specs.c01 import inputs, outcome
from vc.specs.c02 import accounting
from vc.xf import *

prop = Property("C04", [
    "an opaque norm is non-negative and finite on finite input and infinite on infinite input",
])
CONV = [p for p in PAIRS if p[0] != p[1]]


def max_norm_spec(S, t):
    acc = xf(0)
    for e in S.scalars(t):
        acc = X.x_max(acc, abs(e))
    return T(acc)


def two_norm_spec(S, t):
    return T(X.x_sqrt(S.dot(t, t)))


def rms_norm_spec(S, t):
    return T(X.x_sqrt(S.dot(t, t) / xf(len(S.scalars(t)))))


NORMS = {"max": (optx.max_norm, max_norm_spec), "two": (optx.two_norm, two_norm_spec), "rms": (optx.rms_norm, rms_norm_spec)}


def posed(entry, family, max_steps=64, norm=None, ints=False, throw=False, **kw):
    def ob(S):
        P = Setup(S, entry, family, norm="opaque" if norm is None else NORMS[norm][0], **kw)
        y0, args, o, c = inputs(S, P)
        if ints:
            y0 = S.like(jtu.tree_map(lambda s: struct(s.shape, np.int64), P.ys), "y0", ints=(-5, 5))
        yf = S.map(lambda e: xf(e), y0)
        R = Run(P, yf, args, o, c)
        sol = S.run(lambda y0, args, o, c: P.solve(y0, args, o, c, max_steps=max_steps), y0, args, o, c, loop=R.handler(max_steps))
        accounting(S, P, R, sol, max_steps)
        N = S.s(sol.stats["num_steps"])
        h, st, want = outcome(S, R, N, max_steps)
        code = S.s(code_of(sol.result))
        S.check("result code", X.i_eq(code, want))
        if R.rootconv:
            S.check("success needs a small residual", implies(X.i_eq(code, 0), and_(P.norm_spec(h["F"]).item() < xf(P.atol), X.i_lt(0, N))))

    return ob


def norm_is(name, tree):
    def ob(S):
        t = S.like(tree, "x", finite=False)
        out = S.run(NORMS[name][0], t)
        want = NORMS[name][1](S, t)
        fin = S.finite_(t)
        S.check("value", implies(fin, S.same(out, want)))
        S.check("infinite", implies(and_(or_(*[e.inf for e in S.scalars(t)]), not_(or_(*[e.nan for e in S.scalars(t)]))), S.s(out).pinf))
        S.check("nan", implies(or_(*[e.nan for e in S.scalars(t)]), S.s(out).nan))

    return ob


def rejected(entry, family, what):
    def ob(S):
        P = Setup(S, entry, family, ystruct="vec")
        y0, args, o, c = inputs(S, P)
        bad = {
            "shape": lambda y, a: (jnp.concatenate([y, y]), {"user_u": jnp.zeros(())}),
            "tree": lambda y, a: ((y, y), {"user_u": jnp.zeros(())}),
            "vector": lambda y, a: (y, {"user_u": jnp.zeros(())}),
        }[what]
        raised, _ = S.run_raises(
            lambda y0, args: ENTRY[entry](bad, P.solver, y0, args, has_aux=True, throw=False, options=dict(my_option=1.0), tags=P.tags), y0, args, pyexc=(Exception,)
        )
        S.check("rejected", raised)

    return ob


F = ["iterative_solve", "_iterate"]
for e, f in CONV:
    fs = F + [ENTRY[e].__name__]
    prop.ob(f"{e}-via-{f}", fs)(posed(e, f))
    prop.ob(f"{e}-via-{f}.no-aux", fs)(posed(e, f, has_aux=False, ystruct="vec"))
    prop.ob(f"{e}-via-{f}.int-guess", fs)(posed(e, f, ints=True, ystruct="vec", outstruct="scalar", options=False))
for e, f in (("root", "min"), ("fp", "min"), ("root", "lsq"), ("fp", "lsq")):
    for n in NORMS:
        if f == "min" and n != "max":
            continue  # covered by the opaque norm and the contracts of the norms below
        prop.ob(f"{e}-via-{f}.{n}-norm", F + [ENTRY[e].__name__, n + "_norm"])(posed(e, f, norm=n, ystruct="vec", outstruct="vec"))
for e in ("fp", "root", "lsq", "min"):
    prop.ob(f"{e}.int-guess", F + [ENTRY[e].__name__])(posed(e, e, ints=True, ystruct="dict"))
for f in ("fp", "root", "lsq", "min"):
    prop.ob(f"fp-via-{f}.reject-shape", ["fixed_point"], samples=1)(rejected("fp", f, "shape"))
    prop.ob(f"fp-via-{f}.reject-tree", ["fixed_point"], samples=1)(rejected("fp", f, "tree"))
prop.ob("min.reject-vector", ["minimise"], samples=1)(rejected("min", "min", "vector"))
for n in NORMS:
    prop.ob(f"{n}_norm", [n + "_norm"])(norm_is(n, {"p": struct((3,)), "q": struct(())}))
    prop.ob(f"{n}_norm.scalar", [n + "_norm"])(norm_is(n, struct(())))
