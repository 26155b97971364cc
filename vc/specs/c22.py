"""C22: the SciPy-style front end."""

import optimistix as optx
from optimistix import compat

from vc.core import *
from vc.driver import T, code_of
from vc.prove import houdini, same_loops
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C22", ["fun and jac are compared with the objective for iteration limits of at least one (with a limit of zero nothing is evaluated)"])
FN = ["compat.minimize"]
N = 2
MAX = int(np.asarray(code_of(optx.RESULTS.nonlinear_max_steps_reached)))


def bowl(rng, x):
    """Bounded below, so that unlimited runs end."""
    A = rng.normal(size=(x.size, x.size))
    b = rng.normal(size=x.size)
    z = A @ x + b
    return jnp.sum(z**2) + 0.5 * jnp.sum(jnp.sin(z)) + 0.1 * jnp.sum(x**2)


class Front:
    def __init__(self, S, extra=True, maxiter=None, norm=None, tol=True, how="BFGS"):
        self.S = S
        self.U = S.fn("U", struct(()), finite=True, smooth=bowl)
        self.x0 = S.float("x0", (N,))
        self.args = (S.float("a"), S.float("b", (2,))) if extra else ()
        self.tol = (S.float("tol", hint=(1e-6, 1e-1)) if tol else None) if isinstance(tol, bool) else tol
        if tol is True:
            S.assume(xf(0).lt(self.tol.item()))
        self.maxiter, self.how = maxiter, how
        self.opts = {} if maxiter is None else dict(maxiter=maxiter)
        self.norm = optx.max_norm
        if norm == "opaque":
            nrm = AnyNorm(S)
            self.norm = lambda t: nrm(t)
        elif norm:
            self.norm = getattr(optx, norm)
        if norm:
            self.opts["norm"] = self.norm

    def fun(self, x, *args):
        return self.U(x, args)

    def go(self, x0, args, tol):
        kw = dict(args=args) if args else {}
        if tol is not None:
            kw["tol"] = tol
        if self.opts:
            kw["options"] = self.opts
        return compat.minimize(self.fun, x0, method=self.how, **kw)

    def reference(self, x0, args, tol):
        t = 1e-5 if tol is None else tol
        fn = lambda y, a: self.fun(y, *a)
        return optx.minimise(fn, optx.BFGS(rtol=t, atol=t, norm=self.norm), x0, args, max_steps=self.maxiter, throw=False)


def fits(tree, shape, kind):
    return [l for l in jtu.tree_leaves(tree, is_leaf=is_sym) if is_sym(l) and l.shape == shape and elem_kind(l.reshape(-1)[0]) == kind]


def forwards(**kw):
    """Same run as BFGS through the native interface."""

    def ob(S):
        F = Front(S, **kw)
        h = same_loops()
        want = S.run(F.reference, F.x0, F.args, F.tol, loop=h)
        n = len(h.seen)
        got = S.run(F.go, F.x0, F.args, F.tol, loop=h)
        if len(h.seen) != n:
            raise Unsupported("the two solves run different loops")
        code = S.s(code_of(want.result))
        ok = X.i_eq(code, 0)
        S.check("x", S.same(got.x, want.value))
        S.check("success", iff(S.s(got.success), ok))
        status = X.i_ite(ok, 0, X.i_ite(X.i_eq(code, MAX), 1, 3))
        S.check("status", X.i_eq(S.s(got.status), status))
        S.check("nfev", X.i_eq(S.s(got.nfev), S.s(want.stats["num_steps"])))
        (H,) = fits(want.state, (N, N), "f")
        S.check("hess_inv", S.same(got.hess_inv, H))
        counters = [l.item() for l in fits(want.state, (), "i")]
        S.check("nit", or_(*[X.i_eq(S.s(got.nit), c) for c in counters]))
        S.check("njev", or_(*[X.i_eq(S.s(got.njev), c) for c in counters]))

    return ob


def reports(**kw):
    """fun and jac are those of x."""

    def ob(S):
        F = Front(S, **kw)
        f = lambda x: F.U.spec(x, F.args).item()
        df = lambda x: F.U.dspec(0, x, F.args)

        start = {}

        def cands(S, carry):
            pts = [(i, a) for i, a in enumerate(carry) if a.shape == (N,)]
            ints = [(i, a.item()) for i, a in enumerate(carry) if a.shape == () and elem_kind(a.item()) == "i"]
            vals = [(i, a.item()) for i, a in enumerate(carry) if a.shape == () and elem_kind(a.item()) == "f"]
            out = [(f"counter {i}", X.i_le(0, k)) for i, k in ints]
            bools = [(i, a.item()) for i, a in enumerate(carry) if a.shape == () and elem_kind(a.item()) == "b"]
            zero = [(f"{k}=0", X.i_eq(n, 0)) for k, n in ints]
            start.update({i: b for i, b in bools if i not in start})
            out += [(f"unless {z}: not {i}", or_(g, not_(b))) for z, g in zero for i, b in bools if start[i] is True]
            out += [(f"{z}: not {i}", implies(g, not_(b))) for z, g in zero for i, b in bools if start[i] is False]
            out += [(f"{z}: {y}", implies(g, h)) for z, g in zero for y, h in zero if z != y]
            guards = zero + [(f"{i}", b) for i, b in bools if start[i] is True]
            for i, p in pts:
                for k, n in guards:
                    out += [(f"unless {k}: {j}=f({i})", or_(n, v.same(f(p)))) for j, v in vals]
                    out += [(f"unless {k}: {j}=grad({i})", or_(n, S.same(v, df(p)))) for j, v in pts if j != i]
            return out

        got = S.run(F.go, F.x0, F.args, F.tol, loop=houdini(cands, exact=False))
        S.check("fun is the objective at x", implies(S.finite_(got.x), got.fun.item().same(f(got.x))))
        S.check("jac is the gradient at x", implies(S.finite_(got.x), S.same(got.jac, df(got.x))))

    return ob


def accepts(S):
    F = Front(S)
    bad = [
        ("unknown method", dict(method="nelder-mead"), ValueError),
        ("unknown option", dict(method="bfgs", options=dict(gtol=1e-3)), ValueError),
        ("scalar x0", dict(x0=0), ValueError),
        ("matrix x0", dict(x0=1), ValueError),
        ("list x0", dict(x0=2), ValueError),
        ("args not a tuple", dict(args=[1.0]), TypeError),
    ]
    for name, kw, exc in bad:
        x0, args, m = kw.pop("x0", None), kw.pop("args", ()), kw.pop("method", "bfgs")

        def go(x):
            x = x if x0 is None else x[0] if x0 == 0 else x[None] if x0 == 1 else [1.0, 2.0]
            try:
                compat.minimize(lambda x, *a: jnp.sum(x**2), x, args, method=m, **kw)
            except exc:
                return jnp.array(True)
            return jnp.array(False)

        S.check("rejects " + name, S.s(S.run(go, F.x0, key=name, loop=same_loops())))
    for m in ("bfgs", "BFGS", "Bfgs"):

        def go(x):
            compat.minimize(lambda x, *a: jnp.sum(x**2), x, method=m)
            return jnp.array(True)

        S.check("accepts " + m, S.s(S.run(go, F.x0, key=m, loop=same_loops())))


prop.ob("forwards.plain", FN)(forwards(extra=False))
prop.ob("forwards.args", FN)(forwards())
prop.ob("forwards.default tol", FN)(forwards(tol=False))
for t in (0.0, 1e-5, 0.25):  # as numbers
    prop.ob(f"forwards.tol {t}", FN)(forwards(tol=t, maxiter=20))
for k in (1, 3, 256):
    prop.ob(f"forwards.maxiter {k}", FN)(forwards(maxiter=k))
prop.ob("forwards.maxiter 0", FN)(forwards(maxiter=0))
prop.ob("forwards.norm", FN)(forwards(norm="opaque", maxiter=20))
prop.ob("forwards.two_norm", FN)(forwards(norm="two_norm"))
prop.ob("forwards.lower case", FN)(forwards(how="bfgs"))
prop.ob("reports", FN)(reports())
prop.ob("reports.maxiter", FN)(reports(maxiter=3, extra=False))
prop.ob("arguments", FN)(accepts)
