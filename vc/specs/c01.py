"""C01: outcomes are truthful.  C02 and C03 reuse `solve_ob`."""

from vc.core import *
from vc.driver import *
from vc.runner import Property
from vc.xf import *

prop = Property("C01", [
    "user-written solvers are pure functions of what the interface passes them; their state holds floats, an integer, a flag and static data",
])


def inputs(S, P):
    y0 = S.like(P.ys, "y0", finite=False)
    args = S.float("args", (1,))
    o, c = S.float("option"), S.float("closed_over")
    return y0, args, o, c


def solved(S, entry, family, max_steps, adjoint=None, throw=False, **kw):
    P = Setup(S, entry, family, **kw)
    y0, args, o, c = inputs(S, P)
    R = Run(P, y0, args, o, c)
    if throw:
        raised, sol = S.run_raises(
            lambda y0, args, o, c: P.solve(y0, args, o, c, max_steps=max_steps, adjoint=adjoint, throw=True), y0, args, o, c, loop=R.handler(max_steps)
        )
        return P, R, raised, sol
    sol = S.run(lambda y0, args, o, c: P.solve(y0, args, o, c, max_steps=max_steps, adjoint=adjoint), y0, args, o, c, loop=R.handler(max_steps))
    return P, R, False, sol


def outcome(S, R, N, max_steps):
    h = R.at(N)
    st = R.status(h)
    want = X.i_ite(and_(X.i_eq(st["code"], CODE["successful"]), not_(st["term"])), CODE["nonlinear_max_steps_reached"], st["code"])
    return h, st, want


def truthful(entry, family, max_steps, **kw):
    def ob(S):
        P, R, _, sol = solved(S, entry, family, max_steps, **kw)
        N = S.s(sol.stats["num_steps"])
        code = S.s(code_of(sol.result))
        h, st, want = outcome(S, R, N, max_steps)
        ok = X.i_eq(code, CODE["successful"])
        S.check("success only if the solver converged", implies(ok, and_(st["term"], X.i_eq(st["code"], 0), st["finite"])))
        S.check("success reported when the solver converged", implies(and_(st["term"], X.i_eq(st["code"], 0)), ok))
        S.check("nonfinite reported", implies(not_(st["finite"]), X.i_eq(code, CODE["nonfinite"])))
        S.check("result code", X.i_eq(code, want))
        S.check("no step after the solver stopped", h["nostop"].item())

    return ob


for e, f in PAIRS:
    prop.ob(f"{e}-via-{f}", ["iterative_solve", "_iterate", ENTRY[e].__name__])(truthful(e, f, 256))
prop.ob("min.unlimited", ["iterative_solve", "_iterate", "minimise"])(truthful("min", "min", None, ystruct="vec"))
prop.ob("root.checkpointed", ["iterative_solve", "_iterate", "root_find", "RecursiveCheckpointAdjoint.apply"])(
    truthful("root", "root", 7, adjoint=optx.RecursiveCheckpointAdjoint(), ystruct="vec", outstruct="vec")
)
prop.ob("lsq.budget-1", ["iterative_solve", "_iterate", "least_squares"])(truthful("lsq", "lsq", 1, ystruct="scalar"))
prop.ob("fp.budget-0", ["iterative_solve", "_iterate", "fixed_point"])(truthful("fp", "fp", 0, ystruct="nested"))
