"""C06: safeguarded solvers never return a worse point than they were given.

Modular: the searches are shown to accept only points that are no worse (respectively so
wherever their model predicts no increase); the solvers are shown to be monotone for any
search with that contract.
"""

from vc.core import *
from vc.driver import T, code_of
from vc.runner import Property
from vc.search import *
from vc.specs.c08 import params as armijo_params
from vc.specs.c09 import mk as region
from vc.specs.c09 import params as region_params
from vc.specs.c09 import predicted
from vc.xf import *

prop = Property("C06", [
    "descents and Hessian updates are any pure functions; user functions may return NaN or infinite values where an instance says so",
])
F = {"gd": ["AbstractGradientDescent.init", "AbstractGradientDescent.step"],
     "gn": ["AbstractGaussNewton.init", "AbstractGaussNewton.step"],
     "qn": ["AbstractQuasiNewton.init", "AbstractQuasiNewton.step"]}
FS = {"armijo": ["BacktrackingArmijo.init", "BacktrackingArmijo.step", "FunctionInfo.as_min", "FunctionInfo.compute_grad_dot"],
      "linear": ["_AbstractTrustRegion.step", "LinearTrustRegion.predict_reduction"],
      "classical": ["_AbstractTrustRegion.step", "ClassicalTrustRegion.predict_reduction"]}


def search(which, kind, ys, outs="pair", own=None, full=False):
    """Any step of the search (or of that of a solver), whatever its state."""

    def ob(S):
        I = Infos(S, kind, ys, outs, full)
        if which == "armijo":
            p, ok = armijo_params(S)
            mk = lambda p: optx.BacktrackingArmijo(p["df"], p["sl"], p["si"])
        else:
            p, ok = region_params(S)
            ok = and_(ok, xf(0) <= p["lc"].item())
            cls = optx.LinearTrustRegion if which == "linear" else optx.ClassicalTrustRegion
            mk = lambda p: region(cls, p)
        S.assume(ok)
        if own is not None:
            mk = lambda p: own().search
        y0, d0 = S.like(I.ys, "y0"), I.draw("info0")
        st0 = S.run(lambda p, y, d: mk(p).init(y, jax.eval_shape(lambda: I.mk(d))), p, y0, d0)
        st = S.like(S.shape_of(st0), "state")
        y, ye = S.like(I.ys, "y"), S.like(I.ys, "trial")
        d, de = I.draw("info"), I.draw_eval("eval", finite=False)
        ss, acc, res, _ = S.run(lambda p, y, ye, d, de, st: mk(p).step(jnp.array(False), y, ye, I.mk(d), I.mk_eval(de), st), p, y, ye, d, de, st)
        good = I.loss(de) <= I.loss(d)
        if which != "armijo":
            diff = np.array(S.scalars(S.map(lambda a, b: a - b, ye, y)), dtype=object)
            good = implies(predicted(S, cls, I, d, diff) <= xf(0), good)
        S.check("accepts only points that are no worse", implies(S.s(acc), good))

    return ob


for which, kinds in (("armijo", ("eg", "egh", "eghi", "rj")), ("linear", ("eg", "egh", "eghi", "rj")), ("classical", ("egh", "rj"))):
    for kind in kinds:
        for ys in ("scalar", "vec") if (which, kind) == ("classical", "rj") else ("vec", "dict"):
            prop.ob(f"search.{which}.{kind}.{ys}", FS[which])(search(which, kind, ys))
            if kind == "rj":
                prop.ob(f"search.{which}.{kind}.{ys}.trial with Jacobian", FS[which])(search(which, kind, ys, full=True))


def never_worse(flavour, guard, **kw):
    def ob(S):
        M = Machine(S, flavour, guard=guard, norm=optx.max_norm, **kw)
        c, new, obs = M.run()
        P = M.prob
        good = or_(S.same(new["y"], c["y"]), P.loss(new["y"]) <= P.loss(c["y"]))
        if guard == "model":
            # on the first step the trial point is the initial guess itself
            pred = M.G.pred.spec(*jtu.tree_leaves((c["y"], obs["trial"]), is_leaf=is_sym)).item()
            good = implies(and_(not_(obs["first"]), pred <= xf(0)), good)
            good = and_(good, implies(obs["first"], S.same(new["y"], c["y"])))
        S.check("no step increases the objective", good)

    return ob




for fl in ("gd", "gn", "qn"):
    for guard in ("always", "model"):
        for ys in ("vec", "dict"):
            prop.ob(f"{fl}.{guard}.{ys}", F[fl])(never_worse(fl, guard, ystruct=ys))
            prop.ob(f"{fl}.{guard}.{ys}.non-finite values", F[fl])(never_worse(fl, guard, ystruct=ys, finite="derivatives"))

OWN = {
    "BFGS": ("armijo", "eghi", lambda: optx.BFGS(1e-3, 1e-3)),
    "BFGS.direct": ("armijo", "egh", lambda: optx.BFGS(1e-3, 1e-3, use_inverse=False)),
    "DFP": ("armijo", "eghi", lambda: optx.DFP(1e-3, 1e-3)),
    "LBFGS": ("armijo", "eghi", lambda: optx.LBFGS(1e-3, 1e-3)),
    "NonlinearCG": ("armijo", "eg", lambda: optx.NonlinearCG(1e-3, 1e-3)),
    "LevenbergMarquardt": ("classical", "rj", lambda: optx.LevenbergMarquardt(1e-3, 1e-3)),
    "IndirectLevenbergMarquardt": ("classical", "rj", lambda: optx.IndirectLevenbergMarquardt(1e-3, 1e-3)),
    "Dogleg": ("classical", "rj", lambda: optx.Dogleg(1e-3, 1e-3)),
}
for nm, (which, kind, own) in OWN.items():
    prop.ob(f"search of {nm}", FS[which] + [nm.split(".")[0] + ".__init__"])(search(which, kind, "vec", own=own, full=kind == "rj"))
