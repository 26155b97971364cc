"""C07: auxiliary output and trial bookkeeping belong to the right point."""

from vc.core import *
from vc.driver import T, code_of
from vc.nm import Simplex
from vc.runner import Property
from vc.search import *
from vc.specs.c14 import run as bisection
from vc.specs.c15 import NewtonRun
from vc.specs.c17 import Golden
from vc.specs.c21 import Opt
from vc.xf import *

prop = Property("C07", [
    "searches, descents and Hessian updates written by the user are pure functions of what the interface passes them",
])


def refines(flavour, **kw):
    def ob(S):
        M = Machine(S, flavour, **kw)
        c, new, obs = M.run()
        S.check("moves to the trial point iff the search accepts", S.same(new["y"], obs["spec_y"]))
        S.check("aux is that of the iterate the step was given", S.same(obs["real_aux"], obs["aux"]))

    return ob


F = {"gd": ["AbstractGradientDescent.init", "AbstractGradientDescent.step", "lin_to_grad", "filter_cond"],
     "gn": ["AbstractGaussNewton.init", "AbstractGaussNewton.step", "_make_f_info", "filter_cond"],
     "qn": ["AbstractQuasiNewton.init", "AbstractQuasiNewton.step", "lin_to_grad", "filter_cond"]}
for ys in ("vec", "dict", "nested"):
    prop.ob(f"gradient-descent.{ys}", F["gd"])(refines("gd", ystruct=ys))
    prop.ob(f"gauss-newton.{ys}", F["gn"])(refines("gn", ystruct=ys))
    prop.ob(f"quasi-newton.{ys}", F["qn"])(refines("qn", ystruct=ys))
for ys in ("vec", "dict"):
    prop.ob(f"quasi-newton.direct.{ys}", F["qn"])(refines("qn", ystruct=ys, use_inverse=False))
    prop.ob(f"gauss-newton.reverse mode.{ys}", F["gn"])(refines("gn", ystruct=ys, options=dict(jac="bwd")))
    prop.ob(f"gradient-descent.forward mode.{ys}", F["gd"])(refines("gd", ystruct=ys, options=dict(autodiff_mode="fwd")))
    prop.ob(f"quasi-newton.forward mode.{ys}", F["qn"])(refines("qn", ystruct=ys, options=dict(autodiff_mode="fwd")))

# methods without trial points
AUX = "aux is that of the iterate the step was given"


def newton(cls, **kw):
    def ob(S):
        N = NewtonRun(S, cls, **kw)
        c, new, obs = N.run()
        S.check(AUX, S.same(obs["aux"], obs["spec_aux"]))

    return ob


def fixed_point(ys, damp):
    def ob(S):
        mk = lambda r, t, *e: optx.FixedPointIteration(r, t, **(dict(damp=e[0]) if e else {}))
        M = Plain(S, mk, "fp", ys)
        if damp:
            M.extra = (S.float("damp", hint=(0, 1)),)
        c, new, obs = M.run()
        S.check(AUX, S.same(obs["aux"], M.prob.aux(c["y"])))

    return ob


def golden(S):
    """The initial guess is ignored, the first point evaluated is another one."""
    M = Golden(S)
    c, new, obs = M.run()
    S.check(AUX, implies(not_(c["g"]["first"].item()), S.same(obs["aux"], M.prob.aux(c["y"]))))


def simplex(ys):
    def ob(S):
        M = Simplex(S, ys)
        c, new, obs = M.run()
        S.check(AUX, S.same(obs["aux"], M.prob.aux(c["y"])))

    return ob


def simplex_start(ys):
    def ob(S):
        M = Simplex(S, ys)
        y0 = S.like(M.prob.ys, "y0")
        y1, st, aux = M.real_step(y0, M.real_init(y0))
        S.check(AUX, S.same(aux, M.prob.aux(y0)))
        y2, st, aux = M.real_step(y1, st)
        S.check(AUX + " (second step)", S.same(aux, M.prob.aux(y1)))

    return ob


def optax_(ys):
    def ob(S):
        O = Opt(S, ys)
        c, new, obs = O.M.run()
        S.check(AUX, S.same(obs["aux"], O.M.prob.aux(c["y"])))

    return ob


FN = ["_AbstractNewtonChord.init", "_AbstractNewtonChord.step", "_NoAux.__call__"]
for cls in (optx.Newton, optx.Chord):
    nm = cls.__name__.lower()
    for ys in ("scalar", "dict"):
        prop.ob(f"{nm}.cauchy.{ys}", FN)(newton(cls, ystruct=ys))
    prop.ob(f"{nm}.rate.vec.box", FN)(newton(cls, ystruct="vec", cauchy=False, lower=True, upper=True))
for ys in ("vec", "dict"):
    prop.ob(f"fixed-point.{ys}", ["FixedPointIteration.step"])(fixed_point(ys, False))
    prop.ob(f"fixed-point.damped.{ys}", ["FixedPointIteration.step"])(fixed_point(ys, True))
    prop.ob(f"optax.{ys}", ["OptaxMinimiser.init", "OptaxMinimiser.step"])(optax_(ys))
prop.ob("bisection", ["Bisection.init", "Bisection.step"])(bisection("detect"))
prop.ob("golden", ["GoldenSearch.init", "GoldenSearch.step"], depth=3)(golden)
for ys in ("scalar", "vec"):
    prop.ob(f"nelder-mead.{ys}", ["NelderMead.init", "NelderMead.step"])(simplex(ys))
    prop.ob(f"nelder-mead.start.{ys}", ["NelderMead.init", "NelderMead.step"])(simplex_start(ys))
