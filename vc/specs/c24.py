"""C24: linear-solver failures surface as the failure of the solve."""

from vc.core import *
from vc.driver import T, code_of
from vc.lin import *
from vc.runner import Property
from vc.search import *
from vc.specs.c13 import Oracle
from vc.specs.c15 import NewtonRun
from vc.xf import *

prop = Property("C24", [
    "the linear solver is any function of the matrix and the right-hand side, returning a vector and a code",
    "the outcome of a solve is the code reported by the solver after the last step (C01)",
])
F = {"gd": ["AbstractGradientDescent.step", "AbstractGradientDescent.terminate"],
     "gn": ["AbstractGaussNewton.step", "AbstractGaussNewton.terminate"],
     "qn": ["AbstractQuasiNewton.step", "AbstractQuasiNewton.terminate"]}


def solver_reports(flavour, **kw):
    """What the search or the descent of a step reports is what the solver reports."""

    def ob(S):
        M = Machine(S, flavour, **kw)
        c, new, obs = M.run()
        flag, code = M.terminate(new)
        S.check("reports the code of the step", X.i_eq(code, obs["code"]))
        S.check("a failing descent is reported", implies(and_(X.i_eq(obs["scode"], 0), not_(X.i_eq(obs["dcode"], 0))), X.i_eq(code, obs["dcode"])))
        S.check("no failure without one", implies(and_(X.i_eq(obs["scode"], 0), X.i_eq(obs["dcode"], 0)), X.i_eq(code, 0)))

    return ob


for fl in ("gd", "gn", "qn"):
    for ys in ("vec", "dict"):
        prop.ob(f"solver.{fl}.{ys}", F[fl])(solver_reports(fl, ystruct=ys))


def newton(cls, cauchy, ys):
    def ob(S):
        N = NewtonRun(S, cls, cauchy=cauchy, ystruct=ys)
        c, new, obs = N.run()
        flag, code = N.terminate(new)
        failed = not_(X.i_eq(obs["code"], 0))
        S.check("stops with the code of the failed linear solve", implies(failed, and_(flag, X.i_eq(code, obs["code"]))))
        S.check("a successful linear solve is not reported as a failure", implies(not_(failed), or_(X.i_eq(code, 0), X.i_eq(code, int(np.asarray(code_of(optx.RESULTS.nonlinear_divergence)))))))

    return ob


for cls in (optx.Newton, optx.Chord):
    for ca in (True, False):
        for ys in ("vec", "dict"):
            prop.ob(f"{cls.__name__.lower()}.{'cauchy' if ca else 'rate'}.{ys}", ["_AbstractNewtonChord.step", "_AbstractNewtonChord.terminate"])(newton(cls, ca, ys))

DESCENTS = {
    "newton": (lambda s: optx.NewtonDescent(linear_solver=s), ("egh", "rj"), ["NewtonDescent.query", "NewtonDescent.step", "newton_step"]),
    "damped": (lambda s: optx.DampedNewtonDescent(linear_solver=s), ("egh", "rj"), ["DampedNewtonDescent.query", "DampedNewtonDescent.step", "damped_newton_step"]),
    "dogleg": (lambda s: optx.DoglegDescent(linear_solver=s), ("egh", "rj"), ["DoglegDescent.query", "DoglegDescent.step", "newton_step"]),
}
SOLVERS = {
    "GaussNewton": lambda s: optx.GaussNewton(1e-3, 1e-3, linear_solver=s).descent,
    "LevenbergMarquardt": lambda s: optx.LevenbergMarquardt(1e-3, 1e-3, linear_solver=s).descent,
    "Dogleg": lambda s: optx.Dogleg(1e-3, 1e-3, linear_solver=s).descent,
}


def descent(mk, kind, ys, damped, outs="pair"):
    """For the information of the latest query, whatever came before."""

    def ob(S):
        I = Infos(S, kind, ys, outs)
        L = Lin(S)
        D = mk(L.solver())
        y0, y, d0, d, de = S.like(I.ys, "y0"), S.like(I.ys, "y"), I.draw("info0"), I.draw("info"), I.draw("earlier")
        ss = S.float("size", hint=(0, 2))
        S.assume(xf(1e-3).lt(ss.item()))

        def go(y0, y, d0, d, de, ss):
            st = D.init(y0, jax.eval_shape(lambda: I.mk(d0)))
            st = D.query(y0, I.mk(de), st)
            st = D.query(y, I.mk(d), st)
            u, r = D.step(ss, st)
            return code_of(r)

        code = S.s(S.run(go, y0, y, d0, d, de, ss))
        n, m = I.n, I.m
        A = np.asarray(d["J"] if kind == "rj" else d["H"])
        b = S.scalars(d["r"]) if kind == "rj" else S.scalars(d["g"])
        if damped:
            lam = xf(1) / ss.item()
            diag = lambda v: np.array([[v if i == j else xf(0) for j in range(n)] for i in range(n)], dtype=object)
            if kind == "rj":
                A = np.concatenate([A, diag(X.x_sqrt(lam))])
                b = list(b) + [xf(0)] * n
            else:
                A = A + diag(lam)
        _, want = L.spec(sarr(A), sarr(np.array(b, dtype=object)))
        S.check("reports the code of the linear solve", X.i_eq(code, want))

    return ob


for nm, (mk, kinds, fns) in DESCENTS.items():
    for kind in kinds:
        for ys in ("vec", "dict"):
            prop.ob(f"descent.{nm}.{kind}.{ys}", fns)(descent(mk, kind, ys, nm == "damped"))
for nm, mk in SOLVERS.items():
    prop.ob(f"descent of {nm}", [nm + ".__init__"])(descent(mk, "rj", "vec", nm == "LevenbergMarquardt"))


def indirect(mk, kind, ys, outs="pair"):
    """For any damping the search for the length of the step comes up with."""

    def ob(S):
        I = Infos(S, kind, ys, outs)
        L = Lin(S)
        y0, y, d0, d, de = S.like(I.ys, "y0"), S.like(I.ys, "y"), I.draw("info0"), I.draw("info"), I.draw("earlier")
        ss, lam = S.float("size", hint=(0, 2)), S.float("damping", hint=(0.5, 2))
        a = lam.item()
        S.assume(xf(Fraction(1, 10**5)) <= a, a <= xf(10**5))

        def go(y0, y, d0, d, de, ss, lam):
            D = mk(L.solver(), Oracle(lam, lam, jnp.array(1.0)))
            st = D.init(y0, jax.eval_shape(lambda: I.mk(d0)))
            st = D.query(y0, I.mk(de), st)
            st = D.query(y, I.mk(d), st)
            u, r = D.step(ss, st)
            return code_of(r)

        code = S.s(S.run(go, y0, y, d0, d, de, ss, lam))
        n = I.n
        A = np.asarray(d["J"] if kind == "rj" else d["H"])
        b = S.scalars(d["r"]) if kind == "rj" else S.scalars(d["g"])
        _, newton = L.spec(sarr(A), sarr(np.array(b, dtype=object)))
        diag = lambda v: np.array([[v if i == j else xf(0) for j in range(n)] for i in range(n)], dtype=object)
        S.assume(xf(Fraction(1, 10**6)).lt(xf(1) / a))
        l = xf(1) / (xf(1) / a)
        if kind == "rj":
            A, b = np.concatenate([A, diag(X.x_sqrt(l))]), list(b) + [xf(0)] * n
        else:
            A = A + diag(l)
        _, damped = L.spec(sarr(A), sarr(np.array(b, dtype=object)))
        failed = not_(X.i_eq(newton, 0))
        S.check("reports a failing Newton solve", implies(failed, X.i_eq(code, newton)))
        S.check("the Newton step itself does not fail otherwise", implies(and_(not_(failed), xf(1) <= ss.item()), X.i_eq(code, 0)))
        S.check("reports the code of the damped solve", implies(and_(not_(failed), ss.item().lt(xf(1))), X.i_eq(code, damped)))

    return ob


IS = ["IndirectDampedNewtonDescent.query", "IndirectDampedNewtonDescent.step", "damped_newton_step", "newton_step"]
for kind, ys in (("egh", "vec"), ("egh", "dict"), ("rj", "scalar"), ("rj", "vec")):
    prop.ob(f"descent.indirect.{kind}.{ys}", IS)(indirect(lambda s, f: optx.IndirectDampedNewtonDescent(linear_solver=s, root_finder=f), kind, ys))
prop.ob("descent of IndirectLevenbergMarquardt", IS + ["IndirectLevenbergMarquardt.__init__"])(indirect(lambda s, f: optx.IndirectLevenbergMarquardt(1e-3, 1e-3, linear_solver=s, root_finder=f).descent, "rj", "vec"))
