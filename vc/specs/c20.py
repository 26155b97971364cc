"""C20: convergence is declared only when both iterate and objective have settled."""

from vc.core import *
from vc.driver import CODE, T, code_of
from vc.nm import Simplex
from vc.runner import Property
from vc.search import *
from vc.specs.c17 import Golden
from vc.specs.c21 import wrapper as optax_steps
from vc.xf import *

prop = Property("C20", ["searches and descents written by the user are pure functions of what the interface passes them"])
F = {"gd": ["AbstractGradientDescent.init", "AbstractGradientDescent.step", "AbstractGradientDescent.terminate", "cauchy_termination"],
     "gn": ["AbstractGaussNewton.init", "AbstractGaussNewton.step", "AbstractGaussNewton.terminate", "cauchy_termination"],
     "qn": ["AbstractQuasiNewton.init", "AbstractQuasiNewton.step", "AbstractQuasiNewton.terminate", "cauchy_termination"]}


def settles(flavour, **kw):
    def ob(S):
        norm = kw.get("norm")
        k = dict(kw, norm=getattr(optx, norm) if norm else None)
        M = Machine(S, flavour, **k)
        c, new, obs = M.run()
        flag, code = M.terminate(new)
        if flavour == "gn":
            # on the first step a residual that is itself within tolerance of zero
            ok = or_(and_(obs["first"], obs["zero residual"]), and_(not_(obs["first"]), obs["settled"]))
        else:
            ok = and_(not_(obs["first"]), obs["settled"])
        S.check("stops exactly when an accepted step has settled", implies(X.i_eq(obs["code"], 0), iff(flag, and_(obs["acc"], ok))))

    return ob


def start(flavour, **kw):
    def ob(S):
        M = Machine(S, flavour, **kw)
        P = M.prob
        y0 = S.like(P.ys, "y0")
        st = S.run(lambda y, a, r, t: M.mk(r, t).init(P.fn, y, a, M.options, M.f_struct, M.aux_struct, M.tags), y0, P.args, M.rtol, M.atol, key="init")
        flag, code = M.terminate(dict(y=y0, st=st))
        S.check("does not stop before the first step", not_(flag))

    return ob


for fl in ("gd", "gn", "qn"):
    for ys in ("scalar", "vec", "dict", "nested"):
        prop.ob(f"{fl}.{ys}", F[fl])(settles(fl, ystruct=ys))
    prop.ob(f"{fl}.start", F[fl])(start(fl))
    for n, ys in (("max_norm", "dict"), ("two_norm", "vec"), ("rms_norm", "scalar")):
        prop.ob(f"{fl}.{n}.{ys}", F[fl] + [n])(settles(fl, ystruct=ys, outstruct="scalar" if n == "rms_norm" else "pair", norm=n))
    prop.ob(f"{fl}.max_norm.vec.non-finite values", F[fl] + ["max_norm"])(settles(fl, ystruct="vec", norm="max_norm", finite="derivatives"))


def golden(S):
    M = Golden(S)
    c, new, obs = M.run()
    flag, code = M.terminate(new)
    rt, at = M.rtol.item(), M.atol.item()
    t, mid = M.trial(c), c["g"]["mid"].item()
    dy = (abs(mid - t) / (at + rt * abs(mid))).lt(xf(1))
    df = (abs(M.f(mid) - M.f(t)) / (at + rt * abs(M.f(mid)))).lt(xf(1))
    S.check("stops exactly when the interior points and their values agree", iff(flag, and_(dy, df)))
    S.check("reports success", X.i_eq(code, 0))


def golden_start(S):
    M = Golden(S)
    flag, code = M.terminate(M.init(S))
    S.check("does not stop before the first step", not_(flag))


def simplex(ys, norm=None, finite=True):
    def ob(S):
        if norm is None:
            nrm = AnyNorm(S)
            nf, ns = (lambda t: nrm(t)), (lambda t: nrm.spec(t).item())
        else:
            nf = getattr(optx, norm)
            ns = lambda t: S.s(S.run(nf, t, key="norm" + str(len(S.scalars(t)))))
        M = Simplex(S, ys, nf)
        c, new, obs = M.run()
        rt, at = M.rtol.item(), M.atol.item()
        V, F = M.rows(c["g"]["V"]), list(c["g"]["F"])
        bi, fb = M.arg(F, lambda a, b: a.lt(b))
        best = M.pick(V, bi)
        flag, code = M.terminate(c)
        dy = ns(M.tree([S.map(lambda v, b: abs(v - b) / (at + rt * abs(b)), v, best) for v in V])).lt(xf(1))
        df = ns(sarr(np.array([abs(f - fb) / (at + rt * abs(fb)) for f in F], dtype=object))).lt(xf(1))
        S.check("stops exactly when all vertices and values agree with the best", iff(flag, and_(dy, df)))
        S.check("reports success", X.i_eq(code, 0))

    return ob


def simplex_start(ys):
    def ob(S):
        M = Simplex(S, ys)
        y0 = S.like(M.prob.ys, "y0")
        flag, code = M.terminate(dict(y=y0, st=M.real_init(y0)))
        S.check("does not stop successfully before the first step", not_(and_(flag, X.i_eq(code, 0))))

    return ob


def simplex_values(ys):
    """Vertices at which the function is not finite."""

    def ob(S):
        M = Simplex(S, ys, optx.max_norm, finite=False)
        y0 = S.like(M.prob.ys, "y0")
        st = M.real_init(y0)
        V = M.rows(M.simplex_of(st))
        y1, st, aux = M.real_step(y0, st)
        flag, code = M.terminate(dict(y=y1, st=st))
        for k, v in enumerate(V):
            S.check(f"does not stop successfully with a non-finite value ({k})", implies(not_(M.at(v).finite), not_(and_(flag, X.i_eq(code, 0)))))

    return ob


FG = ["GoldenSearch.init", "GoldenSearch.step", "GoldenSearch.terminate", "cauchy_termination"]
FM = ["NelderMead.init", "NelderMead.step", "NelderMead.terminate"]
FO = ["OptaxMinimiser.init", "OptaxMinimiser.step", "OptaxMinimiser.terminate", "cauchy_termination"]
prop.ob("golden", FG, depth=3)(golden)
prop.ob("golden.start", FG)(golden_start)
for ys in ("scalar", "vec"):
    prop.ob(f"nelder-mead.{ys}", FM)(simplex(ys))
    prop.ob(f"nelder-mead.start.{ys}", FM)(simplex_start(ys))
    prop.ob(f"nelder-mead.non-finite values.{ys}", FM + ["max_norm"])(simplex_values(ys))
prop.ob("nelder-mead.nested", FM)(simplex("nested"))
prop.ob("nelder-mead.max_norm.vec", FM + ["max_norm"])(simplex("vec", norm="max_norm"))
prop.ob("nelder-mead.rms_norm.scalar", FM + ["rms_norm"])(simplex("scalar", norm="rms_norm"))
for ys in ("vec", "dict"):
    prop.ob(f"optax.{ys}", FO)(optax_steps(ys))
prop.ob("optax.max_norm.dict", FO)(optax_steps("dict", norm="max_norm"))
prop.ob("optax.max_norm.non-finite updates", FO)(optax_steps("dict", norm="max_norm", finite=False))
