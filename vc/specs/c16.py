"""C16: fixed-point iteration."""

from vc.core import *
from vc.driver import T
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C16", ["the norm is any function with non-negative values, or a built-in one where an instance says so"])
FN = ["FixedPointIteration.init", "FixedPointIteration.step", "FixedPointIteration.terminate", "FixedPointIteration.postprocess"]


def iteration(ys, damp=False, norm=None, finite=True):
    def ob(S):
        if norm is None:
            nrm = AnyNorm(S)
            nf, ns = (lambda t: nrm(t)), (lambda t: nrm.spec(t).item())
        else:
            nf = getattr(optx, norm)
            ns = lambda t: S.s(S.run(nf, t, key="norm"))
        mk = lambda r, t, *e: optx.FixedPointIteration(r, t, norm=nf, **(dict(damp=e[0]) if e else {}))
        M = Plain(S, mk, "fp", ys, finite=finite)
        d = None
        if damp:
            d = S.float("damp", hint=(0, 1))
            M.extra = (d,)
        c, new, obs = M.run(finite=finite)
        P = M.prob
        f = P.f(c["y"])
        want = f if d is None else S.map(lambda a, b: (xf(1) - d.item()) * a + d.item() * b, f, c["y"])
        given = S.finite_(c["y"])
        S.check("next iterate", implies(given, S.same(new["y"], want)))
        S.check("aux is that of the iterate the step was given", S.same(obs["aux"], P.aux(c["y"])))
        rt, at = M.rtol.item(), M.atol.item()
        change = ns(S.map(lambda a, b: (a - b) / (at + rt * abs(b)), c["y"], want))
        flag, code = M.terminate(new)
        S.check("stops exactly on a small change", implies(given, iff(flag, change.lt(xf(1)))))
        S.check("reports success", X.i_eq(code, 0))

    return ob


def start(ys):
    def ob(S):
        M = Plain(S, lambda r, t: optx.FixedPointIteration(r, t), "fp", ys)
        P = M.prob
        y0 = S.like(P.ys, "y0")
        st = M.call(lambda s, a, y: s.init(P.fn, y, a, {}, P.outs, P.us, frozenset()), "init", y0)
        flag, code = M.terminate(dict(y=y0, st=st))
        S.check("does not stop before the first step", not_(flag))

    return ob


def post(S):
    M = Plain(S, lambda r, t: optx.FixedPointIteration(r, t), "fp", "dict")
    P = M.prob
    y0, y, aux = S.like(P.ys, "y0"), S.like(P.ys, "y"), S.like(P.us, "aux")
    st = M.call(lambda s, a, y: s.init(P.fn, y, a, {}, P.outs, P.us, frozenset()), "init", y0)
    py, pa, _ = M.call(lambda s, a, y, x, st: s.postprocess(P.fn, y, x, a, {}, st, frozenset(), optx.RESULTS.successful), "post", y, aux, st)
    S.check("returns the iterate", and_(S.same(py, y), S.same(pa, aux)))


for ys in ("scalar", "vec", "dict", "nested"):
    prop.ob(f"iteration.{ys}", FN)(iteration(ys))
    prop.ob(f"iteration.damped.{ys}", FN)(iteration(ys, damp=True))
    prop.ob(f"start.{ys}", FN)(start(ys))
for n in ("max_norm", "two_norm"):
    prop.ob(f"iteration.{n}.dict", FN + [n])(iteration("dict", norm=n))
    prop.ob(f"iteration.{n}.dict.non-finite values", FN + [n])(iteration("dict", norm=n, finite=False))
prop.ob("iteration.rms_norm.scalar", FN + ["rms_norm"])(iteration("scalar", norm="rms_norm"))
prop.ob("postprocess", FN)(post)
