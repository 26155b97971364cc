"""C21: the optax wrapper."""

import optax

from vc.core import *
from vc.core import _sym_leaves
from vc.driver import T
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property(
    "C21",
    [
        "the wrapped transformation is a pure function of what it is passed; its state holds floats and an integer; its extra arguments are the value, the gradient and a function evaluating the objective",
        "the norm is any function with non-negative values, or the maximum norm",
        "stopping on the very first step, where there is no earlier value to compare with, is only excluded for values and tolerances below 1e30",
    ],
)
FN = ["OptaxMinimiser.init", "OptaxMinimiser.step", "OptaxMinimiser.terminate", "OptaxMinimiser.postprocess", "cauchy_termination"]


class Opt:
    def __init__(self, S, ys, norm=None, extra=True, finite=True):
        self.S = S
        st = (struct((2,)), struct((), np.int64))
        self.P0 = S.fn("t_init", st)
        self.pt = S.fn("t_point", YS[ys])
        self.up = S.fn("t_update", (YS[ys], *st), finite=finite)
        if norm is None:
            self.nrm = AnyNorm(S)
            nf, self.norm = (lambda t: self.nrm(t)), (lambda t: self.nrm.spec(t).item())
        else:
            nf = getattr(optx, norm)
            self.norm = lambda t: S.s(S.run(nf, t, key=("norm", len(S.scalars(t)))))

        def update(g, s, y=None, *, value=None, grad=None, value_fn=None, **kw):
            assert not kw
            z = self.pt(y)
            return (lambda u, a, n: (u, (a, n)))(*self.up(g, *s, y, value, grad, value_fn(z)))

        def plain(g, s, y=None, **kw):
            return (lambda u, a, n: (u, (a, n)))(*self.up(g, *s, y))

        self.extra = extra
        self.tx = optax.GradientTransformationExtraArgs(lambda y: self.P0(y), update if extra else plain)
        self.M = M = Plain(S, lambda r, t: optx.OptaxMinimiser(self.tx, r, t, norm=nf), "min", ys)
        M.start, M.follow, M.ghosts = self.start, self.follow, lambda S, c: {}
        M.cands = lambda S, c: [
            (f"initially huge {i}", implies(c["g"]["first"].item(), xf(10**300) <= l.item()))
            for i, (_, l) in enumerate(_sym_leaves(c["st"]))
            if l.shape == () and elem_kind(l.item()) == "f"
        ]

    def start(self, y0):
        s, n = self.P0.spec(y0)
        return dict(s=s, n=n, f=T(xf(0)), first=T(True))

    def follow(self, c, obs):
        P, g, y = self.M.prob, c["g"], c["y"]
        f, gr = P.f(y), P.grad(y)
        if self.extra:
            u, s, n = self.up.spec(gr, g["s"], g["n"], y, f, gr, P.f(self.pt.spec(y)))
        else:
            u, s, n = self.up.spec(gr, g["s"], g["n"], y)
        return dict(s=s, n=n, f=f, first=T(False)), dict(u=u, f=f)


def wrapper(ys, **kw):
    def ob(S):
        O = Opt(S, ys, **kw)
        M, P = O.M, O.M.prob
        c, new, obs = M.run(finite=kw.get("finite", True))
        y = c["y"]
        given = S.finite_(y)
        S.check("the update is added to the iterate", implies(given, S.same(new["y"], S.map(lambda a, b: a + b, y, obs["u"]))))
        S.check("aux is that of the iterate the step was given", S.same(obs["aux"], P.aux(y)))
        flag, code = M.terminate(new)
        S.check("reports success", X.i_eq(code, 0))
        rt, at = M.rtol.item(), M.atol.item()
        f, f0, first = obs["f"].item(), c["g"]["f"].item(), c["g"]["first"].item()
        dy = O.norm(S.map(lambda a, b: abs(a) / (at + rt * abs(b)), obs["u"], y)).lt(xf(1))
        df = O.norm(T(abs(f - f0) / (at + rt * abs(f)))).lt(xf(1))
        S.check("stops only on a small update", implies(and_(given, flag), dy))
        S.check("after the first step, stops exactly if the value has settled too", implies(and_(given, not_(first)), iff(flag, and_(dy, df))))
        if "norm" in kw:
            big = xf(10**30)
            S.check("does not stop on the first step", implies(and_(given, first, abs(f).lt(big), rt.lt(big), at.lt(big), (rt * abs(f)).lt(big)), not_(flag)))

    return ob


def start(ys):
    def ob(S):
        O = Opt(S, ys)
        M, P = O.M, O.M.prob
        y0 = S.like(P.ys, "y0")
        st = M.call(lambda s, a, y: s.init(P.fn, y, a, {}, P.outs, P.us, frozenset()), "init", y0)
        flag, _ = M.terminate(dict(y=y0, st=st))
        S.check("does not stop before the first step", not_(flag))
        y, aux = S.like(P.ys, "y"), S.like(P.us, "aux")
        py, pa, _ = M.call(lambda s, a, y, x, st: s.postprocess(P.fn, y, x, a, {}, st, frozenset(), optx.RESULTS.successful), "post", y, aux, st)
        S.check("returns the iterate", and_(S.same(py, y), S.same(pa, aux)))

    return ob


for ys in ("scalar", "vec", "dict", "nested"):
    prop.ob(f"steps.{ys}", FN)(wrapper(ys))
    prop.ob(f"start.{ys}", FN)(start(ys))
prop.ob("steps.without extra arguments", FN)(wrapper("dict", extra=False))
prop.ob("steps.max_norm.dict", FN)(wrapper("dict", norm="max_norm"))
prop.ob("steps.max_norm.non-finite updates", FN)(wrapper("dict", norm="max_norm", finite=False))
