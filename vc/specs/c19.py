"""C19: best-so-far wrappers."""

from vc.core import *
from vc.driver import *
from vc.runner import Property
from vc.xf import *

prop = Property(
    "C19",
    [
        "wrapped solvers are pure functions of what the interface passes them; the step of a wrapped solver reports one point at which it evaluated the function (through its auxiliary output)",
        "if no reported point has a loss below +infinity, the initial guess and an all-zero auxiliary output are returned",
    ],
)
WRAP = {"min": optx.BestSoFarMinimiser, "lsq": optx.BestSoFarLeastSquares, "root": optx.BestSoFarRootFinder, "fp": optx.BestSoFarFixedPoint}


class Best:
    def __init__(self, S, family, ystruct, outstruct, finite):
        self.S, self.family = S, family
        self.P = P = Setup(S, family, family, ystruct, outstruct)
        P.U.finite = finite
        self.args, self.o, self.c = S.float("args", (1,)), S.float("option"), S.float("closure")
        self.solver = WRAP[family](P.solver)
        self.TT = T(True)

    def loss(self, y, f):
        S = self.S
        if self.family == "min":
            return f.item()
        if self.family == "fp":
            f = S.map(lambda a, b: a - b, y, f)
        return S.dot(f, f)

    def call(self, what, key, *xs):
        P = self.P
        fn = lambda c: lambda y, a: P.U(y, a, c)
        return self.S.run(lambda a, o, c, *x: what(self.solver, fn(c), a, dict(my_option=o), *x), self.args, self.o, self.c, *xs, key=key)

    def ctx(self, h):
        f, _, _ = self.P.fval(h["y"], self.args, self.c)
        g = h["g"]
        return (h["y"], g["s"], g["n"], g["flag"], self.args, self.o, f, self.TT)

    def init(self, S):
        P = self.P
        y0 = S.like(P.ys, "y0")
        st = self.call(lambda s, f, a, o, y: s.init(f, y, a, o, P.outs, P.us, P.tags), "init", y0)
        f, _, _ = P.fval(y0, self.args, self.c)
        s, n, flag = P.init.spec(y0, self.args, self.o, f, self.TT, T(True))
        return dict(y=y0, st=st, g=dict(s=s, n=n, flag=flag, by=y0, bu=T(xf(0)), bl=T(X.PINF)))

    def step(self, S, c):
        P = self.P
        y2, st, aux = self.call(lambda s, f, a, o, y, st: s.step(f, y, a, o, st, P.tags), "step", c["y"], c["st"])
        ctx = self.ctx(c)
        z = P.z.spec(*ctx)
        fz, za, _ = P.fval(z, self.args, self.c)
        w, s, n, flag = P.step.spec(*ctx, fz)
        loss = self.loss(z, fz)
        g = c["g"]
        better = loss.lt(g["bl"].item())
        new = dict(
            s=s, n=n, flag=flag,
            by=S.ite(better, z, g["by"]), bu=S.ite(better, za["user_u"], g["bu"]), bl=S.ite(better, T(loss), g["bl"]),
        )
        return dict(y=y2, st=st, g=new), dict(aux=aux, w=w, z=z, za=za, loss=loss)

    def run(self):
        return self.S.evolve(self.init, self.step, cands=lambda S, c: [("a number", not_(c["g"]["bl"].item().nan))])


def wrapper(family, ystruct="dict", outstruct="pair", finite=False):
    def ob(S):
        B = Best(S, family, ystruct, outstruct, finite)
        P = B.P
        c, new, obs = B.run()
        S.check("the wrapped solver's step is taken", S.same(new["y"], obs["w"]))
        S.check("aux is that of the wrapped solver's step", S.same(user_aux(obs["aux"]), obs["za"]["user_u"]))
        S.check("aux structure", jtu.tree_structure(obs["aux"], is_leaf=is_sym) == jtu.tree_structure(P.us, is_leaf=is_sym))
        h = new["g"]
        best = h["bl"].item()
        S.check("best loss never worsens", best <= c["g"]["bl"].item())
        S.check("best loss is at most that of the reported point", or_(obs["loss"].nan, best <= obs["loss"]))
        t, code = B.call(lambda s, f, a, o, y, st: (lambda r: (r[0], code_of(r[1])))(s.terminate(f, y, a, o, st, P.tags)), "term", new["y"], new["st"])
        wt, wc = P.term.spec(*B.ctx(new))
        S.check("termination is that of the wrapped solver", and_(iff(S.s(t), S.s(wt)), X.i_eq(S.s(code), S.s(wc))))
        y, aux = S.like(P.ys, "y"), S.like(P.us, "aux")
        py, pa, stats = B.call(
            lambda s, f, a, o, y, x, st: s.postprocess(f, y, x, a, o, st, P.tags, optx.RESULTS.successful), "post", new["y"], obs["aux"], new["st"]
        )
        S.check("the best reported point is returned", S.same(py, h["by"]))
        S.check("with its own aux", S.same(user_aux(pa), h["bu"]))
        s = WRAP[family](P.solver)
        S.check("tolerances and norm are those of the wrapped solver", bool(s.rtol == P.solver.rtol and s.atol == P.solver.atol and s.norm is P.solver.norm))

    return ob


def unstarted(family):
    def ob(S):
        B = Best(S, family, "vec", "vec", True)
        P = B.P
        c = B.init(S)
        t, code = B.call(lambda s, f, a, o, y, st: (lambda r: (r[0], code_of(r[1])))(s.terminate(f, y, a, o, st, P.tags)), "term", c["y"], c["st"])
        wt, wc = P.term.spec(*B.ctx(c))
        S.check("termination is that of the wrapped solver", and_(iff(S.s(t), S.s(wt)), X.i_eq(S.s(code), S.s(wc))))
        aux = S.like(P.us, "aux")
        py, pa, stats = B.call(lambda s, f, a, o, y, x, st: s.postprocess(f, y, x, a, o, st, P.tags, optx.RESULTS.successful), "post", c["y"], aux, c["st"])
        S.check("without a step the initial guess is returned", S.same(py, c["y"]))

    return ob


for fam, W in WRAP.items():
    F = [f"{W.__name__}.{m}" for m in ("init", "step", "terminate", "postprocess", "_to_loss")]
    for ys, os in (("dict", "pair"), ("scalar", "scalar"), ("nested", "vec")):
        prop.ob(f"{fam}.{ys}", F)(wrapper(fam, ys, os))
    prop.ob(f"{fam}.finite values", F)(wrapper(fam, "vec", "vec", finite=True))
    prop.ob(f"{fam}.no step", F)(unstarted(fam))
