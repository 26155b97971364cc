"""C18: the Nelder-Mead simplex search."""

from vc.core import *
from vc.driver import T
from vc.nm import Simplex
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C18", ["no function value is NaN"])
FN = ["NelderMead.init", "NelderMead.step"]


def steps(ys, **kw):
    def ob(S):
        M = Simplex(S, ys, **kw)
        c, new, obs = M.run()
        # the iterate and simplex after any number of steps
        V, F, y, y2 = M.rows(c["g"]["V"]), list(c["g"]["F"]), c["y"], new["y"]
        S.check("the iterate is a vertex", or_(*[S.same(y, v) for v in V]))
        for k, v in enumerate(V):
            S.check(f"no vertex is better than the iterate ({k})", M.at(y) <= M.at(v))
        bi, fb = M.arg(F, lambda a, b: a.lt(b))
        bi2, fb2 = M.arg(list(new["g"]["F"]), lambda a, b: a.lt(b))
        S.lemma("value of the iterate", M.at(y).same(fb))
        S.lemma("value of the next iterate", M.at(y2).same(fb2))
        for k in range(len(V)):
            S.lemma(f"the best vertex is kept ({k})", implies(X.i_eq(bi, k), fb2 <= fb))
        S.check("the best value never increases", M.at(y2) <= M.at(y))
        S.check("aux is that of the iterate the step was given", S.same(obs["aux"], M.prob.aux(y)))

    return ob


def simplex(ys):
    def ob(S):
        M = Simplex(S, ys)
        y0 = S.like(M.prob.ys, "y0")
        V = M.rows(M.simplex_of(M.real_init(y0)))
        a = S.scalars(y0)
        vs = [S.scalars(v) for v in V]
        guess = [and_(*[p.same(q) for p, q in zip(v, a)]) for v in vs]
        S.check("the guess is a vertex", or_(*guess))
        # the documented perturbation, adelta + rdelta * coordinate, may vanish only there
        for j in range(len(a)):
            S.assume(*[not_((xf(2.5e-4) + xf(5e-2) * e).same(xf(0))) for e in a])
            off = [and_(not_(v[j].same(a[j])), *[p.same(q) for i, (p, q) in enumerate(zip(v, a)) if i != j]) for v in vs]
            S.check(f"a vertex differs from the guess in coordinate {j} only", or_(*off))

    return ob


def first(ys, **kw):
    def ob(S):
        M = Simplex(S, ys, **kw)
        y0 = S.like(M.prob.ys, "y0")
        st = M.real_init(y0)
        V = M.rows(M.simplex_of(st))
        y1, st, aux = M.real_step(y0, st)
        S.check("the first iterate is a vertex", or_(*[S.same(y1, v) for v in V]))
        for k, v in enumerate(V):
            S.check(f"no vertex is better than the first iterate ({k})", M.at(y1) <= M.at(v))
        S.check("the first iterate is no worse than the guess", M.at(y1) <= M.at(y0))
        S.check("aux is that of the guess", S.same(aux, M.prob.aux(y0)))

    return ob


for ys in ("scalar", "vec", "nested", "dict"):
    prop.ob(f"steps.{ys}", FN, slow=2 if ys == "dict" else 1)(steps(ys))
    prop.ob(f"initial simplex.{ys}", FN)(simplex(ys))
    prop.ob(f"first step.{ys}", FN)(first(ys))
for ys in ("scalar", "nested"):
    prop.ob(f"steps.{ys}.infinite values", FN, slow=2)(steps(ys, finite="ordered"))
    prop.ob(f"first step.{ys}.infinite values", FN)(first(ys, finite="ordered"))
prop.ob("initial simplex.vec3", FN)(simplex("vec3"))
