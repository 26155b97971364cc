"""C17: golden-section search."""

import numpy as np

from vc.core import *
from vc.driver import T
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property(
    "C17",
    [
        "the function values are finite; the lower end of the given interval is below the upper end",
        "floating-point constants of the code within rounding of the golden ratio (or of its sum with 1, -1, its conjugate, the root of 5) are taken to be exact",
        "unimodality is the usual one: strictly decreasing up to the minimiser, strictly increasing after it",
    ],
)
FN = ["GoldenSearch.init", "GoldenSearch.step", "GoldenSearch.terminate"]


def bowl(S, args):
    """a function with one minimum (a random one for non-unimodal contracts)"""
    y, a = (np.asarray(x, dtype=np.float64).reshape(-1) for x in args)
    r = np.random.RandomState(S.source.seed % (2**31))
    d = y[0] - r.uniform(-4, 4) + 0.1 * a[0]
    v = r.uniform(0.3, 2) * d**2 + r.uniform(0, 0.1) * d**4 + r.uniform(-3, 3)
    return [np.float64(v), np.float64(1 + d)]


class Golden:
    def __init__(self, S, unimodal=False, rtol=None, atol=None):
        self.S = S
        self.prob = P = Prob(S, "min", "scalar")
        if unimodal and isinstance(getattr(S, "source", None), RandomSource):
            P.U.concrete = bowl
        self.rtol, self.atol = S.float("rtol", hint=(0, 1)), S.float("atol", hint=(0, 1))
        S.assume(xf(0) <= self.rtol.item(), xf(0).lt(self.atol.item()))
        self.lo, self.up = S.float("lower", hint=(-3, 2)), S.float("upper", hint=(0, 5))
        S.assume(self.lo.item().lt(self.up.item()))
        self.phi = golden_ratio()
        self.m = None
        if unimodal:
            self.m = S.float("minimiser", hint=(-4, 4)).item()
            if isinstance(getattr(S, "source", None), RandomSource):
                r = np.random.RandomState(S.source.seed % (2**31))
                self.m = xf(float(r.uniform(-4, 4) - 0.1 * float(X.to_float(P.args[0]))))
            S.assume(self.lo.item() <= self.m, self.m <= self.up.item())

    def f(self, y):
        return self.prob.f(T(y)).item()

    def unimodal(self, a, b):
        """unimodality, for two points"""
        if self.m is None:
            return
        f, m = self.f, self.m
        for u, v in ((a, b), (b, a)):
            self.S.assume(implies(and_(u.lt(v), v <= m), f(v).lt(f(u))), implies(and_(m <= u, u.lt(v)), f(u).lt(f(v))))

    def call(self, what, key, *xs):
        P = self.prob
        return self.S.run(
            lambda a, r, t, lo, up, *x: what(optx.GoldenSearch(r, t), a, dict(lower=lo, upper=up), *x), P.args, self.rtol, self.atol, self.lo, self.up, *xs, key=key
        )

    def terminate(self, c):
        P = self.prob
        t, r = self.call(lambda s, a, o, y, st: s.terminate(P.fn, y, a, o, st, frozenset()), "term", c["y"], c["st"])
        return self.S.s(t), self.S.s(code_of(r))

    def init(self, S):
        P = self.prob
        y0 = S.float("y0")
        st = self.call(lambda s, a, o, y: s.init(P.fn, y, a, o, P.outs, P.us, frozenset()), "init", y0)
        lo, up = self.lo.item(), self.up.item()
        mid = lo + (up - lo) * (xf(2) - self.phi)
        # `l`, `u`: whether the function was evaluated at that end
        return dict(y=y0, st=st, g=dict(lo=T(lo), mid=T(mid), up=T(up), f=T(self.f(mid)), first=T(True), l=T(False), u=T(False), short=T(True)))

    def trial(self, c):
        g = c["g"]
        return X.x_ite(g["first"].item(), g["lo"].item() + (g["up"].item() - g["mid"].item()), c["y"].item())

    def step(self, S, c):
        P, g = self.prob, c["g"]
        y2, st, aux = self.call(lambda s, a, o, y, st: s.step(P.fn, y, a, o, st, frozenset()), "step", c["y"], c["st"])
        lo, mid, up = g["lo"].item(), g["mid"].item(), g["up"].item()
        t = self.trial(c)
        self.unimodal(t, mid)
        better, left = self.f(t).lt(self.f(mid)), t.lt(mid)
        # the better of the two inner points stays inside, the worse one becomes an end
        cutup = iff(better, left)  # the upper part is cut off
        inner, outer = X.x_ite(better, t, mid), X.x_ite(better, mid, t)
        new = dict(
            lo=T(X.x_ite(cutup, lo, outer)),
            up=T(X.x_ite(cutup, outer, up)),
            mid=T(inner),
            f=T(self.f(inner)),
            first=T(False),
            l=T(or_(g["l"].item(), not_(cutup))),
            u=T(or_(g["u"].item(), cutup)),
            short=T(not_(cutup)),
        )
        new["short"] = T((inner + inner).lt(new["lo"].item() + new["up"].item()))
        return dict(y=y2, st=st, g=new), dict(aux=aux)

    def cands(self, S, c):
        g = c["g"]
        lo, mid, up = g["lo"].item(), g["mid"].item(), g["up"].item()
        w = up - lo
        phi = self.phi
        short = g["short"].item()
        out = [
            ("ordered", and_(lo.lt(mid), mid.lt(up))),
            ("inside", and_(self.lo.item() <= lo, up <= self.up.item())),
            ("golden, left", implies(short, (phi * (mid - lo)).same(up - mid))),
            ("golden, right", implies(not_(short), (phi * (up - mid)).same(mid - lo))),
            ("value", g["f"].item().same(self.f(mid))),
            ("trial", or_(g["first"].item(), c["y"].item().same(lo + (up - mid)))),
            ("lower end no better", implies(g["l"].item(), self.f(mid) <= self.f(lo))),
            ("upper end no better", implies(g["u"].item(), self.f(mid) <= self.f(up))),
            ("lower end given", or_(g["l"].item(), lo.same(self.lo.item()))),
            ("upper end given", or_(g["u"].item(), up.same(self.up.item()))),
        ]
        if self.m is not None:
            out.append(("contains the minimiser", and_(lo <= self.m, self.m <= up)))
        return out

    def run(self, depth=None):
        return self.S.evolve(self.init, self.step, None, self.cands, depth=depth)


def bracket(S):
    M = Golden(S)
    c, new, obs = M.run()
    g, h = c["g"], new["g"]
    lo, mid, up = g["lo"].item(), g["mid"].item(), g["up"].item()
    lo2, mid2, up2 = h["lo"].item(), h["mid"].item(), h["up"].item()
    t = M.trial(c)
    S.check("the evaluated point lies inside the bracket", and_(lo.lt(t), t.lt(up)))
    S.check("aux is that of the evaluated point", S.same(obs["aux"], M.prob.aux(T(t))))
    S.check("the bracket is ordered", and_(lo2.lt(mid2), mid2.lt(up2)))
    S.check("the bracket lies within the previous one", and_(lo <= lo2, up2 <= up, M.lo.item() <= lo2, up2 <= M.up.item()))
    S.check("the bracket shrinks by the golden ratio", (M.phi * (up2 - lo2)).same(up - lo))
    S.check("the bracket keeps its proportions", or_((M.phi * (mid2 - lo2)).same(up2 - mid2), (M.phi * (up2 - mid2)).same(mid2 - lo2)))
    S.check("the middle is the best inner point", and_(M.f(mid2) <= M.f(t), M.f(mid2) <= M.f(mid), or_(mid2.same(t), mid2.same(mid))))
    S.check("the ends are no better than the middle", and_(implies(h["l"].item(), M.f(mid2) <= M.f(lo2)), implies(h["u"].item(), M.f(mid2) <= M.f(up2))))
    S.check("the next trial point is the mirror image of the middle", new["y"].item().same(lo2 + up2 - mid2))


def unimodal(S):
    M = Golden(S, unimodal=True)
    c, new, obs = M.run()
    h = new["g"]
    S.check("the bracket contains the minimiser", and_(h["lo"].item() <= M.m, M.m <= h["up"].item()))
    S.check("the next trial point lies inside the bracket", and_(h["lo"].item().lt(new["y"].item()), new["y"].item().lt(h["up"].item())))


def guess(S):
    """The first step is the same whatever the initial guess."""
    M = Golden(S)
    P = M.prob
    ys = [S.float("y0"), S.float("z0", finite=False)]
    outs = []
    for y in ys:
        st = M.call(lambda s, a, o, y: s.init(P.fn, y, a, o, P.outs, P.us, frozenset()), "init", y)
        y2, st2, aux = M.call(lambda s, a, o, y, st: s.step(P.fn, y, a, o, st, frozenset()), "step", y, st)
        fl, code = M.terminate(dict(y=y2, st=st2))
        outs.append((y2, st2, aux, T(fl), T(code)))
    S.check("the initial guess is ignored", S.same(outs[0], outs[1]))


def rejected(S):
    P = Prob(S, "min", "scalar")
    y = S.float("y0")
    mk = lambda ys=(), outs=(): lambda a, y: optx.GoldenSearch(1e-3, 1e-3).init(
        P.fn, jnp.zeros(ys) + y, a, dict(lower=0.0, upper=1.0), struct(outs), P.us, frozenset()
    )
    for n, f in {"vector argument": mk(ys=(2,)), "vector value": mk(outs=(2,))}.items():
        raised, _ = S.run_raises(f, P.args, y, pyexc=(ValueError,))
        S.check(f"{n} is rejected", raised)


prop.ob("bracket", FN, depth=3)(bracket)
prop.ob("unimodal", FN, depth=3)(unimodal)
prop.ob("initial guess", FN)(guess)
prop.ob("rejected problems", FN)(rejected)
