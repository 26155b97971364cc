"""C14: bisection."""

import numpy as np

from vc.core import *
from vc.driver import T
from vc.prove import houdini
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property(
    "C14",
    [
        "the function values are finite; the initial guess lies in the given interval, whose lower end is not above its upper end",
        "with an explicit orientation the caller's promise about the signs at the two ends holds (it is documented as unchecked)",
        "interval expansion: partial correctness (that the doubling ends is not shown)",
    ],
)
CLS = ["Bisection.init", "Bisection.step", "Bisection.terminate"]


def calls(monotone, limit=4000):
    n = [0]

    def conc(S, args):
        """a cubic crossing zero once, with a wiggle unless it is to be monotone"""
        n[0] += 1
        if n[0] > limit:
            raise X.Undecided()
        y, a = (np.asarray(x, dtype=np.float64).reshape(-1) for x in args)
        r = np.random.RandomState(S.source.seed % (2**31))
        k, b, q = (-1.0) ** r.randint(2) * r.uniform(0.3, 2), r.uniform(-2, 2), r.uniform(0, 1) * r.randint(2)
        w = r.uniform(0, 2)
        d = y[0] - b + 0.1 * a[0]
        with np.errstate(over="ignore", invalid="ignore"):
            v = k * (d + q * d**3 + (0 if monotone else w * np.sin(9 * d)))
        return [np.float64(v), np.float64(1 + d)]

    return conc


class Bis:
    def __init__(self, S, flip="detect", expand=False):
        self.S, self.flip, self.expand = S, flip, expand
        self.prob = P = Prob(S, "root", "scalar", "scalar")
        P.U.concrete = calls(expand) if isinstance(getattr(S, "source", None), RandomSource) else None
        self.rtol, self.atol = S.float("rtol", hint=(0, 1)), S.float("atol", hint=(0, 1))
        S.assume(xf(0) <= self.rtol.item(), xf(0).lt(self.atol.item()))
        self.lo, self.up = S.float("lower", hint=(-3, 0)), S.float("upper", hint=(0, 3))
        S.assume(self.lo.item() <= self.up.item())

    def solver(self, r, t):
        return optx.Bisection(r, t, flip=self.flip, expand_if_necessary=self.expand)

    def f(self, y):
        return self.prob.f(T(y)).item()

    def call(self, what, key, *xs):
        P = self.prob
        return self.S.run(lambda a, r, t, lo, up, *x: what(self.solver(r, t), a, dict(lower=lo, upper=up), *x), P.args, self.rtol, self.atol, self.lo, self.up, *xs, key=key)

    def init(self, y0, loop=None):
        P, S = self.prob, self.S
        return S.run_raises(
            lambda a, r, t, lo, up, y: self.solver(r, t).init(P.fn, y, a, dict(lower=lo, upper=up), P.outs, P.us, frozenset()),
            P.args, self.rtol, self.atol, self.lo, self.up, y0, loop=loop,
        )

    def step(self, y, st, fn=None, key="step"):
        P = self.prob
        return self.call(lambda s, a, o, y, st: s.step(fn or P.fn, y, a, o, st, frozenset()), key, y, st)

    def terminate(self, y, st):
        P = self.prob
        t, r = self.call(lambda s, a, o, y, st: s.terminate(P.fn, y, a, o, st, frozenset()), "term", y, st)
        return self.S.s(t), self.S.s(code_of(r))

    def brackets(self, lo, up, down):
        """f changes sign over [lo, up], in the direction `down` says"""
        a, b = self.f(lo), self.f(up)
        return X_ite_b(down, and_(b <= xf(0), xf(0) <= a), and_(a <= xf(0), xf(0) <= b))


def X_ite_b(c, a, b):
    return and_(implies(c, a), implies(not_(c), b))


def run(flip):
    def ob(S):
        M = Bis(S, flip)
        P = M.prob

        def init(S):
            y0 = S.float("y0", hint=(-0.5, 0.5))
            lo, up = M.lo.item(), M.up.item()
            S.assume(lo <= y0.item(), y0.item() <= up)
            fl, fu = M.f(lo), M.f(up)
            down = (fu.lt(fl)) if flip == "detect" else flip
            contained = M.brackets(lo, up, down)
            raised, st = M.init(y0)
            if flip == "detect":
                S.check("raises exactly without a sign change", iff(raised, not_(contained)))
            else:
                S.check("never raises", not_(raised))
            S.assume(contained, not_(raised))
            return dict(y=y0, st=st, g=dict(lo=T(lo), up=T(up), down=T(down), first=T(True), f=T(PINF)))

        def step(S, c):
            g, y = c["g"], c["y"].item()
            y2, st, aux = M.step(c["y"], c["st"])
            fy = M.f(y)
            # the sign decides which half is kept; at an exact root either will do
            right = or_(X_ite_b(g["down"].item(), xf(0).lt(fy), fy.lt(xf(0))), and_(fy.same(xf(0)), (y2.item() + y2.item()).same(y + g["up"].item())))
            lo = ite(right, y, g["lo"].item())
            up = ite(right, g["up"].item(), y)
            return dict(y=y2, st=st, g=dict(lo=T(lo), up=T(up), down=g["down"], first=T(False), f=T(fy))), dict(aux=aux)

        def cands(S, c):
            g, y = c["g"], c["y"].item()
            lo, up = g["lo"].item(), g["up"].item()
            return [
                ("ordered", and_(lo <= y, y <= up)),
                ("inside", and_(M.lo.item() <= lo, up <= M.up.item())),
                ("signs", M.brackets(lo, up, g["down"].item())),
                ("middle", or_(g["first"].item(), (y + y).same(lo + up))),
                ("direction", iff(g["down"].item(), (M.f(M.up.item()).lt(M.f(M.lo.item()))) if flip == "detect" else flip)),
            ]

        c, new, obs = S.evolve(init, step, None, cands)
        lo, up = c["g"]["lo"].item(), c["g"]["up"].item()
        lo2, up2, y, y2 = new["g"]["lo"].item(), new["g"]["up"].item(), c["y"].item(), new["y"].item()
        S.check("evaluated point is inside the bracket", and_(lo <= y, y <= up))
        S.check("new bracket lies within the old one", and_(lo <= lo2, lo2 <= up2, up2 <= up))
        S.check("new bracket has a sign change", M.brackets(lo2, up2, new["g"]["down"].item()))
        S.check("next point is the middle of the new bracket", (y2 + y2).same(lo2 + up2))
        S.check("halved by every step but the first", or_(c["g"]["first"].item(), ((up2 - lo2) + (up2 - lo2)).same(up - lo)))
        S.check("aux is that of the point evaluated", S.same(obs["aux"], P.aux(c["y"])))
        flag, code = M.terminate(new["y"], new["st"])
        small = (up2 - lo2).lt(M.atol.item() + M.rtol.item() * abs(y2))
        fsmall = abs(M.f(y)).lt(M.atol.item())
        S.check("stops only on a small bracket and value", implies(flag, and_(small, fsmall)))
        S.check("stops on a small bracket and value", implies(and_(small, fsmall), flag))
        S.check("reports success", X.i_eq(code, 0))

    return ob


def begin(S):
    M = Bis(S)
    y0 = S.float("y0", hint=(-0.5, 0.5))
    raised, st = M.init(y0)
    S.assume(not_(raised))
    flag, code = M.terminate(y0, st)
    S.check("does not stop before the first step", not_(flag))


def expansion(S):
    M = Bis(S, "detect", True)
    P = M.prob
    lo, up = M.lo.item(), M.up.item()
    S.assume(lo.lt(up))
    fl, fu = M.f(lo), M.f(up)
    strict = or_(and_(fl.lt(xf(0)), xf(0).lt(fu)), and_(xf(0).lt(fl), fu.lt(xf(0))))
    guards = {
        "up, below": and_(fl.lt(xf(0)), fl <= fu),
        "down, below": and_(fl.lt(xf(0)), fu.lt(fl)),
        "up, above": and_(xf(0) <= fl, fl <= fu),
        "down, above": and_(xf(0) <= fl, fu.lt(fl)),
    }

    def cands(S, carry):
        fs = [(i, a.item()) for i, a in enumerate(carry) if a.shape == () and elem_kind(a.item()) == "f"]
        out = [(f"finite {i}", a.finite) for i, a in fs]
        out += [(f"{i}<{j}", a.lt(b)) for i, a in fs for j, b in fs if i != j]
        out += [(f"{i} covers lower", a <= lo) for i, a in fs] + [(f"{i} covers upper", up <= a) for i, a in fs]
        out += [(f"kept {i}, {n}", implies(strict, a.same(b))) for i, a in fs for n, b in (("lower", lo), ("upper", up))]
        for n, g in guards.items():
            for i, a in fs:
                out += [(f"{n}: f({i})<=0", implies(g, M.f(a) <= xf(0))), (f"{n}: f({i})>=0", implies(g, xf(0) <= M.f(a)))]
        return out

    y0 = S.float("y0", hint=(-0.5, 0.5))
    raised, st = M.init(y0, loop=houdini(cands))
    S.check("never raises", not_(raised))
    S.assume(not_(raised))
    # what bracket did it find?  Ask: a step at 0 with a negative (positive) value there
    # moves half way to the end that must carry a non-negative (non-positive) value.
    zero = T(xf(0))
    aux = lambda: {"user_u": jnp.array(0.0)}
    n, _, _ = M.step(zero, st, lambda y, a: (jnp.array(-1.0), aux()), "probe-")
    p, _, _ = M.step(zero, st, lambda y, a: (jnp.array(1.0), aux()), "probe+")
    a, b = n.item() + n.item(), p.item() + p.item()
    S.check("expanded interval has a sign change", and_(xf(0) <= M.f(a), M.f(b) <= xf(0)))
    S.check("expanded interval is a non-empty interval", not_(a.same(b)))
    down = fu.lt(fl)
    S.check("orientation is that of the given interval", X_ite_b(down, a.lt(b), b.lt(a)))
    S.check("an interval with a strict sign change is kept", implies(strict, X_ite_b(down, and_(a.same(lo), b.same(up)), and_(a.same(up), b.same(lo)))))


def rejected(S):
    P = Prob(S, "root", "scalar", "scalar")
    y = S.float("y0")
    mk = lambda flip, ys=(), outs=(): lambda a, y: optx.Bisection(1e-3, 1e-3, flip=flip).init(
        P.fn, jnp.zeros(ys) + y, a, dict(lower=0.0, upper=1.0), struct(outs), P.us, frozenset()
    )
    for n, f in {"unknown orientation": mk("maybe"), "vector argument": mk(True, ys=(2,)), "vector value": mk(True, outs=(2,))}.items():
        raised, _ = S.run_raises(f, P.args, y, pyexc=(ValueError,))
        S.check(f"{n} is rejected", raised)


for flip in ("detect", True, False):
    prop.ob(f"run.flip={flip}", CLS)(run(flip))
prop.ob("start", CLS)(begin)
prop.ob("expansion", ["Bisection.init", "Bisection.step", "_expand_interval_repeatedly", "_expand_interval"])(expansion)
prop.ob("rejected problems", ["Bisection.init"])(rejected)
