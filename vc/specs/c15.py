"""C15: Newton and chord iterations."""

from vc.core import *
from vc.driver import CODE, T, code_of
from vc.lin import *
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C15", [
    "the linear solver is any function of the Jacobian matrix and the right-hand side, returning a vector and a code",
    "the norm is any function with non-negative finite values (max/rms/two norms are instances)",
])
DIVERGED = int(np.asarray(code_of(optx.RESULTS.nonlinear_divergence)))


class NewtonRun:
    """The real method in step with its specification."""

    def __init__(self, S, cls, ystruct="vec", cauchy=True, lower=False, upper=False, solves=False, kappa=None, finite=True):
        self.S, self.cls, self.cauchy = S, cls, cauchy
        self.P = Prob(S, "root", ystruct, ystruct if ystruct in OUTS else None, finite=finite) if ystruct in OUTS else Prob(S, "fp", ystruct, finite=finite)
        P = self.P
        self.L = Lin(S, solves=solves)
        self.nrm = AnyNorm(S)
        self.rtol, self.atol, self.kappa = S.float("rtol", hint=(0, 1)), S.float("atol", hint=(0, 1)), S.float("kappa", hint=(0, 2))
        S.assume(xf(0) <= self.rtol.item(), xf(0).lt(self.atol.item()))
        self.lo = S.like(P.ys, "lower") if lower else None
        self.up = S.like(P.ys, "upper") if upper else None

    def mk(self, r, t, k):
        return self.cls(r, t, norm=lambda x: self.nrm(x), kappa=k, linear_solver=self.L.solver(), cauchy_termination=self.cauchy)

    def opts(self, lo, up):
        o = {}
        if lo is not None:
            o["lower"] = lo
        if up is not None:
            o["upper"] = up
        return o

    def call(self, what, key, *extra):
        P = self.P
        return self.S.run(lambda a, r, t, k, lo, up, *e: what(self.mk(r, t, k), a, self.opts(lo, up), *e),
                          P.args, self.rtol, self.atol, self.kappa, self.lo, self.up, *extra, key=key)

    def scaled(self, d, y):
        rt, at = self.rtol.item(), self.atol.item()
        return self.S.map(lambda u, v: u / (at + rt * abs(v)), d, y)

    def norm(self, t):
        return self.nrm.spec(t).item()

    def run(self, stop_on_failure=False):
        S, P = self.S, self.P
        newton = self.cls is optx.Newton

        def init(S):
            y0 = S.like(P.ys, "y0")
            st = self.call(lambda s, a, o, y: s.init(P.fn, y, a, o, P.outs, P.us, frozenset()), "init", y0)
            g = dict(k=T(0), d=T(xf(math.inf)), dp=T(xf(1)), code=T(0), diff=S.map(lambda e: xf(math.inf), y0), f=S.map(lambda e: xf(math.inf), P.f(y0)))
            return dict(y=y0, st=st, g=g, y0=y0)

        def step(S, c):
            y2, st, aux = self.call(lambda s, a, o, y, st: s.step(P.fn, y, a, o, st, frozenset()), "step", c["y"], c["st"])
            f = P.f(c["y"])
            A = P.jac_matrix(c["y"] if newton else c["y0"])
            x, code = self.L.spec(A, flat(S, f))
            sy = S.map(lambda u, v: u - v, c["y"], split(S, x, P.ys))
            if self.lo is not None:
                sy = S.map(lambda u, v: X.x_max(u, v), sy, self.lo)
            if self.up is not None:
                sy = S.map(lambda u, v: X.x_min(u, v), sy, self.up)
            diff = split(S, x, P.ys)
            if self.lo is not None or self.up is not None:
                diff = S.map(lambda u, v: u - v, c["y"], sy)
            g = dict(k=T(c["g"]["k"].item() + 1), d=T(self.norm(self.scaled(diff, sy))), dp=c["g"]["d"], code=T(code), diff=diff, f=f)
            return dict(y=y2, st=st, g=g, y0=c["y0"]), dict(aux=aux, spec_aux=P.aux(c["y"]), spec_y=sy, x=x, A=A, f=f, code=code)

        def ghosts(S, c):
            return dict(J=[P.U.dspec(i, c["y0"], P.args)[0] for i in range(len(jtu.tree_leaves(P.ys)))], A0=P.jac_matrix(c["y0"]))

        return S.evolve(init, step, ghosts)

    def terminate(self, c):
        t, r = self.call(lambda s, a, o, y, st: s.terminate(self.P.fn, y, a, o, st, frozenset()), "term", c["y"], c["st"])
        return self.S.s(t), self.S.s(code_of(r))

    def spec_terminate(self, c):
        g, S = c["g"], self.S
        failed = not_(X.i_eq(g["code"].item(), 0))
        if self.cauchy:
            ab = lambda t: S.map(abs, t)
            at = self.atol.item()
            fs = S.map(lambda e: abs(e) / at, g["f"])
            ok = and_(self.norm(ab(self.scaled(g["diff"], c["y"]))).lt(xf(1)), self.norm(fs).lt(xf(1)))
            return or_(failed, ok), X.i_ite(failed, g["code"].item(), 0)
        d, dp = g["d"].item(), g["dp"].item()
        two = X.i_le(2, g["k"].item())
        tiny = d.lt(xf(1e-13))
        rate = d / dp
        factor = d * rate / (xf(1) - rate)
        div = or_(not_(rate.finite), xf(2).lt(rate))
        conv = and_(xf(0).lt(factor), factor.lt(self.kappa.item()))
        stop = or_(failed, and_(two, or_(tiny, div, conv)))
        code = X.i_ite(failed, g["code"].item(), X.i_ite(and_(two, not_(tiny), div), DIVERGED, 0))
        return stop, code


def newton(cls, **kw):
    def ob(S):
        N = NewtonRun(S, cls, **kw)
        c, new, obs = N.run()
        S.check("next iterate", S.same(new["y"], obs["spec_y"]))
        flag, code = N.terminate(new)
        sflag, scode = N.spec_terminate(new)
        S.check("stops exactly when it should", iff(flag, sflag))
        S.check("reports the right code", X.i_eq(code, scode))

    return ob


def solves(cls, **kw):
    """In terms of equations rather than of the solver's output."""

    def ob(S):
        N = NewtonRun(S, cls, solves=True, **kw)
        c, new, obs = N.run()
        A = np.asarray(obs["A"])
        d = np.array(S.scalars(S.map(lambda u, v: u - v, c["y"], new["y"])), dtype=object)
        r = A.dot(d)
        S.check("Jacobian times step equals the residual", implies(X.i_eq(obs["code"], 0), and_(*[a.same(b) for a, b in zip(r, S.scalars(obs["f"]))])))

    return ob


FN = ["_AbstractNewtonChord.init", "_AbstractNewtonChord.step", "_AbstractNewtonChord.terminate", "_small", "_diverged", "_converged", "cauchy_termination", "_NoAux.__call__"]
for cls in (optx.Newton, optx.Chord):
    nm = cls.__name__.lower()
    for ca in (True, False):
        c = "cauchy" if ca else "rate"
        for ys in ("scalar", "vec", "dict", "nested"):
            prop.ob(f"{nm}.{c}.{ys}", FN)(newton(cls, cauchy=ca, ystruct=ys))
        prop.ob(f"{nm}.{c}.vec.lower", FN)(newton(cls, cauchy=ca, ystruct="vec", lower=True))
        prop.ob(f"{nm}.{c}.dict.upper", FN)(newton(cls, cauchy=ca, ystruct="dict", upper=True))
        prop.ob(f"{nm}.{c}.vec.box", FN)(newton(cls, cauchy=ca, ystruct="vec", lower=True, upper=True))
        prop.ob(f"{nm}.{c}.nested.box", FN)(newton(cls, cauchy=ca, ystruct="nested", lower=True, upper=True))
    for ys in ("scalar", "vec", "nested"):
        prop.ob(f"{nm}.solves.{ys}", FN)(solves(cls, ystruct=ys))
