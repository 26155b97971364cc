"""C13: Newton, damped and dogleg steps solve their model subproblems."""

from vc.core import *
from vc.driver import T, code_of
from vc.lin import *
from vc.runner import Property
from vc.search import *
from vc.xf import *
from jax import Array

prop = Property("C13", [
    "a linear solver that reports success has solved the system (for systems that are not square: its normal equations)",
])
HUGE = Fraction(float(np.finfo(np.float64).max))
EPS = Fraction(float(np.finfo(np.float64).eps))


def vdot(a, b):
    s = xf(0)
    for p, q in zip(a, b):
        s = s + p * q
    return s


class Model:
    """The quadratic model of an arbitrary FunctionInfo, and a descent applied to it."""

    def __init__(self, S, mk, kind, ys, outs, solves=True):
        self.S, self.kind = S, kind
        self.I = I = Infos(S, kind, ys, outs)
        self.n = I.n
        self.L = Lin(S, solves=solves)
        self.D = mk(self.L.solver())
        self.y0, self.y, self.d0, self.de = S.like(I.ys, "y0"), S.like(I.ys, "y"), I.draw("info0"), I.draw("earlier")
        self.d = I.draw("info")
        self.g = I.grad(self.d)
        M = np.asarray(self.d["J"] if kind == "rj" else self.d["H"])
        self.H = M.T.dot(M) if kind == "rj" else M

    def step(self, ss, *more, mk=None, key="step"):
        """(step, code); whatever was queried before."""
        I, S = self.I, self.S

        def go(y0, y, d0, d, de, ss, *more):
            D = self.D if mk is None else mk(self.D, *more)
            st = D.init(y0, jax.eval_shape(lambda: I.mk(d0)))
            st = D.query(y0, I.mk(de), st)
            st = D.query(y, I.mk(d), st)
            u, r = D.step(ss, st)
            return u, code_of(r)

        u, c = S.run(go, self.y0, self.y, self.d0, self.d, self.de, ss, *more, key=key)
        return np.array(S.scalars(u), dtype=object), S.s(c)

    def newton(self):
        """(minus the) Newton step of the model."""
        S, d = self.S, self.d
        A, b = (d["J"], flat(S, d["r"])) if self.kind == "rj" else (d["H"], flat(S, d["g"]))
        return self.L.spec(A, b)

    def system(self, u, lam, scale=None):
        """(H + lam I) u = - scale g, componentwise."""
        out = []
        for i in range(self.n):
            lhs = vdot(self.H[i], u)
            if lam is not None:
                lhs = lhs + lam * u[i]
            g = self.g[i] if scale is None else scale * self.g[i]
            out.append(lhs.same(-g))
        return out


def newton(kind, ys, outs):
    def ob(S):
        M = Model(S, lambda s: optx.NewtonDescent(linear_solver=s), kind, ys, outs)
        S.algebra()
        ss = S.float("size", hint=(0, 2))
        u, code = M.step(ss)
        S.assume(X.i_eq(code, 0))
        if kind == "eghi":
            for i in range(M.n):
                S.check(f"step [{i}]", u[i].same(-(ss.item() * vdot(M.H[i], M.g))))
        else:
            for i, f in enumerate(M.system(u, None, ss.item())):
                S.check(f"Newton system [{i}]", f)
        S.check("finite", and_(*[e.finite for e in u]))

    return ob


def damped(kind, ys, outs, vanishing=False):
    def ob(S):
        M = Model(S, lambda s: optx.DampedNewtonDescent(linear_solver=s), kind, ys, outs)
        ss = S.float("size", hint=(-1, 0) if vanishing else (0, 2))
        s = ss.item()
        S.algebra()
        if vanishing:
            S.assume(s <= xf(0))
            lam = xf(HUGE)
        else:
            S.assume(xf(EPS).lt(s))
            S.positive("step size", s)
            S.positive("step size above the threshold", s - xf(EPS))
            lam = xf(1) / s
        u, code = M.step(ss)
        S.assume(X.i_eq(code, 0))
        # products of huge and tiny numbers cannot be compared in floating point
        big = xf(10**250)
        none = lambda e: and_(e * big <= xf(1), -xf(1) <= e * big) if vanishing else False
        for i, f in enumerate(M.system(u, lam)):
            S.check(f"damped system [{i}]", or_(f, none(u[i])))
        S.check("finite", and_(*[e.finite for e in u]))

    return ob


class Oracle(optx.AbstractRootFinder):
    """Returns the first of its two guesses if the function is small enough there, and the
    second one otherwise."""

    first: Array
    second: Array
    tol: Array
    rtol = 0.0
    atol = 0.0
    norm = staticmethod(optx.max_norm)

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return jnp.array(False)

    def step(self, fn, y, args, options, state, tags):
        f, aux = fn(self.first, args)
        return jnp.where(jnp.abs(f) <= self.tol, self.first, self.second), jnp.array(True), aux

    def terminate(self, fn, y, args, options, state, tags):
        return state, optx.RESULTS.successful

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {}


class Norm:
    """Any norm that depends on absolute values only."""

    def __init__(self, S):
        self.S = S
        self.N = S.fn("norm", struct(()), finite=True, contract=lambda S, ins, outs: [xf(0) <= outs[0].item()], concrete=self._conc)

    @staticmethod
    def _conc(S, args):
        v = np.concatenate([np.asarray(a, float).reshape(-1) for a in args])
        return [float(np.sqrt(np.sum(v * v))) if np.all(np.isfinite(v)) else 1e9]

    def __call__(self, tree):
        return self.N(*[jnp.abs(x) for x in jtu.tree_leaves(tree)])

    def spec(self, tree):
        return self.N.spec(*jtu.tree_leaves(self.S.map(abs, tree), is_leaf=is_sym)).item()


def indirect(kind, ys, outs, what):
    def ob(S):
        norm = Norm(S)
        mk = lambda D, f: optx.IndirectDampedNewtonDescent(linear_solver=D.linear_solver, root_finder=Oracle(f[0], f[2] if what == "length" else f[0], f[1]), trust_region_norm=norm)
        M = Model(S, lambda s: optx.IndirectDampedNewtonDescent(linear_solver=s), kind, ys, outs)
        M.L.can_fail = False
        S.algebra()
        ss = S.float("size", hint=(1, 2) if what == "Newton" else (0, 1))
        s = ss.item()
        finder = S.float("finder", (3,), hint=(0.5, 2))
        a, tol, b = finder
        S.assume(xf(0) <= tol)
        for e in (a, b):
            S.assume(xf(Fraction(1, 10**5)) <= e, e <= xf(10**5))
            S.positive("damping", e)
            S.positive("step size above the threshold", xf(1) / e - xf(EPS))
        S.assume(xf(1) <= s if what == "Newton" else s.lt(xf(1)))
        u, code = M.step(ss, finder, mk=mk)
        S.assume(X.i_eq(code, 0))
        if what == "Newton":
            for i, f in enumerate(M.system(u, None)):
                S.check(f"Newton system [{i}]", f)
        elif what == "damped":
            for i, f in enumerate(M.system(u, a)):
                S.check(f"damped system [{i}]", f)
        else:
            newton, _ = M.newton()
            diff = norm.spec(split(S, u, M.I.ys)) - s * norm.spec(split(S, newton, M.I.ys))
            # the second guess is used only if the first one does not have the right length
            other, _ = M.step(sarr(np.array(xf(1) / b, dtype=object)), mk=lambda D: optx.DampedNewtonDescent(linear_solver=D.linear_solver), key="damped")
            S.check("length unless the search fails", or_(and_(diff <= tol, -diff <= tol), and_(*[p.same(q) for p, q in zip(u, other)])))

    return ob


NS, DS = ["NewtonDescent.query", "NewtonDescent.step", "newton_step"], ["DampedNewtonDescent.query", "DampedNewtonDescent.step", "damped_newton_step"]
CASES = [("egh", "scalar", "pair"), ("egh", "vec", "pair"), ("egh", "dict", "pair"), ("rj", "scalar", "scalar"), ("rj", "scalar", "pair"), ("rj", "vec", "pair")]
for kind, ys, outs in CASES + [("eghi", "dict", "pair")]:
    prop.ob(f"newton.{kind}.{ys}.{outs}", NS)(newton(kind, ys, outs))
for kind, ys, outs in CASES:
    prop.ob(f"damped.{kind}.{ys}.{outs}", DS)(damped(kind, ys, outs))
    prop.ob(f"damped.{kind}.{ys}.{outs}.vanishing", DS)(damped(kind, ys, outs, True))
IS = ["IndirectDampedNewtonDescent.query", "IndirectDampedNewtonDescent.step", "damped_newton_step", "newton_step", "root_find"]
for kind, ys, outs in CASES:
    for what in ("Newton", "damped", "length"):
        prop.ob(f"indirect.{kind}.{ys}.{outs}.{what}", IS)(indirect(kind, ys, outs, what))


class Dogleg:
    """The dogleg step, with the Euclidean norm unless another one is given."""

    def __init__(self, S, kind, ys, outs, flat, signs=(0, 0), size=(0, 2), norm=None):
        self.S = S
        self.M = M = Model(S, lambda s: optx.DoglegDescent(linear_solver=s), kind, ys, outs, solves=False)
        S.algebra()
        self.ss = S.float("size", hint=size)
        s = self.ss.item()
        S.assume(xf(0) <= s)
        n, g = M.n, M.g
        A = np.asarray(M.d["J"] if kind == "rj" else M.d["H"])
        Ag = [vdot(A[i], g) for i in range(A.shape[0])]
        curvature = vdot(Ag, Ag) if kind == "rj" else vdot(g, Ag)
        gg = vdot(g, g)
        if flat:
            S.assume(curvature <= xf(0))
            S.positive("curvature below the threshold", xf(EPS) - curvature)
            self.C = [xf(0)] * n
        else:
            S.assume(xf(EPS).lt(curvature))
            S.positive("curvature", curvature)
            S.positive("curvature above the threshold", curvature - xf(EPS))
            self.C = S.generalise("Cauchy point", [-(gg / curvature) * e for e in g], opaque=True)
        self.N, self.code = M.step(S.const(1.0), mk=lambda D: optx.NewtonDescent(linear_solver=D.linear_solver), key="newton")
        self.p, self.q = vdot(self.C, self.C), vdot(self.N, self.N)
        if n == 1:
            for e, k in zip((self.N[0], self.C[0]), signs):
                if k > 0:
                    S.assume(xf(0).lt(e))
                    S.positive("sign", e)
                elif k < 0:
                    S.assume(e.lt(xf(0)))
                    S.positive("sign", -e)
        self.cauchy, self.newton = [abs(e[0]) if n == 1 else X.x_sqrt(vdot(e, e)) for e in (self.C, self.N)]
        if norm is not None:
            self.cauchy, self.newton = [norm.spec(split(S, e, M.I.ys)) for e in (self.C, self.N)]
        self.radius = s * self.newton

    def step(self, *more, mk=None):
        u, code = self.M.step(self.ss, *more, mk=mk)
        self.S.assume(X.i_eq(code, 0))
        return u


def both_fit(kind, ys, outs, flat):
    def ob(S):
        D = Dogleg(S, kind, ys, outs, flat)
        S.assume(D.cauchy <= D.radius, D.newton <= D.radius)
        u = D.step()
        for i in range(D.M.n):
            S.check(f"the Newton step [{i}]", u[i].same(D.N[i]))
        S.check("finite", and_(*[e.finite for e in u]))

    return ob


def first_leg(kind, ys, outs, signs):
    def ob(S):
        D = Dogleg(S, kind, ys, outs, False, signs)
        S.assume(D.radius.lt(D.cauchy))
        S.positive("beyond the trust region", D.cauchy - D.radius)
        S.assume(xf(EPS).lt(D.cauchy))
        S.positive("length", D.cauchy)
        u = D.step()
        t = D.radius / D.cauchy
        on = [t * e for e in D.C]
        for i in range(D.M.n):
            S.check(f"on the way to the Cauchy point [{i}]", u[i].same(on[i]))
        S.schema("quotients", lambda a, b: implies(and_(xf(0) <= a, a.lt(b)), and_(xf(0) <= a / b, a / b <= xf(1))), D.radius, D.cauchy)
        S.schema("products", lambda a, b: implies(and_(xf(0) <= a, xf(0) <= b), xf(0) <= a * b), D.ss.item(), D.newton)
        S.check("not beyond", and_(xf(0) <= t, t <= xf(1)))
        S.check("on the boundary of the trust region", vdot(on, on).same(D.radius * D.radius))
        S.check("finite", and_(*[e.finite for e in u]))

    return ob


def close(kind):
    """Newton steps close to the Cauchy point."""

    def sample(A, b, noise):
        g = A.T @ b if kind == "rj" else b
        curvature = np.sum((A @ g) ** 2) if kind == "rj" else g @ A @ g
        C = g * (g @ g) / (curvature if abs(curvature) > 1e-9 else 1)
        return C + np.linalg.norm(C) * noise / 10

    return sample


def second_leg(kind, ys, outs, flat, positive, signs):
    def ob(S):
        D = Dogleg(S, kind, ys, outs, flat, signs, (0.9, 1) if positive else (0, 2))
        D.M.L.sample = close(kind) if positive else None
        zero, n, C, N = xf(0), D.M.n, D.C, D.N
        S.assume(D.cauchy <= D.radius, D.radius.lt(D.newton))
        S.positive("Newton step beyond the trust region", D.newton - D.radius)
        order = lambda a, b: implies(and_(zero <= a, a.lt(b)), (a * a).lt(b * b))
        S.schema("squares are ordered", lambda a, b: implies(and_(zero <= a, a <= b), a * a <= b * b), D.cauchy, D.radius)
        S.schema("squares are ordered", order, D.radius, D.newton)
        S.lemma("in squares", and_(D.p <= D.radius * D.radius, (D.radius * D.radius).lt(D.q)))
        diff = lambda C, N: [b - a for a, b in zip(C, N)]
        inner = lambda C, N: vdot(C, diff(C, N))
        # the line through both points, at parameter 1 and 2, in terms of its distance from 0
        qa = lambda C, N: vdot(diff(C, N), diff(C, N))
        qb = lambda C, N: xf(2) * (inner(C, N) - qa(C, N))
        qc = lambda C, N, R: vdot(C, C) - xf(2) * inner(C, N) + qa(C, N) - R * R
        point = lambda C, N, t: [x + (t - xf(1)) * (y - x) for x, y in zip(C, N)]
        S.schema("distinct points", lambda *e: implies(vdot(e[:n], e[:n]).lt(vdot(e[n:], e[n:])), zero.lt(qa(e[:n], e[n:]))), *C, *N)
        R = D.radius
        a, b, c = qa(C, N), qb(C, N), qc(C, N, R)
        S.assume(zero <= b if positive else b.lt(zero))
        S.lemma("at the Cauchy point", (a + b + c).same(D.p - R * R))
        S.lemma("at the Newton point", (xf(4) * a + xf(2) * b + c).same(D.q - R * R))
        hyp = lambda a, b, c: and_(zero.lt(a), a + b + c <= zero, zero.lt(xf(4) * a + xf(2) * b + c))
        a, b, c = S.generalise("the quadratic", [a, b, c], lambda a, b, c: and_(hyp(a, b, c), zero <= b if positive else b.lt(zero)))
        disc = lambda a, b, c: b * b - xf(4) * a * c
        S.positive("distance", a)
        if not positive:
            S.positive("minus b", -b)
        else:
            S.nonneg("b", b)
        S.schema("discriminant", lambda a, b, c: implies(hyp(a, b, c), and_(zero <= disc(a, b, c), implies(zero <= b, zero.lt(disc(a, b, c))))), a, b, c)
        if positive:
            S.positive("discriminant", disc(a, b, c))
        else:
            S.nonneg("discriminant", disc(a, b, c))
        s = X.x_sqrt(disc(a, b, c))
        if positive:
            S.positive("divisor", b + s)
        root = lambda a, b, s: (s - b) / (xf(2) * a)
        S.schema("root", lambda a, b, c, s: implies(and_(hyp(a, b, c), zero <= s, (s * s).same(disc(a, b, c))), and_(xf(1) <= root(a, b, s), root(a, b, s) <= xf(2))), a, b, c, s)
        t = root(a, b, s)
        S.lemma("zero", (a * t * t + b * t + c).same(zero))
        other = [xf(-2) * c / (b + s)] if positive else []
        (t,) = S.generalise("between both points", [t], lambda t: and_(xf(1) <= t, t <= xf(2), (a * t * t + b * t + c).same(zero)), also=other)
        S.nonneg("from the first", t - xf(1))
        S.nonneg("to the second", xf(2) - t)
        u = D.step()
        on = point(C, N, t)
        for i in range(n):
            S.check(f"between Cauchy and Newton point [{i}]", u[i].same(on[i]))
        S.schema("squared length", lambda *e: vdot(point(e[:n], e[n:2*n], e[-1]), point(e[:n], e[n:2*n], e[-1])).same(qa(e[:n], e[n:2*n]) * e[-1] * e[-1] + qb(e[:n], e[n:2*n]) * e[-1] + qc(e[:n], e[n:2*n], e[-2]) + e[-2] * e[-2]), *C, *N, R, t)
        S.check("on the boundary of the trust region", vdot(on, on).same(R * R))
        S.check("finite", and_(*[e.finite for e in u]))

    return ob


GS = ["DoglegDescent.query", "DoglegDescent.step", "newton_step"]
name = lambda ys, signs: "." + "".join({1: "+", -1: "-", 0: "0"}[k] for k in signs) if ys == "scalar" else ""
SIGNS = [(1, 1), (1, -1), (-1, 1), (-1, -1)]  # of Newton and Cauchy step, if numbers
for kind, ys, outs in CASES:
    for flat_ in (False, True) if kind == "egh" else (False,):
        tag = f"{kind}.{ys}.{outs}" + (".flat" if flat_ else "")
        prop.ob(f"dogleg.newton.{tag}", GS)(both_fit(kind, ys, outs, flat_))
        if not flat_:
            for signs in [(0, 0)] if ys != "scalar" else [(0, 1), (0, -1)]:
                prop.ob(f"dogleg.first leg.{tag}{name(ys, signs)}", GS)(first_leg(kind, ys, outs, signs))
        for signs in [(0, 0)] if ys != "scalar" else [(1, 0), (-1, 0)] if flat_ else SIGNS:
            for positive in (False,) if flat_ or signs in ((1, -1), (-1, 1)) else (True, False):
                prop.ob(f"dogleg.second leg.{tag}{name(ys, signs)}.{'positive' if positive else 'negative'}", GS)(second_leg(kind, ys, outs, flat_, positive, signs))


class Bracketing(Oracle):
    """Additionally keeps to its interval."""

    def step(self, fn, y, args, options, state, tags):
        keep = lambda x: jnp.minimum(jnp.maximum(x, options["lower"]), options["upper"])
        return Oracle(keep(self.first), keep(self.second), self.tol).step(fn, y, args, options, state, tags)


def other_norm(kind, ys, outs, what):
    def ob(S):
        norm = Norm(S)
        mk = lambda D, f: optx.DoglegDescent(linear_solver=D.linear_solver, root_finder=Bracketing(f[0], f[2], f[1]), trust_region_norm=norm)
        finder = S.float("finder", (3,), hint=(0.5, 2.5))
        t, tol, other = finder
        S.assume(xf(0) <= tol)
        D = Dogleg(S, kind, ys, outs, False, norm=norm)
        if what == "Newton":
            S.assume(D.cauchy <= D.radius, D.newton <= D.radius)
            u = D.step(finder, mk=mk)
            on = D.N
        elif what == "first leg":
            S.assume(D.radius.lt(D.cauchy))
            S.positive("beyond the trust region", D.cauchy - D.radius)
            S.assume(xf(EPS).lt(D.cauchy))
            S.positive("length", D.cauchy)
            u = D.step(finder, mk=mk)
            on = [D.radius / D.cauchy * e for e in D.C]
        else:
            S.assume(D.cauchy <= D.radius, D.radius.lt(D.newton))
            S.positive("Newton step beyond the trust region", D.newton - D.radius)
            u = D.step(finder, mk=mk)
            keep = lambda e: X.x_min(X.x_max(e, xf(1)), xf(2))
            point = lambda t: [a + (t - xf(1)) * (b - a) for a, b in zip(D.C, D.N)]
            on, on2 = point(keep(t)), point(keep(other))
            diff = norm.spec(split(S, on, D.M.I.ys)) - D.radius
            found = and_(diff <= tol, -diff <= tol)
        for i in range(D.M.n):
            if what == "second leg":
                S.check(f"the point found [{i}]", implies(found, u[i].same(on[i])))
                S.check(f"a point between both [{i}]", or_(found, u[i].same(on2[i])))
            else:
                S.check(f"{what} [{i}]", u[i].same(on[i]))
        S.check("finite", and_(*[e.finite for e in u]))

    return ob


for kind, ys, outs in CASES:
    for what in ("Newton", "first leg", "second leg") if (kind, ys) != ("rj", "vec") else ("Newton",):
        prop.ob(f"dogleg.other norm.{what}.{kind}.{ys}.{outs}", GS + ["root_find"])(other_norm(kind, ys, outs, what))
