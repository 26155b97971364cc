"""C10: BFGS and DFP updates."""

from vc.core import *
from vc.core import RandomSource, tiny
from vc.driver import T
from vc.runner import Property
from vc.search import *
from vc.search import _operator
from vc.xf import *

prop = Property("C10", [
    "the Hessian approximation before the update is symmetric, and positive definite where positive definiteness is used",
    "curvature between zero and the machine epsilon may or may not be used",
])
EPS = Fraction(float(np.finfo(np.float64).eps))
# (solver, inverse): the kind of formula, and whether it maps gradient changes to steps
KINDS = {("BFGS", True): "product", ("BFGS", False): "sum", ("DFP", True): "sum", ("DFP", False): "product"}


def spd(S, name, n):
    """A symmetric matrix (random samples are positive definite)."""
    if S.concrete and isinstance(S.source, RandomSource):
        L = np.array([[S.source.rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        M = L @ L.T + 0.1 * np.eye(n)
        S.inputs_used[name] = M.tolist()
        return lift(M)
    M = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            M[i, j] = M[j, i] = S.float(f"{name}[{i},{j}]").item()
    return sarr(M)


def dot(a, b):
    s = xf(0)
    for p, q in zip(a, b):
        s = s + p * q
    return s


class Update:
    """One call of update_hessian on arbitrary arguments."""

    def __init__(self, S, cls, inverse, ys):
        self.S, self.cls, self.inverse = S, cls, inverse
        self.I = I = Infos(S, "eghi" if inverse else "egh", ys)
        self.n = n = I.n
        flat = lambda t: np.array(S.scalars(t), dtype=object)
        self.y, self.g = S.like(I.ys, "y"), S.like(I.ys, "gradient")
        with tiny(S):
            self.s, self.d = S.like(I.ys, "step"), S.like(I.ys, "change")
        add = lambda a, b: S.map(lambda p, q: p + q, a, b)
        self.ye, self.ge = add(self.y, self.s), add(self.g, self.d)
        self.M = spd(S, "H", n)
        self.f, self.fe = S.float("f"), S.float("f_new")
        s, d = flat(self.s), flat(self.d)
        self.a, self.b = (s, d) if inverse else (d, s)  # the update maps b to a
        self.inner = dot(s, d)

    def go(self, y, ye, f, g, M, fe, ge):
        info = self.I.mk(dict(f=f, g=g, H=M), lx.positive_semidefinite_tag)
        sol = getattr(optx, self.cls)(rtol=1e-3, atol=1e-3, use_inverse=self.inverse)
        new, st = sol.update_hessian(y, ye, info, FI.EvalGrad(fe, ge), None)
        op = new.hessian_inv if self.inverse else new.hessian
        return op.as_matrix(), new.f, new.grad

    def run(self):
        return self.S.run(self.go, self.y, self.ye, self.f, self.g, self.M, self.fe, self.ge, key="update")

    def pd(self, v):
        """The old matrix is positive definite: its quadratic form at v."""
        q = dot(v, np.asarray(self.M).dot(v))
        self.S.assume(xf(0) <= q, or_(*[xf(0).lt(q)], and_(*[e.same(xf(0)) for e in v])))
        return q

    def formula(self):
        n, a, b, rho = self.n, self.a, self.b, xf(1) / self.inner
        M = np.asarray(self.M)
        Mb = M.dot(b)
        if KINDS[self.cls, self.inverse] == "sum":
            q = dot(b, Mb)
            return lambda i, j: M[i, j] + a[i] * a[j] / self.inner - Mb[i] * Mb[j] / q
        L = np.array([[xf(int(i == j)) - rho * a[i] * b[j] for j in range(n)] for i in range(n)], dtype=object)
        P = L.dot(M).dot(L.T)
        return lambda i, j: P[i, j] + rho * a[i] * a[j]

    def curved(self):
        """Positive curvature; the divisors of the formulas do not vanish."""
        S = self.S
        S.assume(xf(EPS).lt(self.inner))
        S.positive("curvature", self.inner)
        if KINDS[self.cls, self.inverse] == "sum":
            for i, (p, q) in enumerate(zip(self.a, self.b)):
                S.schema("products with zero", lambda p, q: implies(q.same(xf(0)), (p * q).same(xf(0))), p, q)
            S.lemma("the step does not vanish", or_(*[not_(e.same(xf(0))) for e in self.b]))
            S.positive("quadratic form", self.pd(self.b))


def update(cls, inverse, ys):
    def ob(S):
        U = Update(S, cls, inverse, ys)
        U.curved()
        M2, f, g = U.run()
        n, want = U.n, U.formula()
        for i in range(n):
            for j in range(n):
                S.check(f"textbook formula [{i},{j}]", M2[i, j].same(want(i, j)))
        for i in range(n):
            for j in range(i):
                S.check(f"symmetric [{i},{j}]", M2[i, j].same(M2[j, i]))
        for i in range(n):
            S.check(f"secant equation [{i}]", dot(M2[i], U.b).same(U.a[i]))
        S.check("carries the new value and gradient", and_(S.same(f, U.fe), S.same(g, U.ge)))

    return ob


def definite(cls, inverse, ys):
    def ob(S):
        U = Update(S, cls, inverse, ys)
        U.curved()
        M2, f, g = U.run()
        n, a, b, inner = U.n, U.a, U.b, U.inner
        v = np.array(S.scalars(S.float("v", (n,))), dtype=object)
        S.assume(or_(*[not_(e.same(xf(0))) for e in v]))
        av = dot(a, v)
        if KINDS[cls, inverse] == "product":
            c = av / inner
            u = np.array([p - c * q for p, q in zip(v, b)], dtype=object)
        else:
            Mb = np.asarray(U.M).dot(b)
            c = dot(v, Mb) / dot(b, Mb)
            u = np.array([p - c * q for p, q in zip(v, b)], dtype=object)
        q = dot(v, np.asarray(M2).dot(v))
        rest = av * av / inner
        old = U.pd(u)
        S.lemma("completing the square", q.same(old + rest))
        S.schema("squares", lambda p, r: implies(xf(0).lt(r), and_(xf(0) <= p * p / r, implies(not_(p.same(xf(0))), xf(0).lt(p * p / r)))), av, inner)
        S.schema("product", lambda p, r: implies(xf(0).lt(r), implies(not_(p.same(xf(0))), not_((p * r).same(xf(0))))), c, inner)
        au = [p * e for p, e in zip(a, u)]
        for p, e, k in zip(a, u, au):
            S.schema("products with zero", lambda p, e: implies(e.same(xf(0)), (p * e).same(xf(0))), p, e)
        for e in b:
            S.schema("products with zero", lambda p, e: implies(p.same(xf(0)), (p * e).same(xf(0))), c, e)
        S.lemma("along the step", av.same(dot(a, u) + (c * inner if KINDS[cls, inverse] == "sum" else av)) if KINDS[cls, inverse] == "sum" else True)
        S.check("positive definite", xf(0).lt(q))

    return ob


def unchanged(cls, inverse, ys):
    def ob(S):
        U = Update(S, cls, inverse, ys)
        S.assume(U.inner <= xf(0))
        M2, f, g = U.run()
        S.check("unchanged without positive curvature", S.same(M2, U.M))
        S.check("carries the new value and gradient", and_(S.same(f, U.fe), S.same(g, U.ge)))

    return ob


def dual(cls, ys):
    """Both representations stay inverse to each other."""

    def ob(S):
        D = Update(S, cls, False, ys)
        n, B = D.n, np.asarray(D.M)
        if n == 1:
            det, adj = B[0, 0], [[xf(1)]]
        else:
            det = B[0, 0] * B[1, 1] - B[0, 1] * B[1, 0]
            adj = [[B[1, 1], -B[0, 1]], [-B[1, 0], B[0, 0]]]
        S.assume(xf(0).lt(det), xf(0).lt(B[0, 0]))  # positive definite
        S.positive("determinant", det)
        V = object.__new__(Update)
        V.__dict__.update(D.__dict__)
        V.inverse, V.I = True, Infos(S, "eghi", ys)
        V.M = sarr(np.array([[e / det for e in r] for r in adj], dtype=object))
        V.a, V.b = D.b, D.a
        D.curved()
        if KINDS[cls, True] == "sum":
            V.curved()
        B2, _, _ = D.run()
        H2, _, _ = S.run(V.go, V.y, V.ye, V.f, V.g, V.M, V.fe, V.ge, key="inverse update")
        P = np.asarray(B2).dot(np.asarray(H2))
        for i in range(n):
            for j in range(n):
                S.check(f"product of the two representations [{i},{j}]", P[i, j].same(xf(int(i == j))))

    return ob


def history(inverse, ys):
    """For any update rule: it sees the two last accepted points, starting from the
    initial matrix, and the descent sees its result; rejected steps change nothing."""

    def ob(S):
        M = Machine(S, "qn", ys, use_inverse=inverse)
        c, new, obs = M.run()
        S.check("iterates are those of the documented updates", S.same(new["y"], obs["spec_y"]))

    return ob


def initial(cls, inverse, ys):
    def ob(S):
        U = Update(S, cls, inverse, ys)

        def go(y, f, g):
            info, st = getattr(optx, cls)(rtol=1e-3, atol=1e-3, use_inverse=inverse).init_hessian(y, f, g)
            op = info.hessian_inv if inverse else info.hessian
            return op.as_matrix(), info.f, info.grad

        M, f, g = S.run(go, U.y, U.f, U.g)
        eye = [[xf(int(i == j)) for j in range(U.n)] for i in range(U.n)]
        S.check("starts from the identity", and_(*[M[i, j].same(eye[i][j]) for i in range(U.n) for j in range(U.n)]))

    return ob


for cls in ("BFGS", "DFP"):
    for inverse in (True, False):
        FN = [f"Abstract{cls}.update_hessian", f"Abstract{cls}.init_hessian"]
        prop.ob(f"initial.{cls}.{'inverse' if inverse else 'direct'}.many", FN)(initial(cls, inverse, "many"))
        for ys in ("scalar", "vec", "nested", "dict"):
            tag = f"{cls}.{'inverse' if inverse else 'direct'}.{ys}"
            prop.ob(f"update.{tag}", FN)(update(cls, inverse, ys))
            prop.ob(f"definite.{tag}", FN)(definite(cls, inverse, ys))
            prop.ob(f"unchanged.{tag}", FN)(unchanged(cls, inverse, ys))
            prop.ob(f"initial.{tag}", FN)(initial(cls, inverse, ys))
    for ys in ("scalar", "vec", "nested"):
        prop.ob(f"dual.{cls}.{ys}", FN)(dual(cls, ys))
for inverse in (True, False):
    for ys in ("scalar", "vec", "dict"):
        prop.ob(f"history.{'inverse' if inverse else 'direct'}.{ys}", ["AbstractQuasiNewton.init", "AbstractQuasiNewton.step"])(history(inverse, ys))
