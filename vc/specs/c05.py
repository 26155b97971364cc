"""C05: implicit derivatives solve the implicit function equation."""

from vc.core import *
from vc.driver import *
from vc.lin import *
from vc.runner import Property
from vc.search import size
from vc.xf import *

prop = Property("C05", [
    "user-written solvers are pure functions of what the interface passes them",
    "a linear solver that reports success has solved the system, and its transposed version the transposed system",
])


def vdot(a, b):
    s = xf(0)
    for p, q in zip(a, b):
        s = s + p * q
    return s


def number(e):
    return float(e.r) if e.plain and abs(e.r) < 10**300 else np.nan


class Condition:
    """The optimality condition F(y, args, c) = 0 of a problem, linearised at v."""

    def __init__(self, S, P, v, args, c):
        self.S, self.P = S, P
        self.at = (v, args, c)
        self.leaves = jtu.tree_leaves(self.at, is_leaf=is_sym)
        k = len(jtu.tree_leaves(v, is_leaf=is_sym))
        self.ys, self.others = range(k), (k, k + 1)
        self.n, self.m = size(P.ys), size(P.outs)

    def d1(self, i):
        """Derivative of the outputs with respect to the i-th argument: outputs x entries."""
        outs = jtu.tree_leaves(self.P.U.dspec(i, *self.at)[0], is_leaf=is_sym)
        return np.concatenate([np.asarray(d, dtype=object).reshape(-1, self.leaves[i].size) for d in outs])

    def d2(self, i, j):
        """Second derivatives: outputs x entries of i x entries of j."""
        outs = jtu.tree_leaves(self.P.U.out)
        avals = tuple((tuple(o.shape) + self.leaves[i].shape + self.leaves[j].shape, np.dtype(o.dtype)) for o in outs)
        got = self.S.opaque(f"U.d{i}.d{j}", avals, self.leaves)
        got = jtu.tree_leaves(jtu.tree_unflatten(jtu.tree_structure(self.P.U.out), [sarr(g) for g in got])[0], is_leaf=is_sym)
        return np.concatenate([np.asarray(d, dtype=object).reshape(-1, self.leaves[i].size, self.leaves[j].size) for d in got])

    def matrix(self, cols):
        """dF / d(arguments with these numbers)."""
        e, out = self.P.entry, []
        f = np.array(self.S.scalars(self.P.U.spec(*self.at)[0]), dtype=object)
        J = [self.d1(i) for i in self.ys]
        for j in cols:
            if e in ("root", "fp"):
                out.append(self.d1(j))
                continue
            rows = []
            for i in self.ys:
                D = self.d2(i, j)
                if e == "min":
                    rows.append(D[0])
                    continue
                Jj = self.d1(j)
                block = np.empty((D.shape[1], D.shape[2]), dtype=object)
                for a in range(D.shape[1]):
                    for b in range(D.shape[2]):
                        block[a, b] = vdot(J[i][:, a], Jj[:, b]) + vdot(f, D[:, a, b])
                rows.append(block)
            out.append(np.concatenate(rows))
        M = np.concatenate(out, axis=1)
        if e == "fp" and list(cols) == list(self.ys):
            for i in range(self.n):
                M[i, i] = M[i, i] - xf(1)
        return M


def regular(S, A, B):
    """Concrete runs are restricted to systems for which rounding does not matter."""
    if not S.concrete:
        return True
    A, B = (np.array([[number(e) for e in row] for row in M]) for M in (A, B))
    return all(bool(np.all(np.abs(M) < 1e3)) for M in (A, B)) and bool(np.linalg.cond(A) < 1e3)


class Solve:
    def __init__(self, S, entry, family, max_steps=256, **kw):
        self.S = S
        self.P = P = Setup(S, entry, family, finite_y=True, **kw)
        self.L = Lin(S, solves=True, can_fail=False)
        self.y0, self.args, self.o, self.c = S.like(P.ys, "y0"), S.float("args", (1,)), S.float("option"), S.float("closed_over")
        self.R = Run(P, self.y0, self.args, self.o, self.c)
        self.max_steps = max_steps
        adjoint = optx.ImplicitAdjoint(linear_solver=self.L.solver())

        def solve(y0, args, o, c):
            sol = P.solve(y0, args, o, c, max_steps=max_steps, adjoint=adjoint)
            return sol.value, sol

        self.solve = solve
        self.inputs = (self.y0, self.args, self.o, self.c)

    def run(self, f, *more, key):
        return self.S.run(f, *self.inputs, *more, loop=self.R.handler(self.max_steps), key=key)

    def linearised(self, v, sol):
        """The condition at the value returned, which is the one the solver gave."""
        S, R = self.S, self.R
        h = R.at(S.s(sol.stats["num_steps"]))
        want, _, _ = R.post(h, S.s(code_of(sol.result)))
        for i, (a, b) in enumerate(zip(S.scalars(v), S.scalars(want))):
            S.check(f"value [{i}]", a.same(b))
        S.assume(S.finite_(v))
        C = Condition(S, self.P, v, self.args, self.c)
        A, B = C.matrix(C.ys), C.matrix(C.others)
        S.assume(regular(S, A, B))
        return A, B


def forward(entry, family, **kw):
    def ob(S):
        Q = Solve(S, entry, family, **kw)
        P = Q.P
        t = (S.like(P.ys, "dy0"), S.float("dargs", (1,)), S.float("doption"), S.float("dclosed"))

        def go(y0, args, o, c, *t):
            val, dv, sol = jax.jvp(Q.solve, (y0, args, o, c), t, has_aux=True)
            return val, dv, sol

        v, dv, sol = Q.run(go, *t, key="jvp")
        A, B = Q.linearised(v, sol)
        dv = np.array(S.scalars(dv), dtype=object)
        rhs = [t[1][0], t[3].item()]
        for i in range(len(A)):
            S.check(f"linearised condition [{i}]", (vdot(A[i], dv) + vdot(B[i], rhs)).same(xf(0)))
        S.check("finite", and_(*[e.finite for e in dv]))

    return ob


def reverse(entry, family, **kw):
    def ob(S):
        Q = Solve(S, entry, family, **kw)
        P = Q.P
        g = S.like(P.ys, "cotangent")

        def go(y0, args, o, c, g):
            val, pull, sol = jax.vjp(Q.solve, y0, args, o, c, has_aux=True)
            return val, pull(g), sol

        v, (gy0, gargs, go_, gc), sol = Q.run(go, g, key="vjp")
        A, B = Q.linearised(v, sol)
        for i, e in enumerate(S.scalars(gy0)):
            S.check(f"nothing for the initial guess [{i}]", e.same(xf(0)))
        S.check("nothing for the options", S.s(go_).same(xf(0)))
        # whatever solves the linearised condition
        S.algebra()
        rhs = [S.float("dargs", (1,))[0], S.float("dclosed").item()]
        if S.concrete:
            M, N = (np.array([[number(e) for e in row] for row in m]) for m in (A, B))
            dv = [xf(Fraction(float(e))) for e in np.linalg.solve(M, -N @ np.array([number(e) for e in rhs]))]
        else:
            dv = [e for e in S.float("dv", (len(A),))]
            for i in range(len(A)):
                S.assume((vdot(A[i], dv) + vdot(B[i], rhs)).same(xf(0)))
        S.check("pairing", (vdot(S.scalars(g), dv)).same(vdot([gargs[0], S.s(gc)], rhs)))
        S.check("finite", and_(gargs[0].finite, S.s(gc).finite))

    return ob


FN = {"fp": "fixed_point", "root": "root_find", "lsq": "least_squares", "min": "minimise"}
WHAT = lambda e: [FN[e], "iterative_solve", "_rewrite_fn", "ImplicitAdjoint.apply", "implicit_jvp", "_implicit_impl_jvp"]
for e, f in PAIRS:
    prop.ob(f"forward.{e}-via-{f}", WHAT(e))(forward(e, f, ystruct="vec" if e in ("lsq", "min") else "dict"))
    prop.ob(f"reverse.{e}-via-{f}", WHAT(e))(reverse(e, f, ystruct="vec" if e in ("lsq", "min") else "dict"))
for e, f in [("fp", "fp"), ("root", "root"), ("root", "min"), ("lsq", "lsq"), ("min", "min")]:
    for how, ob in (("forward", forward), ("reverse", reverse)):
        prop.ob(f"{how}.{e}-via-{f}.number", WHAT(e))(ob(e, f, ystruct="scalar", outstruct="scalar", has_aux=False, options=False, tags=False))
prop.ob("forward.lsq-via-lsq.dict", WHAT("lsq"))(forward("lsq", "lsq", ystruct="nested", outstruct="vec"))
prop.ob("reverse.min-via-min.dict", WHAT("min"))(reverse("min", "min", ystruct="nested"))
