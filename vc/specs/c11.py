"""C11: limited-memory BFGS."""

from vc.core import *
from vc.core import tiny
from vc.driver import T
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C11", [
    "the memory holds 1, 2 or 3 pairs",
    "the counter of the memory does not overflow",
    "curvature between zero and the machine epsilon may or may not be used",
])
STATIC = {}  # what the traces of the real code return besides arrays
EPS = Fraction(float(np.finfo(np.float64).eps))


def vdot(a, b):
    s = xf(0)
    for p, q in zip(a, b):
        s = s + p * q
    return s


class Memory:
    """A real memory after updates with the given number of arbitrary pairs."""

    def __init__(self, S, inverse, ys, h, k, tag=""):
        self.tag = tag
        self.S, self.inverse, self.h, self.ys = S, inverse, h, YS[ys]
        self.n = size(self.ys)
        self.k = k
        self.pairs = []  # all pairs, oldest first: (s, d, trees)
        for i in range(k):
            with tiny(S):
                s, d = S.like(self.ys, f"step{i}"), S.like(self.ys, f"change{i}")
            self.pairs.append((np.array(S.scalars(s), dtype=object), np.array(S.scalars(d), dtype=object), s, d))
        self.kept = list(range(max(0, k - h), k))
        self.vs = {"v": S.like(self.ys, self.tag + "v")}

    def solver(self):
        return optx.LBFGS(rtol=1e-3, atol=1e-3, use_inverse=self.inverse, history_length=self.h)

    def init(self):
        S = self.S
        y, g = S.like(self.ys, self.tag + "y"), S.like(self.ys, self.tag + "gradient")
        return self.real("init", lambda y, f, g: self.solver().init_hessian(y, f, g), y, S.float(self.tag + "f"), g), y, g

    def real(self, key, f, *args):
        """Runs the real code; Python numbers in its result stay what they are."""

        def go(*args):
            dyn, STATIC[key] = eqx.partition(f(*args), eqx.is_array)
            return dyn

        key = (key, self.inverse, self.h, repr(self.ys))
        return eqx.combine(self.S.run(go, *args, key=key), STATIC[key], is_leaf=is_sym)

    def step(self, y, ye, f_info, fe, ge, st):
        return self.solver().update_hessian(y, ye, f_info, FI.EvalGrad(fe, ge), st)

    def update(self, mem, y, g, s, d, fe):
        S = self.S
        add = lambda a, b: S.map(lambda p, q: p + q, a, b)
        ye, ge = add(y, s), add(g, d)
        info, st = self.real("update", self.step, y, ye, mem[0], fe, ge, mem[1])
        return (info, st), ye, ge

    def run(self):
        mem, y, g = self.init()
        for i in range(self.k):
            _, _, s, d = self.pairs[i]
            mem, y, g = self.update(mem, y, g, s, d, self.S.float(f"{self.tag}f{i}"))
        return mem

    def mv(self, mem, v):
        def go(info, v):
            op = info.hessian_inv if self.inverse else info.hessian
            return op.mv(v)

        return self.S.run(go, mem[0], v, key="mv")

    def curved(self):
        S = self.S
        for i in range(self.k):
            s, d, *_ = self.pairs[i]
            S.assume(xf(EPS).lt(vdot(s, d)))
        if not self.inverse:
            vec, base = self.table()
            S.abbreviate(*[base(a, b) for a in vec for b in vec])
        for i in range(self.k):
            s, d, *_ = self.pairs[i]
            S.positive(f"curvature above the threshold", vdot(s, d) - xf(EPS))
            S.positive(f"curvature", vdot(s, d))
        for i in self.kept[-1:]:
            s, d, *_ = self.pairs[i]
            for p, q in zip(s, d):
                S.schema("products with zero", lambda p, q: implies(q.same(xf(0)), (p * q).same(xf(0))), p, q)
                S.schema("squares", lambda q: and_(xf(0) <= q * q, implies(not_(q.same(xf(0))), xf(0).lt(q * q))), q)
            S.positive("size of the gradient change", vdot(d, d))
        if not self.inverse and self.kept:
            self.factor(self.kept)  # the forms the recursion divides by
            order = sorted(self.kept, key=lambda i: i % self.h)
            if order != self.kept:
                self.factor(order)

    def factor(self, slots):
        """The matrix factored by the compact representation is positive definite (Byrd,
        Nocedal and Schnabel 1994, theorem 2.4): its pivots are."""
        S, zero = self.S, xf(0)
        s, d = {i: self.pairs[i][0] for i in slots}, {i: self.pairs[i][1] for i in slots}
        l = self.kept[-1]
        D = {i: vdot(s[i], d[i]) for i in slots}
        gamma = vdot(d[l], d[l]) / D[l]
        S.positive("scale", gamma)
        L = lambda i, j: vdot(s[i], d[j]) if i > j else zero

        def A(i, j):
            t = gamma * vdot(s[i], s[j])
            for c in slots:
                if i > c and j > c:
                    t = t + L(i, c) * L(j, c) / D[c]
            return t

        pivots, low = {}, {}
        for a, i in enumerate(slots):
            for b, j in enumerate(slots[:a]):
                t = A(i, j)
                for c in slots[:b]:
                    t = t - low[i, c] * low[j, c] * pivots[c]
                low[i, j] = t / pivots[j]
            p = A(i, i)
            for c in slots[:a]:
                p = p - low[i, c] * low[i, c] * pivots[c]
            # the combination of the steps for which the form takes the value of the pivot
            x = {i: xf(1)}
            for b in range(a - 1, -1, -1):
                j = slots[b]
                t = zero
                for c in slots[b + 1 : a + 1]:
                    t = t - low[c, j] * x[c]
                x[j] = t
            x.update({j: zero for j in slots if j not in x})
            ks = self.kept
            total, theorem = form([x[j] for j in ks], [s[j] for j in ks], [d[j] for j in ks], gamma)
            S.lemma("pivot as a value of the form", p.same(total))
            S.assume(theorem)  # obligation "form.*"
            S.positive("pivot", p)
            pivots[i] = p

    # --- the recursion, on combinations of the pairs and v
    def table(self):
        """Inner products of the basis vectors ("s", i), ("d", i), "v"."""
        S = self.S
        vec = {k: np.array(S.scalars(v), dtype=object) for k, v in self.vs.items()}
        for i in self.kept:
            vec["s", i], vec["d", i] = self.pairs[i][:2]

        def dot(a, b):
            a, b = sorted((a, b), key=lambda k: k if isinstance(k, tuple) else ("z" + k, 0))
            if isinstance(b, tuple) and a[0] == "d" and b[0] == "s":
                a, b = b, a
            return vdot(vec[a], vec[b])

        return vec, dot

    def spec(self, key="v"):
        """(basis vectors, product with the recursion's matrix as a combination of them,
        the coefficients that complete the square, inner product of combinations, scale)"""
        vec, base = self.table()
        comb = lambda a, x, b: {k: a.get(k, xf(0)) + x * b.get(k, xf(0)) for k in {**a, **b}}

        def dot(a, b):
            s = xf(0)
            for p, x in a.items():
                for q, y in b.items():
                    s = s + x * y * base(p, q)
            return s

        one = lambda k: {k: xf(1)}
        if not self.kept:
            gamma = xf(1)
        else:
            l = self.kept[-1]
            sd, dd = base(("s", l), ("d", l)), base(("d", l), ("d", l))
            gamma = sd / dd if self.inverse else dd / sd

        cs = {}

        def apply(m, x, main=False):
            """The matrix after the first m kept pairs."""
            if m == 0:
                return {k: gamma * c for k, c in x.items()}
            i = self.kept[m - 1]
            s, d = one(("s", i)), one(("d", i))
            sd = dot(s, d)
            if self.inverse:
                c = dot(s, x) / sd
                u = apply(m - 1, comb(x, -c, d), main)
                if main:
                    cs[i] = c
                return comb(u, c - dot(d, u) / sd, s)
            Bs, Bx = apply(m - 1, s), apply(m - 1, x)
            out = comb(Bx, dot(d, x) / sd, d)
            c = dot(s, Bx) / dot(s, Bs)
            if main:
                cs[i] = c
                apply(m - 1, comb(x, -c, s), True)
            return comb(out, -c, Bs)

        return vec, apply(len(self.kept), one(key), True), [cs[i] for i in self.kept], dot, gamma


def form(x, s, d, gamma):
    """The quadratic form of the factored matrix at x (pairs oldest first), and the theorem
    that it is positive where x does not vanish."""
    zero, m = xf(0), range(len(x))
    D = [vdot(a, b) for a, b in zip(s, d)]
    uu = zero
    for i in m:
        for j in m:
            uu = uu + x[i] * x[j] * vdot(s[min(i, j)], s[max(i, j)])
    total = gamma * uu
    for c in m:
        w = zero
        for j in m:
            if j > c:
                w = w + x[j] * vdot(s[j], d[c])
        total = total + w * w / D[c]
    hyp = and_(zero.lt(gamma), *[zero.lt(e) for e in D], or_(*[not_(e.same(zero)) for e in x]))
    return total, implies(hyp, zero.lt(total))


def definite(ys, m):
    def ob(S):
        zero, n = xf(0), size(YS[ys])
        rows = lambda name: [np.array(S.scalars(S.float(f"{name}{i}", (n,))), dtype=object) for i in range(m)]
        s, d = rows("step"), rows("change")
        x, gamma = list(S.scalars(S.float("x", (m,)))), S.float("gamma").item()
        D = [vdot(a, b) for a, b in zip(s, d)]
        S.assume(zero.lt(gamma), *[zero.lt(e) for e in D], or_(*[not_(e.same(zero)) for e in x]))
        S.positive("curvature", *D)
        total, theorem = form(x, s, d, gamma)
        u = [vdot(x, [s[j][r] for j in range(m)]) for r in range(n)]
        w = []
        for c in range(m):
            t = zero
            for j in range(c + 1, m):
                t = t + x[j] * vdot(s[j], d[c])
            w.append(t)
        square = lambda g, u: g * u * u
        quot = lambda g, u: u * u / g
        squares = zero
        for e in u:
            squares = squares + square(gamma, e)
            S.schema("weighted squares", lambda g, u: implies(zero.lt(g), and_(zero <= square(g, u), implies(not_(u.same(zero)), zero.lt(square(g, u))))), gamma, e)
        for c in range(m):
            squares = squares + quot(D[c], w[c])
            S.schema("quotients of squares", lambda g, u: implies(zero.lt(g), and_(zero <= quot(g, u), implies(not_(u.same(zero)), zero.lt(quot(g, u))))), D[c], w[c])
        S.lemma("form as a sum of squares", total.same(squares))
        for c in range(m):
            rest = zero
            for j in range(c):
                p = vdot(s[j], d[c])
                rest = rest + p * x[j]
                S.schema("products with zero", lambda p, q: implies(q.same(zero), (p * q).same(zero)), p, x[j])
            S.schema("positive factors", lambda p, q: implies(zero.lt(p), implies((p * q).same(zero), q.same(zero))), D[c], x[c])
            du = zero
            for p, q in zip(d[c], u):
                S.schema("products with zero", lambda p, q: implies(q.same(zero), (p * q).same(zero)), p, q)
                du = du + p * q
            S.lemma("combination of the steps", du.same(w[c] + D[c] * x[c] + rest))
            S.lemma("vanishing combination", implies(total <= zero, x[c].same(zero)))
        S.check("positive definite", theorem)

    return ob


def chain(c, a, b, v, gamma):
    """The square completed along the recursion (pairs oldest first): u_m = v,
    u_{i-1} = u_i - c_i a_i; its value, and the theorem that it is positive for v not zero."""
    zero, m = xf(0), range(len(c))
    basis = {**{("a", i): a[i] for i in m}, **{("b", i): b[i] for i in m}, "v": v}

    def dot(p, q):
        t = zero
        for k, x in p.items():
            for l, y in q.items():
                t = t + x * y * GRAM(basis, k, l)
        return t

    D = [vdot(p, q) for p, q in zip(a, b)]
    u, total = {"v": xf(1)}, zero
    for i in reversed(m):
        w = dot({("b", i): xf(1)}, u)
        total = total + w * w / D[i]
        u = {**u, ("a", i): u.get(("a", i), zero) - c[i]}
    total = total + gamma * dot(u, u)
    hyp = and_(zero.lt(gamma), *[zero.lt(e) for e in D], or_(*[not_(e.same(zero)) for e in v]))
    return total, implies(hyp, zero.lt(total))


def GRAM(basis, k, l):
    return vdot(basis[k], basis[l])


def chained(ys, m):
    def ob(S):
        zero, n = xf(0), size(YS[ys])
        rows = lambda name: [np.array(S.scalars(S.float(f"{name}{i}", (n,))), dtype=object) for i in range(m)]
        a, b = rows("a"), rows("b")
        c, gamma = list(S.scalars(S.float("c", (m,)))), S.float("gamma").item()
        v = np.array(S.scalars(S.float("v", (n,))), dtype=object)
        D = [vdot(p, q) for p, q in zip(a, b)]
        S.assume(zero.lt(gamma), *[zero.lt(e) for e in D], or_(*[not_(e.same(zero)) for e in v]))
        S.positive("curvature", *D)
        total, theorem = chain(c, a, b, v, gamma)
        us = [None] * (m + 1)
        us[m] = list(v)
        for i in reversed(range(m)):
            us[i] = [p - c[i] * q for p, q in zip(us[i + 1], a[i])]
        w = [vdot(b[i], us[i + 1]) for i in range(m)]
        square = lambda g, u: g * u * u
        quot = lambda g, u: u * u / g
        squares = zero
        for e in us[0]:
            squares = squares + square(gamma, e)
            S.schema("weighted squares", lambda g, u: implies(zero.lt(g), and_(zero <= square(g, u), implies(not_(u.same(zero)), zero.lt(square(g, u))))), gamma, e)
        for i in range(m):
            squares = squares + quot(D[i], w[i])
            S.schema("quotients of squares", lambda g, u: implies(zero.lt(g), and_(zero <= quot(g, u), implies(not_(u.same(zero)), zero.lt(quot(g, u))))), D[i], w[i])
        S.lemma("a sum of squares", total.same(squares))
        for i in range(m):
            # where all of them vanish, so do the coefficients, and v
            S.schema("positive factors", lambda p, q: implies(zero.lt(p), implies((p * q).same(zero), q.same(zero))), D[i], c[i])
            du = zero
            for p, q in zip(b[i], us[i]):
                S.schema("products with zero", lambda p, q: implies(q.same(zero), (p * q).same(zero)), p, q)
                du = du + p * q
            S.lemma("one step back", w[i].same(du + D[i] * c[i]))
            S.lemma("vanishing coefficient", implies(total <= zero, c[i].same(zero)))
            for p in a[i]:
                S.schema("products with zero", lambda p, q: implies(p.same(zero), (p * q).same(zero)), c[i], p)
            S.lemma("vanishing remainder", implies(total <= zero, and_(*[e.same(zero) for e in us[i + 1]])))
        S.check("positive", theorem)

    return ob


def product(inverse, ys, h, k):
    def ob(S):
        M = Memory(S, inverse, ys, h, k)
        M.curved()
        mem = M.run()
        vec, want, *_ = M.spec()
        got = S.scalars(M.mv(mem, M.vs["v"]))
        for j in range(M.n):
            S.check(f"product with the retained pairs [{j}]", got[j].same(coordinate(vec, want, j)))

    return ob


def coordinate(vec, comb, j):
    w = xf(0)
    for key, c in comb.items():
        w = w + c * vec[key][j]
    return w


def secant(inverse, ys, h, k):
    def ob(S):
        M = Memory(S, inverse, ys, h, k)
        s, d, st, dt = M.pairs[-1]
        M.vs["v"] = dt if inverse else st
        M.curved()
        got = S.scalars(M.mv(M.run(), M.vs["v"]))
        for j in range(M.n):
            S.check(f"secant equation [{j}]", got[j].same((s if inverse else d)[j]))

    return ob


def shape(inverse, ys, h, k):
    """Symmetric and positive definite."""

    def ob(S):
        M = Memory(S, inverse, ys, h, k)
        M.vs["w"] = S.like(M.ys, "w")
        S.assume(or_(*[not_(e.same(xf(0))) for e in S.scalars(M.vs["v"])]))
        M.curved()
        mem = M.run()
        inner, values = {}, {}
        for key, other in (("v", "w"), ("w", "v")):
            vec, want, cs, dot, gamma = M.spec(key)
            got = S.scalars(M.mv(mem, M.vs[key]))
            names = list(want)
            for j in range(M.n):
                S.lemma(f"product with the retained pairs, {key} [{j}]", got[j].same(coordinate(vec, want, j)))
                for k2 in ("v", "w"):
                    S.schema("congruence", lambda p, q, x: implies(p.same(q), (x * p).same(x * q)), got[j], coordinate(vec, want, j), vec[k2][j])
            for k2 in (other, key) if key == "v" else (other,):
                x = vec[k2]

                def law(*e):
                    c, b, x = e[: len(names)], e[len(names) : -M.n], e[-M.n :]
                    rows = [b[i * M.n : (i + 1) * M.n] for i in range(len(names))]
                    lhs, rhs = xf(0), xf(0)
                    for j in range(M.n):
                        t = xf(0)
                        for ci, r in zip(c, rows):
                            t = t + ci * r[j]
                        lhs = lhs + x[j] * t
                    for ci, r in zip(c, rows):
                        rhs = rhs + ci * vdot(r, x)
                    return lhs.same(rhs)

                S.schema("distribution", law, *[want[m] for m in names], *[e for m in names for e in vec[m]], *x)
                inner[key, k2] = vdot(x, got)
                values[key, k2] = xf(0)
                for m in names:
                    values[key, k2] = values[key, k2] + want[m] * vdot(vec[m], x)
            if key == "v":
                a, b = [M.pairs[i][0] for i in M.kept], [M.pairs[i][1] for i in M.kept]
                total, theorem = chain(cs, *((b, a) if inverse else (a, b)), vec["v"], gamma)
                S.lemma("completing the square", values["v", "v"].same(total))
                S.assume(theorem)  # obligation "chain.*"
        S.check("positive definite", xf(0).lt(inner["v", "v"]))
        S.lemma("symmetric recursion", values["v", "w"].same(values["w", "v"]))
        S.check("symmetric", inner["v", "w"].same(inner["w", "v"]))

    return ob


def arrays(S, mem):
    return [x for x in jtu.tree_leaves(mem, is_leaf=is_sym) if is_sym(x)]


def kinds(S, mem):
    """(numbers, counters) of a memory."""
    fs, ns = [], []
    for a in arrays(S, mem):
        for e in np.asarray(a, dtype=object).reshape(-1):
            (fs if isinstance(e, XF) else ns).append(e)
    return fs, ns


def unchanged(inverse, ys, h):
    """Whatever the memory holds."""

    def ob(S):
        M = Memory(S, inverse, ys, h, 1)
        s, d, st, dt = M.pairs[0]
        mem0, y, g = M.init()
        mem = S.like(S.shape_of(mem0), "memory")
        S.assume(vdot(s, d) <= xf(0))
        fe = S.float("f_new")
        new, ye, ge = M.update(mem, y, mem[0].grad, st, dt, fe)
        op = lambda i: i.hessian_inv if inverse else i.hessian
        S.check("memory unchanged", S.same(arrays(S, new[1]), arrays(S, mem[1])))
        S.check("operator unchanged", S.same(arrays(S, op(new[0])), arrays(S, op(mem[0]))))
        S.check("carries the new value and gradient", and_(S.same(new[0].f, fe), S.same(new[0].grad, ge)))

    return ob


def forget(inverse, ys, h):
    """A full memory that has been overwritten entirely does not depend on what it held,
    nor on how often it was."""

    def ob(S):
        M = Memory(S, inverse, ys, h, 2 * h)
        for s, d, *_ in M.pairs:
            S.assume(xf(EPS).lt(vdot(s, d)))
        for s, d, *_ in M.pairs:
            S.positive("curvature above the threshold", vdot(s, d) - xf(EPS))
            S.positive("curvature", vdot(s, d))
        a = M.run()
        N = Memory(S, inverse, ys, h, 0, "second ")
        N.pairs, N.k = M.pairs[h:], h
        b = N.run()
        op = lambda m: m[0].hessian_inv if inverse else m[0].hessian
        (fa, na), (fb, nb) = kinds(S, (op(a), a[1])), kinds(S, (op(b), b[1]))
        same = [S.holds(f"number {i} of the memory", p.same(q)) for i, (p, q) in enumerate(zip(fa, fb))]
        same += [S.holds(f"counter {i} of the memory", i_eq(p % h, q % h)) for i, (p, q) in enumerate(zip(na, nb))]
        if not all(same):  # the code may represent the same operator differently
            S.check("product", S.same(M.mv(a, M.vs["v"]), M.mv(b, M.vs["v"])))

    return ob


def shift(inverse, ys, h, r):
    """Once the memory is full, counters only matter modulo its length."""

    def ob(S):
        M = Memory(S, inverse, ys, h, 1)
        s, d, st, dt = M.pairs[0]
        mem0, y, g = M.init()
        ma = S.like(S.shape_of(mem0), "memory")
        q = S.int("rounds", lo=1, hi=None).item()

        def put(mem, v):
            return jtu.tree_map(lambda x: const_int(x, v) if is_sym(x) and not isinstance(np.asarray(x, dtype=object).reshape(-1)[0], XF) else x, mem, is_leaf=is_sym)

        a, b = put(ma, r + h), put(ma, r + h + h * q)
        S.check("product", S.same(M.mv(a, M.vs["v"]), M.mv(b, M.vs["v"])))
        fe = S.float("f_new")
        a2, *_ = M.update(a, y, g, st, dt, fe)
        b2, *_ = M.update(b, y, g, st, dt, fe)
        (fa, na), (fb, nb) = kinds(S, a2), kinds(S, b2)
        S.check("numbers of the memory", and_(*[p.same(e) for p, e in zip(fa, fb)]))
        S.check("counters of the memory", and_(*[i_eq((e - p) % h, 0) for p, e in zip(na, nb)]))

    return ob


def const_int(x, v):
    out = np.empty(np.asarray(x, dtype=object).shape, dtype=object)
    out[...] = v
    return sarr(out, dtype_of(x))


INIT, UP, INV, DIR = "AbstractLBFGS.init_hessian", "AbstractLBFGS.update_hessian", "_lbfgs_inverse_hessian_operator_fn", "_lbfgs_hessian_operator_fn"
for m in (1, 2, 3):
    for ys in ("scalar", "vec", "dict"):
        prop.ob(f"form.{ys}.{m}", [DIR])(definite(ys, m))
        prop.ob(f"chain.{ys}.{m}", [])(chained(ys, m))
for inverse in (True, False):
    tag, FN = ("inverse", [INIT, UP, INV]) if inverse else ("direct", [INIT, UP, DIR])
    for h in (1, 2, 3):
        for ys in ("scalar", "vec", "dict"):
            prop.ob(f"unchanged.{tag}.{ys}.{h}", FN)(unchanged(inverse, ys, h))
            prop.ob(f"forget.{tag}.{ys}.{h}", FN)(forget(inverse, ys, h))
            for r in range(h):
                prop.ob(f"shift.{tag}.{ys}.{h}.{r}", FN)(shift(inverse, ys, h, r))
            for k in range(0, 2 * h):
                if inverse or h < 3 or ys == "scalar" or k < h:
                    prop.ob(f"product.{tag}.{ys}.{h}.{k}", FN)(product(inverse, ys, h, k))
                    if k:
                        prop.ob(f"secant.{tag}.{ys}.{h}.{k}", FN)(secant(inverse, ys, h, k))
                    if 0 < k <= 2:
                        prop.ob(f"shape.{tag}.{ys}.{h}.{k}", FN)(shape(inverse, ys, h, k))
