"""C12: nonlinear conjugate gradients."""

from vc.core import *
from vc.driver import T, code_of
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C12", ["a denominator counts as vanishing below the machine epsilon of its type; between zero and that the formula is not fixed"])
EPS = float(np.finfo(np.float64).eps)


def dot(a, b):
    s = xf(0)
    for u, v in zip(a, b):
        s = s + u * v
    return s


def formula(name, g, gp, dp):
    """(numerator, denominator, clip at zero)"""
    dg = [a - b for a, b in zip(g, gp)]
    if name == "polak_ribiere":
        return dot(g, dg), dot(gp, gp), True
    if name == "fletcher_reeves":
        return dot(g, g), dot(gp, gp), False
    if name == "hestenes_stiefel":
        return dot(g, dg), dot(dp, dg), False
    return dot(g, g), dot(dp, dg), False


def beta_spec(b, name, g, gp, dp):
    num, den, clip = formula(name, g, gp, dp)
    q = num / den
    if clip:
        q = X.x_ite(q.lt(xf(0)), xf(0), q)
    return and_(
        implies(den.same(xf(0)), b.same(xf(0))),
        implies(xf(EPS).lt(abs(den)), b.same(q)),
    )


def betas(name, ys):
    def ob(S):
        t = YS[ys]
        g, gp, dp = S.like(t, "grad"), S.like(t, "grad_prev"), S.like(t, "diff_prev")
        b = S.s(S.run(getattr(optx, name), g, gp, dp))
        G, GP, DP = S.scalars(g), S.scalars(gp), S.scalars(dp)
        S.check("textbook formula, zero when the denominator vanishes", beta_spec(b, name, G, GP, DP))
        S.check("is finite", b.finite)
        if name == "hestenes_stiefel" and ys in ("scalar", "vec"):
            num, den, _ = formula(name, G, GP, DP)
            d = [-u + b * v for u, v in zip(G, DP)]
            dg = [u - v for u, v in zip(G, GP)]
            S.check("direction is conjugate to the gradient change", implies(xf(EPS).lt(abs(den)), dot(d, dg).same(xf(0))))

    return ob


def descent(kind, ys, solver=False):
    """Over any sequence of queries and for any function giving beta."""

    def ob(S):
        I = Infos(S, kind, ys)
        B = S.fn("beta", struct(()))
        fn = lambda g, gp, dp: B(g, gp, dp)
        bspec = lambda g, gp, dp: B.spec(g, gp, dp).item()
        D = optx.NonlinearCG(1e-3, 1e-3, method=fn).descent if solver else optx.NonlinearCGDescent(fn)
        count = [0]
        zero = S.map(lambda e: xf(0), S.like(I.ys, "shape"))

        def init(S):
            y0 = S.like(I.ys, "y0")
            d0 = I.draw("info0")
            st = S.run(lambda y, d: D.init(y, jax.eval_shape(lambda: I.mk(d))), y0, d0, key="init")
            return dict(st=st, g=dict(d=zero, grad=zero))

        def step(S, c):
            count[0] += 1
            k = count[0]
            y, d = S.like(I.ys, f"y{k}"), I.draw(f"info{k}")
            ss = S.float(f"size{k}")

            def go(y, d, st, ss):
                st2 = D.query(y, I.mk(d), st)
                u, r = D.step(ss, st2)
                return st2, u, code_of(r)

            st2, u, code = S.run(go, y, d, c["st"], ss, key="query")
            G = I.grad(d)
            gt = zero
            leaves, td = jtu.tree_flatten(zero, is_leaf=is_sym)
            out, off = [], 0
            for l in leaves:
                n = l.size
                out.append(sarr(G[off : off + n].reshape(l.shape)))
                off += n
            gt = jtu.tree_unflatten(td, out)
            b = bspec(gt, c["g"]["grad"], c["g"]["d"])
            cand = S.map(lambda g, p: -g + b * p, gt, c["g"]["d"])
            ok = S.dot(gt, cand).lt(xf(0))
            dirn = S.map(lambda p, g: X.x_ite(ok, p, -g), cand, gt)
            obs = dict(u=u, code=S.s(code), dir=dirn, ss=ss.item(), grad=gt)
            return dict(st=st2, g=dict(d=dirn, grad=gt)), obs

        c, new, o = S.evolve(init, step)
        S.check("step is the step size times the direction", S.same(o["u"], S.map(lambda v: o["ss"] * v, o["dir"])))
        S.check("never points uphill", implies(xf(0) <= o["ss"], S.dot(o["grad"], o["u"]) <= xf(0)))
        S.check("reports success", X.i_eq(o["code"], 0))

    return ob


NAMES = ("polak_ribiere", "fletcher_reeves", "hestenes_stiefel", "dai_yuan")
for nm in NAMES:
    for ys in ("scalar", "vec", "dict", "nested"):
        prop.ob(f"beta.{nm}.{ys}", [nm])(betas(nm, ys))
for kind in ("eg", "egh", "eghi", "rj"):
    for ys in ("vec", "nested"):
        prop.ob(f"descent.any-beta.{kind}.{ys}", ["NonlinearCGDescent.init", "NonlinearCGDescent.query", "NonlinearCGDescent.step", "FunctionInfo.compute_grad"])(descent(kind, ys))


prop.ob("solver.any-beta", ["NonlinearCG.__init__", "NonlinearCGDescent.init", "NonlinearCGDescent.query", "NonlinearCGDescent.step"])(descent("eg", "vec", True))


@prop.ob("default formula", ["NonlinearCG.__init__", "polak_ribiere"])
def _(S):
    """The default is Polak-Ribiere: same second step as with that formula given."""
    I = Infos(S, "eg", "vec")
    y0, y1, d0, d1, d2 = S.like(I.ys, "y0"), S.like(I.ys, "y1"), I.draw("info0"), I.draw("info1"), I.draw("info2")

    def go(D, y0, y1, d0, d1, d2):
        st = D.init(y0, jax.eval_shape(lambda: I.mk(d0)))
        st = D.query(y0, I.mk(d0), st)
        st = D.query(y1, I.mk(d1), st)
        return D.step(1.0, D.query(y1, I.mk(d2), st))[0]

    a = S.run(lambda *x: go(optx.NonlinearCG(1e-3, 1e-3).descent, *x), y0, y1, d0, d1, d2)
    b = S.run(lambda *x: go(optx.NonlinearCGDescent(optx.polak_ribiere), *x), y0, y1, d0, d1, d2)
    S.check("same steps", S.same(a, b))
