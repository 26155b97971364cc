"""C08: backtracking line search."""

from vc.core import *
from vc.driver import T, code_of
from vc.lin import Lin
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C08", ["the quantities passed to the search are arbitrary (trial values possibly NaN or infinite)"])
FN = ["BacktrackingArmijo.__post_init__", "BacktrackingArmijo.init", "BacktrackingArmijo.step", "FunctionInfo.as_min", "FunctionInfo.compute_grad_dot"]


def mk(p):
    return optx.BacktrackingArmijo(decrease_factor=p["df"], slope=p["sl"], step_init=p["si"])


def params(S):
    p = dict(df=S.float("decrease_factor", hint=(0, 1)), sl=S.float("slope", hint=(0, 1)), si=S.float("step_init", hint=(0, 2)))
    df, sl, si = (p[k].item() for k in ("df", "sl", "si"))
    return p, and_(xf(0).lt(df), df.lt(xf(1)), xf(0).lt(sl), sl.lt(xf(1)), xf(0).lt(si))


def search(kind, ys, outs="pair", full=False):
    def ob(S):
        I = Infos(S, kind, ys, outs, full)
        p, ok = params(S)
        S.assume(ok)
        count = [0]

        def init(S):
            y0 = S.like(I.ys, "y0")
            d0 = I.draw("info0")
            st = S.run(lambda p, y, d: mk(p).init(y, jax.eval_shape(lambda: I.mk(d))), p, y0, d0, key="init")
            return dict(st=st, g=dict(ss=p["si"], first=T(True)))

        def step(S, c):
            count[0] += 1
            k = count[0]
            y, ye = S.like(I.ys, f"y{k}"), S.like(I.ys, f"trial{k}")
            d, de = I.draw(f"info{k}"), I.draw_eval(f"eval{k}", finite=False)
            ss, acc, res, st = S.run(
                lambda p, fs, y, ye, d, de, st: mk(p).step(fs, y, ye, I.mk(d), I.mk_eval(de), st),
                p, c["g"]["first"], y, ye, d, de, c["st"], key="step")
            diff = np.array(S.scalars(S.map(lambda a, b: a - b, ye, y)), dtype=object)
            pred = xf(0)
            if kind == "rj":
                for v, r in zip(np.asarray(d["J"]).dot(diff), S.scalars(d["r"])):
                    pred = pred + v * r
            else:
                for u, v in zip(I.grad(d), diff):
                    pred = pred + u * v
            change = I.loss(de) - I.loss(d)
            sl, df, si = p["sl"].item(), p["df"].item(), p["si"].item()
            suff = and_(change <= sl * pred, pred <= xf(0))
            spec = or_(c["g"]["first"].item(), suff)
            sss = X.x_ite(spec, si, df * c["g"]["ss"].item())
            obs = dict(acc=S.s(acc), ss=S.s(ss), code=S.s(code_of(res)), spec=spec, sss=sss, bad=or_(I.loss(de).nan, I.loss(de).pinf), prev=c["g"]["ss"].item())
            return dict(st=st, g=dict(ss=T(sss), first=T(False))), obs

        c, new, o = S.evolve(init, step)
        S.check("accepts exactly on sufficient decrease", iff(o["acc"], o["spec"]))
        S.check("step size", o["ss"].same(o["sss"]))
        S.check("rejects NaN and infinite trial values", implies(and_(o["bad"], not_(c["g"]["first"].item())), not_(o["acc"])))
        S.check("reports success", X.i_eq(o["code"], 0))

    return ob


for kind in ("eg", "egh", "eghi", "rj"):
    for ys in ("vec", "dict"):
        prop.ob(f"search.{kind}.{ys}", FN)(search(kind, ys))
prop.ob("search.rj.vec.trial with Jacobian", FN)(search("rj", "vec", full=True))
prop.ob("search.rj.nested.vec3", FN)(search("rj", "nested", "vec3"))
prop.ob("search.eg.scalar", FN)(search("eg", "scalar"))


@prop.ob("rejects invalid parameters", ["BacktrackingArmijo.__post_init__"])
def _(S):
    p, ok = params(S)
    raised, _ = S.run_raises(lambda p: [jnp.asarray(x) for x in jtu.tree_leaves(mk(p))], p)
    S.check("raises exactly on invalid parameters", iff(raised, not_(ok)))


def homogeneous(mk_descent, kind, ys="dict"):
    """The step of a line-search descent is the step size times a fixed direction."""

    def ob(S):
        I = Infos(S, kind, ys)
        y, d = S.like(I.ys, "y"), I.draw("info")
        a, b = S.float("a"), S.float("b")
        if kind == "egh" or kind == "rj":
            L = Lin(S, can_fail=False)
        else:
            L = None

        def go(y, d, a, b):
            D = mk_descent(L)
            st = D.init(y, jax.eval_shape(lambda: I.mk(d)))
            st = D.query(y, I.mk(d), st)
            return D.step(a, st)[0], D.step(a * b, st)[0]

        d1, d2 = S.run(go, y, d, a, b)
        S.check("scaling the step size scales the step", S.same(d2, S.map(lambda u: b.item() * u, d1)))

    return ob


DESC = {
    "steepest": (lambda L: optx.SteepestDescent(), ["SteepestDescent.query", "SteepestDescent.step"], ("eg", "egh", "eghi", "rj")),
    "newton": (lambda L: optx.NewtonDescent(linear_solver=L.solver()) if L else optx.NewtonDescent(), ["NewtonDescent.query", "NewtonDescent.step", "newton_step"], ("egh", "eghi", "rj")),
    "nonlinear-cg": (lambda L: optx.NonlinearCGDescent(optx.polak_ribiere), ["NonlinearCGDescent.query", "NonlinearCGDescent.step"], ("eg",)),
}
for nm, (f, fns, kinds) in DESC.items():
    for kind in kinds:
        prop.ob(f"direction.{nm}.{kind}", fns)(homogeneous(f, kind))


def machine(flavour, **kw):
    def ob(S):
        M = Machine(S, flavour, **kw)
        c, new, obs = M.run()
        S.check("rejections keep the iterate and the descent direction", S.same(new["y"], obs["spec_y"]))

    return ob


for fl in ("gd", "gn", "qn"):
    prop.ob(f"solver.{fl}", ["AbstractGradientDescent.step", "AbstractGaussNewton.step", "AbstractQuasiNewton.step"])(machine(fl, ystruct="vec"))
