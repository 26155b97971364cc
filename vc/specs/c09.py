"""C09: trust-region searches."""

from vc.core import *
from vc.driver import T, code_of
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C09", ["the quantities passed to the search are arbitrary (trial values possibly NaN or infinite)"])
FN = ["_AbstractTrustRegion.__post_init__", "_AbstractTrustRegion.init", "_AbstractTrustRegion.step", "ClassicalTrustRegion.predict_reduction",
      "LinearTrustRegion.predict_reduction", "FunctionInfo.as_min", "FunctionInfo.compute_grad_dot"]


def params(S):
    p = dict(hc=S.float("high_cutoff", hint=(0.5, 1)), lc=S.float("low_cutoff", hint=(0, 0.5)), hk=S.float("high_constant", hint=(1, 4)), lk=S.float("low_constant", hint=(0, 1)))
    v = {k: x.item() for k, x in p.items()}
    return p, and_(v["lc"] <= v["hc"], xf(0) <= v["lk"], xf(0) <= v["hk"])


def mk(cls, p):
    return cls(high_cutoff=p["hc"], low_cutoff=p["lc"], high_constant=p["hk"], low_constant=p["lk"])


def predicted(S, cls, I, d, diff):
    g = I.grad(d)
    lin = xf(0)
    for u, v in zip(g, diff):
        lin = lin + u * v
    if cls is optx.LinearTrustRegion:
        return lin
    if I.kind == "rj":
        Jd = np.asarray(d["J"]).dot(diff)
        q = xf(0)
        for u in Jd:
            q = q + u * u
    else:
        q = xf(0)
        for u, v in zip(np.asarray(d["H"]).dot(diff), diff):
            q = q + u * v
    return lin + q * xf(0.5)


def search(cls, kind, ys, outs="pair", full=False):
    def ob(S):
        I = Infos(S, kind, ys, outs, full)
        p, ok = params(S)
        S.assume(ok)
        count = [0]

        def init(S):
            y0 = S.like(I.ys, "y0")
            d0 = I.draw("info0")
            st = S.run(lambda p, y, d: mk(cls, p).init(y, jax.eval_shape(lambda: I.mk(d))), p, y0, d0, key="init")
            return dict(st=st, g=dict(ss=T(xf(1)), first=T(True)))

        def step(S, c):
            count[0] += 1
            k = count[0]
            y, ye = S.like(I.ys, f"y{k}"), S.like(I.ys, f"trial{k}")
            d, de = I.draw(f"info{k}"), I.draw_eval(f"eval{k}", finite=False)
            ss, acc, res, st = S.run(
                lambda p, fs, y, ye, d, de, st: mk(cls, p).step(fs, y, ye, I.mk(d), I.mk_eval(de), st),
                p, c["g"]["first"], y, ye, d, de, c["st"], key="step")
            diff = np.array(S.scalars(S.map(lambda a, b: a - b, ye, y)), dtype=object)
            pred = predicted(S, cls, I, d, diff)
            change = I.loss(de) - I.loss(d)
            v = {k: x.item() for k, x in p.items()}
            first = c["g"]["first"].item()
            spec = or_(first, change <= v["lc"] * pred)
            good = and_(not_(first), change.lt(v["hc"] * pred), pred.lt(xf(0)))
            old = c["g"]["ss"].item()
            sss = X.x_ite(spec, X.x_ite(good, v["hk"] * old, old), v["lk"] * old)
            obs = dict(acc=S.s(acc), ss=S.s(ss), code=S.s(code_of(res)), spec=spec, sss=sss, bad=or_(I.loss(de).nan, I.loss(de).pinf))
            return dict(st=st, g=dict(ss=T(sss), first=T(False))), obs

        c, new, o = S.evolve(init, step)
        S.check("accepts exactly if the ratio test holds", iff(o["acc"], o["spec"]))
        S.check("resizes by the ratio test", o["ss"].same(o["sss"]))
        S.check("rejects NaN and infinite trial values", implies(and_(o["bad"], not_(c["g"]["first"].item())), not_(o["acc"])))
        S.check("reports success", X.i_eq(o["code"], 0))

    return ob


for cls, kinds in ((optx.ClassicalTrustRegion, ("egh", "rj")), (optx.LinearTrustRegion, ("eg", "egh", "eghi", "rj"))):
    nm = cls.__name__
    for kind in kinds:
        for ys in ("scalar", "vec", "dict"):
            prop.ob(f"{nm}.{kind}.{ys}", FN)(search(cls, kind, ys))
    prop.ob(f"{nm}.rj.vec.trial with Jacobian", FN)(search(cls, "rj", "vec", full=True))
    prop.ob(f"{nm}.rj.nested.vec3", FN)(search(cls, "rj", "nested", "vec3"))

    def invalid(S, cls=cls):
        p, ok = params(S)
        raised, _ = S.run_raises(lambda p: [jnp.asarray(x) for x in jtu.tree_leaves(mk(cls, p))], p)
        S.check("raises exactly on invalid parameters", iff(raised, not_(ok)))

    prop.ob(f"{nm}.rejects invalid parameters", ["_AbstractTrustRegion.__post_init__"])(invalid)

    def unsupported(S, cls=cls):
        raised, _ = S.run_raises(
            lambda f, y: mk(cls, dict(hc=0.99, lc=0.01, hk=3.5, lk=0.25)).step(jnp.array(False), y, y, FI.Eval(f), FI.Eval(f), cls().init(y, None))[0],
            S.float("f"), S.float("y", (2,)), pyexc=(ValueError,))
        S.check("needs derivative information", raised)

    prop.ob(f"{nm}.unsupported", FN)(unsupported)
