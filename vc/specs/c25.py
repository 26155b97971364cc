"""C25: steps are exactly rate times direction."""

from vc.core import *
from vc.driver import T, code_of
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C25", ["searches and descents written by the user are pure functions of what the interface passes them"])
FD = ["SteepestDescent.init", "SteepestDescent.query", "SteepestDescent.step", "FunctionInfo.compute_grad"]
FS = {"gd": ["AbstractGradientDescent.init", "AbstractGradientDescent.step", "lin_to_grad"],
      "gn": ["AbstractGaussNewton.init", "AbstractGaussNewton.step", "_make_f_info"],
      "qn": ["AbstractQuasiNewton.init", "AbstractQuasiNewton.step", "lin_to_grad"]}


def trial(flavour, **kw):
    """The next trial point, for any search and descent: it is where an accepted step goes."""

    def ob(S):
        M = Machine(S, flavour, **kw)
        c, new, obs = M.run()
        S.check("an accepted step goes to iterate plus descent step", S.same(new["y"], obs["spec_y"]))

    return ob


for fl, key in (("gd", "autodiff_mode"), ("qn", "autodiff_mode"), ("gn", "jac")):
    for mode in ("fwd", "bwd"):
        for ys in ("vec", "dict"):
            prop.ob(f"trial.{fl}.{mode}.{ys}", FS[fl])(trial(fl, ystruct=ys, options={key: mode}))


class Descending(Plain):
    """Gradient descent: evaluates the initial guess, then minus rate times gradient."""

    def start(self, y0):
        return dict(next=y0)

    def follow(self, c, obs):
        S, P = self.S, self.prob
        lr = self.extra[0].item()
        want = c["g"]["next"]
        return dict(next=S.map(lambda y, d: y + -lr * d, want, P.grad(want))), dict(want=want)

    def ghosts(self, S, c):
        return dict(super().ghosts(S, c), grad=self.prob.grad(c["y"]))


def gradient_descent(ys, mode):
    def ob(S):
        opts = {} if mode is None else dict(autodiff_mode=mode)
        M = Descending(S, lambda r, t, lr: optx.GradientDescent(lr, r, t), "min", ys, options=opts)
        M.extra = (S.float("learning_rate", hint=(0, 1)),)
        c, new, obs = M.run()
        S.check("moves by minus rate times gradient", S.same(new["y"], obs["want"]))
        S.check("aux is that of the iterate the step was given", S.same(obs["aux"], M.prob.aux(c["y"])))

    return ob


for ys in ("scalar", "vec", "dict", "nested"):
    prop.ob(f"gradient-descent.{ys}", FS["gd"] + FD + ["GradientDescent.__init__", "LearningRate.step"])(gradient_descent(ys, None))
for mode in ("fwd", "bwd"):
    prop.ob(f"gradient-descent.{mode}.dict", FS["gd"] + FD + ["GradientDescent.__init__", "LearningRate.step"])(gradient_descent("dict", mode))


def steepest(kind, ys, norm, outs="pair"):
    def ob(S):
        I = Infos(S, kind, ys, outs)
        if norm == "any":
            nrm = AnyNorm(S, positive=True)
            D = optx.SteepestDescent(norm=lambda t: nrm(t))
        else:
            D = optx.SteepestDescent(norm=None if norm is None else getattr(optx, norm))
        y0, y, d0, d, dp = S.like(I.ys, "y0"), S.like(I.ys, "y"), I.draw("info0"), I.draw("info"), I.draw("earlier")
        ss = S.float("size")

        def go(y0, y, d0, d, dp, ss):
            st = D.init(y0, jax.eval_shape(lambda: I.mk(d0)))
            st = D.query(y0, I.mk(dp), st)
            u, r = D.step(ss, D.query(y, I.mk(d), st))
            return u, code_of(r)

        # an earlier query on information that does not vanish
        u, code = S.run(go, y0, y, d0, d, dp, ss)
        g = I.grad(d)
        from vc.lin import split

        gt = split(S, g, I.ys)
        if norm is None:
            n = xf(1)
        elif norm == "any":
            n = nrm.spec(gt).item()
        else:
            n = S.s(S.run(getattr(optx, norm), gt, key="norm"))
        nz = xf(0).lt(n)
        S.check("minus size times gradient", implies(nz, S.same(u, S.map(lambda v: -ss.item() * (v / n), gt) if norm else S.map(lambda v: -ss.item() * v, gt))))
        S.check("reports success", X.i_eq(S.s(code), 0))

    return ob


for kind in ("eg", "egh", "eghi", "rj"):
    for ys in ("vec", "dict"):
        prop.ob(f"steepest.{kind}.{ys}", FD)(steepest(kind, ys, None))
        prop.ob(f"steepest.normalised.{kind}.{ys}", FD)(steepest(kind, ys, "any"))
prop.ob("steepest.two_norm.eg.vec", FD + ["two_norm"])(steepest("eg", "vec", "two_norm"))
prop.ob("steepest.max_norm.eg.dict", FD + ["max_norm"])(steepest("eg", "dict", "max_norm"))
prop.ob("steepest.rj.nested.vec3", FD)(steepest("rj", "nested", None, "vec3"))


def rate(kind):
    def ob(S):
        I = Infos(S, kind, "dict")
        lr, fs = S.float("rate", finite=False), S.bool("first")
        y, ye, d, de = S.like(I.ys, "y"), S.like(I.ys, "trial"), I.draw("info"), I.draw_eval("eval", finite=False)

        def go(lr, fs, y, ye, d, de):
            s = optx.LearningRate(lr)
            ss, acc, r, _ = s.step(fs, y, ye, I.mk(d), I.mk_eval(de), s.init(y, jax.eval_shape(lambda: I.mk(d))))
            return ss, acc, code_of(r)

        ss, acc, code = S.run(go, lr, fs, y, ye, d, de)
        S.check("step size is the rate", S.s(ss).same(lr.item()))
        S.check("always accepts", S.s(acc))
        S.check("reports success", X.i_eq(S.s(code), 0))

    return ob


for kind in ("eg", "rj"):
    prop.ob(f"learning-rate.{kind}", ["LearningRate.init", "LearningRate.step"])(rate(kind))
