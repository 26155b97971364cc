"""Ghost searches, descents and quasi-Newton updates, and the machine they drive.

`Machine` is the documented interplay of a search and a descent (docs/api/searches):
evaluate the trial point, ask the search, move if it accepts (then query the descent),
ask the descent for the next trial point.  The real solvers are shown to refine it, for
arbitrary searches and descents, over runs of any length.
"""

from __future__ import annotations

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import numpy as np

import optimistix as optx

from . import xf as X
from .core import is_sym, sarr, struct
from .driver import NRES, T, code_of, item_of
from .xf import XF, and_, iff, implies, not_, or_, xf

FI = optx.FunctionInfo
YS = {
    "scalar": struct(()),
    "vec": struct((2,)),
    "vec3": struct((3,)),
    "dict": {"a": struct((2,)), "b": struct(())},
    "nested": ({"a": struct((1,))}, [struct(())]),
    "many": {"a": struct(()), "b": (struct((2,)), struct(()), struct(()))},
}
OUTS = {
    "scalar": struct(()),
    "vec": struct((2,)),
    "vec3": struct((3,)),
    "pair": (struct((1,)), struct(())),
}


def size(tree):
    return sum(int(np.prod(l.shape)) for l in jtu.tree_leaves(tree))


class Prob:
    """A user problem: opaque function U(y, args) -> (out, aux)."""

    def __init__(self, S, kind, ystruct="dict", outstruct="pair", finite=True, name="U"):
        self.S, self.kind = S, kind
        self.ys = YS[ystruct]
        self.outs = struct(()) if kind == "min" else self.ys if kind == "fp" else OUTS[outstruct]
        self.us = {"user_u": struct(())}
        law = None
        if finite == "ordered":  # infinite values, but no NaN
            finite, k = "derivatives", len(jtu.tree_leaves(self.outs))
            law = lambda S, i, o: [not_(e.nan) for t in o[:k] for e in S.scalars(t)]
        self.U = S.fn(name, (self.outs, self.us), finite=finite, contract=law)
        self.args = S.float("args", (1,))
        self.n, self.m = size(self.ys), size(self.outs)

    def fn(self, y, args):
        return self.U(y, args)

    def f(self, y):
        return self.U.spec(y, self.args)[0]

    def aux(self, y):
        return self.U.spec(y, self.args)[1]

    def jac(self, y):
        """The Jacobian as a list (one per leaf of y) of trees like the output."""
        return [self.U.dspec(i, y, self.args)[0] for i in range(len(jtu.tree_leaves(self.ys)))]

    def grad(self, y):
        return jtu.tree_unflatten(jtu.tree_structure(self.ys), self.jac(y))

    def jac_matrix(self, y):
        rows = np.empty((self.m, self.n), dtype=object)
        col = 0
        for i, ly in enumerate(jtu.tree_leaves(self.ys)):
            k = int(np.prod(ly.shape))
            row = 0
            for lo, d in zip(jtu.tree_leaves(self.outs), jtu.tree_leaves(self.U.dspec(i, y, self.args)[0], is_leaf=is_sym)):
                r = int(np.prod(lo.shape))
                rows[row : row + r, col : col + k] = np.asarray(d, dtype=object).reshape(r, k)
                row += r
            col += k
        return sarr(rows)

    def loss(self, y):
        """The objective as a minimisation problem."""
        f = self.f(y)
        if self.kind == "min":
            return f.item()
        return self.S.dot(f, f) * xf(0.5)


def info_vec(f_info):
    """The public content of a FunctionInfo."""
    if isinstance(f_info, FI.ResidualJac):
        return f_info.residual, f_info.jac.as_matrix()
    if isinstance(f_info, FI.Residual):
        return (f_info.residual,)
    if isinstance(f_info, FI.EvalGradHessian):
        return f_info.f, f_info.grad, f_info.hessian.as_matrix()
    if isinstance(f_info, FI.EvalGradHessianInv):
        return f_info.f, f_info.grad, f_info.hessian_inv.as_matrix()
    if isinstance(f_info, FI.EvalGrad):
        return f_info.f, f_info.grad
    return (f_info.f,)


class Ghosts:
    """Opaque search / descent / Hessian-update functions."""

    def __init__(self, S, prob, qn=None, guard=None):
        """`guard="always"`: the search only accepts points that are no worse;
        `"model"`: so does it wherever its model (any function) predicts no increase."""
        self.S, self.prob, self.qn, self.guard = S, prob, qn, guard
        if guard == "model":
            self.pred = S.fn("predicted", struct(()), concrete=lambda S, a: [self._mix(S, a, 30)[0]])
        sst = struct((2,))
        code = struct((), np.int64)
        self.s_init = S.fn("s_init", sst, concrete=self._s0_conc)
        self.s_step = S.fn("s_step", (struct(()), struct((), np.bool_), code, sst), contract=self._s_contract, concrete=self._s_conc)
        self.d_init = S.fn("d_init", sst, concrete=self._s0_conc)
        self.d_query = S.fn("d_query", sst, concrete=self._dq_conc)
        self.d_step = S.fn("d_step", (prob.ys, code), contract=self._d_contract, concrete=self._d_conc)
        if qn:
            n = prob.n
            self.h_init = S.fn("h_init", (struct((n, n)), struct((2,))), concrete=self._h_conc)
            self.h_up = S.fn("h_up", (struct((n, n)), struct((2,))), concrete=self._h_conc)

    def _s_contract(self, S, ins, outs):
        first = ins[0].item()
        c = outs[2].item()
        out = [implies(first, outs[1].item()), X.i_le(0, c), X.i_le(c, NRES - 1)]
        if self.guard:
            old, new = (self._loss([x for a in t for x in np.asarray(a).reshape(-1)]) for t in self._values(ins))
            ok = new <= old
            if self.guard == "model":
                ok = implies(self._predicted(S, ins) <= xf(0), ok)
            out.append(implies(and_(outs[1].item(), not_(first)), ok))
        return out

    def _values(self, ins):
        """The function values (old, new) among the arguments of the search."""
        ky, kf = len(jtu.tree_leaves(self.prob.ys)), len(jtu.tree_leaves(self.prob.outs))
        nd = {"lsq": 1, "min": ky}[self.prob.kind] + (1 if self.qn else 0)
        i = 1 + 2 * ky
        return ins[i : i + kf], ins[i + kf + nd : i + 2 * kf + nd]

    def _loss(self, f):
        if self.prob.kind == "min":
            return f[0]
        s = xf(0) if isinstance(f[0], XF) else 0.0
        for e in f:
            s = s + e * e
        return s * (xf(0.5) if isinstance(f[0], XF) else 0.5)

    def _predicted(self, S, ins):
        ky = len(jtu.tree_leaves(self.prob.ys))
        return self.pred.spec(*[sarr(np.asarray(a, dtype=object)) for a in ins[1 : 1 + 2 * ky]]).item()

    @staticmethod
    def _d_contract(S, ins, outs):
        c = outs[-1].item()
        return [X.i_le(0, c), X.i_le(c, NRES - 1)]

    # Concrete stand-ins: discrete outputs follow a counter kept in the state (so that
    # rounding cannot flip them), continuous ones depend smoothly on every argument.
    def _mix(self, S, args, tag, k=1):
        v = np.concatenate([np.asarray(a, float).reshape(-1) for a in args])
        v = np.where(np.isfinite(v), v, 0.0)
        g = np.random.default_rng([getattr(S.source, "seed", 0) & 0xFFFFFFFF, tag])
        return np.sin(g.normal(size=(k, v.size)) @ np.tanh(v) * 2)

    def _draw(self, S, tag, counter):
        return np.random.default_rng([getattr(S.source, "seed", 0) & 0xFFFFFFFF, tag, int(abs(counter))])

    def _s0_conc(self, S, args):
        return [np.array([0.0, self._mix(S, args, 1)[0]])]

    def _s_conc(self, S, args):
        n = float(np.asarray(args[-1])[0])
        g = self._draw(S, 2, n)
        acc = bool(args[0]) or g.random() < (0.9 if self.guard else 0.6)
        if self.guard and acc and not bool(args[0]):
            old, new = (self._loss(np.concatenate([np.asarray(a, float).reshape(-1) for a in t])) for t in self._values(args))
            ky = len(jtu.tree_leaves(self.prob.ys))
            if self.guard == "always" or self._mix(S, args[1 : 1 + 2 * ky], 30)[0] <= 0:
                acc = bool(new <= old)
        ss = g.choice([1.0, 0.5, 0.125, 2.0]) * (1 + 0.3 * self._mix(S, args, 3)[0])
        return [np.array(ss), np.array(acc), np.array(0 if g.random() < 0.8 else g.integers(0, NRES)), np.array([n + 1, self._mix(S, args, 4)[0]])]

    def _h_conc(self, S, args):
        n = self.prob.n
        return [self._mix(S, args, 20, k=n * n).reshape(n, n), self._mix(S, args, 21, k=2)]

    def _dq_conc(self, S, args):
        return [np.array([float(np.asarray(args[-1])[0]) + 1, self._mix(S, args, 5)[0]])]

    def _d_conc(self, S, args):
        st = np.asarray(args[-1])
        g = self._draw(S, 6, st[0])
        sc = g.choice([1.0, 1e-3, 1e-5]) * float(args[0])
        outs = [sc * self._mix(S, [st[1:]], 7 + i, k=size(l)).reshape(l.shape) for i, l in enumerate(jtu.tree_leaves(self.prob.ys))]
        return outs + [np.array(0 if g.random() < 0.8 else g.integers(0, NRES))]


class GhostSearch(optx.AbstractSearch):
    G: object = eqx.field(static=True)

    def init(self, y, f_info_struct):
        return self.G.s_init(y)

    def step(self, first_step, y, y_eval, f_info, f_eval_info, state):
        # "on the first step, y and f_info will be meaningless dummy data"
        mask = lambda t: jtu.tree_map(lambda x: jnp.where(first_step, jnp.zeros_like(x), x), t)
        ss, acc, code, st = self.G.s_step(first_step, mask(y), y_eval, mask(info_vec(f_info)), info_vec(f_eval_info), state)
        return ss, acc, item_of(code), st


class GhostDescent(optx.AbstractDescent):
    G: object = eqx.field(static=True)

    def init(self, y, f_info_struct):
        return self.G.d_init(y)

    def query(self, y, f_info, state):
        return self.G.d_query(y, info_vec(f_info), state)

    def step(self, step_size, state):
        d, code = self.G.d_step(step_size, state)
        return d, item_of(code)


def _coincide(a, b):
    return jnp.all(jnp.stack([jnp.all(u == v) for u, v in zip(jtu.tree_leaves(a), jtu.tree_leaves(b))]))


def quiet(**kw):
    pass


class GhostGD(optx.AbstractGradientDescent):
    rtol: float
    atol: float
    norm: object
    descent: object
    search: object


class GhostGN(optx.AbstractGaussNewton):
    rtol: float
    atol: float
    norm: object
    descent: object
    search: object
    verbose: object = quiet


class GhostQN(optx.AbstractQuasiNewton):
    rtol: float
    atol: float
    norm: object
    descent: object
    search: object
    G: object = eqx.field(static=True)
    use_inverse: bool = True
    verbose: object = quiet

    def _op(self, y, H):
        ys = jax.eval_shape(lambda: y)
        _, unravel = jax.flatten_util.ravel_pytree(y)
        rows = [unravel(H[i]) for i in range(H.shape[0])]
        # PyTreeLinearOperator wants leaf_out x leaf_in blocks
        cols = jtu.tree_map(lambda *r: jnp.stack(r), *rows)
        leaves, td = jtu.tree_flatten(y)
        blocks, off = [], 0
        for l in leaves:
            k = l.size
            blocks.append(jtu.tree_map(lambda c: c[off : off + k].reshape(l.shape + c.shape[1:]), cols))
            off += k
        return lx.PyTreeLinearOperator(jtu.tree_unflatten(td, blocks), ys)

    def _mk(self, f, grad, op):
        return (FI.EvalGradHessianInv if self.use_inverse else FI.EvalGradHessian)(f, grad, op)

    def init_hessian(self, y, f, grad):
        H, st = self.G.h_init(y)
        return self._mk(f, grad, self._op(y, H)), st

    def update_hessian(self, y, y_eval, f_info, f_eval_info, hessian_update_state):
        _, _, H = info_vec(f_info)
        # whatever f_info.f and .grad are on the first step, y_eval == y there
        first = _coincide(y, y_eval)
        g = jtu.tree_map(lambda x: jnp.where(first, 0.0, x), f_info.grad)
        H2, st = self.G.h_up(y, y_eval, g, H, f_eval_info.f, f_eval_info.grad, hessian_update_state)
        return self._mk(f_eval_info.f, f_eval_info.grad, self._op(y, H2)), st


class Machine:
    """The real solver in step with its specification."""

    def __init__(self, S, flavour, ystruct="dict", outstruct="pair", options=None, norm=None, finite=True, use_inverse=True, guard=None):
        self.S, self.flavour = S, flavour
        self.prob = P = Prob(S, "lsq" if flavour == "gn" else "min", ystruct, outstruct, finite=finite)
        self.G = Ghosts(S, P, qn=flavour == "qn", guard=guard)
        self.options = options or {}
        self.use_inverse = use_inverse
        self.norm_fn = norm
        if norm is None:
            self.nrm = AnyNorm(S)
            self.norm_fn = lambda t: self.nrm(t)
        self.rtol, self.atol = S.float("rtol", hint=(0, 1)), S.float("atol", hint=(0, 1))
        S.assume(xf(0) <= self.rtol.item(), xf(0).lt(self.atol.item()))
        self.f_struct = P.outs
        self.aux_struct = P.us
        self.tags = frozenset()

    def norm(self, t):
        if self.norm_fn is not None and not hasattr(self, "nrm"):
            return self.S.s(self.S.run(self.norm_fn, t, key="norm" + str(jtu.tree_structure(t)) + str([l.shape for l in jtu.tree_leaves(t, is_leaf=is_sym)])))
        return self.nrm.spec(t).item()

    def mk(self, rtol, atol):
        kw = dict(rtol=rtol, atol=atol, norm=self.norm_fn, descent=GhostDescent(self.G), search=GhostSearch(self.G))
        if self.flavour == "gd":
            return GhostGD(**kw)
        if self.flavour == "gn":
            return GhostGN(**kw)
        if self.flavour == "qn":
            return GhostQN(**kw, G=self.G, use_inverse=self.use_inverse)
        raise AssertionError

    # ---- specification
    def info(self, y):
        P = self.prob
        if self.flavour == "gn":
            return P.f(y), P.jac_matrix(y)
        return P.f(y), P.grad(y)

    def start(self, y0):
        G = self.G
        g = dict(trial=y0, first=T(True), sst=G.s_init.spec(y0), dst=G.d_init.spec(y0))
        if self.flavour == "qn":
            g["H"], g["hst"] = G.h_init.spec(y0)
        return g

    def spec_step(self, y, g):
        S, G, P = self.S, self.G, self.prob
        first = g["first"].item()
        zero = lambda t: S.map(lambda e: X.x_ite(first, xf(0), e) if isinstance(e, XF) else e, t)
        info, tinfo = self.info(y), self.info(g["trial"])
        hinfo = info + ((g["H"],) if self.flavour == "qn" else ())
        ev = tinfo if self.flavour == "gn" else (tinfo[0],)
        ss, acc, scode, sst = G.s_step.spec(g["first"], zero(y), g["trial"], zero(hinfo), ev, g["sst"])
        acc = acc.item()
        out = dict(sst=sst, first=T(False))
        tq = tinfo
        if self.flavour == "qn":
            at_y = S.s(S.run(_coincide, y, g["trial"], key="coincide"))
            H2, hst2 = G.h_up.spec(y, g["trial"], S.map(lambda e: X.x_ite(at_y, xf(0), e), info[1]), g["H"], tinfo[0], tinfo[1], g["hst"])
            tq = tinfo + (H2,)
            out["H"], out["hst"] = S.ite(acc, H2, g["H"]), S.ite(acc, hst2, g["hst"])
        dst = S.ite(acc, G.d_query.spec(g["trial"], tq, g["dst"]), g["dst"])
        d, dcode = G.d_step.spec(ss, dst)
        y2 = S.ite(acc, g["trial"], y)
        out.update(dst=dst, trial=S.map(lambda a, b: a + b, y2, d))
        obs = dict(acc=acc, first=first, trial=g["trial"], scode=scode.item(), dcode=dcode.item(), aux=P.aux(y), ss=ss.item())
        obs["code"] = X.i_ite(X.i_eq(scode.item(), 0), dcode.item(), scode.item())
        ft, fy = tinfo[0], info[0]
        obs["settled"] = self.settled(g["trial"], y, ft, fy)
        # a least-squares residual that is itself within tolerance
        obs["zero residual"] = self.settled(g["trial"], y, ft, S.map(lambda e: xf(0), ft))
        return y2, out, obs

    def settled(self, y1, y0, f1, f0):
        S = self.S
        rt, at = self.rtol.item(), self.atol.item()

        def rel(a, b):
            return S.map(lambda u, v: abs(u - v) / (at + rt * abs(u)), a, b)

        return and_(self.norm(rel(y1, y0)).lt(xf(1)), self.norm(rel(f1, f0)).lt(xf(1)))

    # ---- the real code
    def run(self):
        S, P = self.S, self.prob

        def init(S):
            y0 = S.like(P.ys, "y0")
            st = S.run(lambda y, a, r, t: self.mk(r, t).init(P.fn, y, a, self.options, self.f_struct, self.aux_struct, self.tags), y0, P.args, self.rtol, self.atol, key="init")
            return dict(y=y0, st=st, g=self.start(y0))

        def step(S, c):
            y2, st, aux = S.run(lambda y, a, s, r, t: self.mk(r, t).step(P.fn, y, a, self.options, s, self.tags), c["y"], P.args, c["st"], self.rtol, self.atol, key="step")
            gy, g, obs = self.spec_step(c["y"], c["g"])
            obs.update(real_aux=aux, spec_y=gy)
            return dict(y=y2, st=st, g=g), obs

        return S.evolve(init, step, self.ghosts)

    def ghosts(self, S, c):
        P = self.prob
        out = dict(f=P.f(c["y"]), aux=P.aux(c["y"]))
        if self.flavour == "gn":
            out["J"] = P.jac(c["y"])
            out["zero"] = S.map(lambda e: xf(0), out["f"])
        else:
            out["grad"] = P.grad(c["y"])
        if self.flavour == "qn":
            out["Hb"] = self._blocks(c["g"]["H"])
        return out

    def _blocks(self, H):
        """The matrix as leaf x leaf blocks."""
        ls = jtu.tree_leaves(self.prob.ys)
        out, r = [], 0
        for a in ls:
            c = 0
            ka = int(np.prod(a.shape))
            for b in ls:
                kb = int(np.prod(b.shape))
                out.append(sarr(np.asarray(H)[r : r + ka, c : c + kb].reshape(a.shape + b.shape)))
                c += kb
            r += ka
        return out

    def terminate(self, c):
        S, P = self.S, self.prob
        t, r = S.run(lambda y, a, s, r, t: self.mk(r, t).terminate(P.fn, y, a, self.options, s, self.tags), c["y"], P.args, c["st"], self.rtol, self.atol, key="term")
        return S.s(t), S.s(code_of(r))


def _norm_conc(S, args):
    v = np.concatenate([np.asarray(a, float).reshape(-1) for a in args])
    return [float(np.max(np.abs(v))) if np.all(np.isfinite(v)) else 1e9]


class AnyNorm:
    """Any function with non-negative values that does not see the sign of its argument
    (every such function is x -> g(x) + g(-x) for some g)."""

    def __init__(self, S, positive=False):
        low = (lambda v: xf(0).lt(v)) if positive else (lambda v: xf(0) <= v)
        self.S = S
        self.g = S.fn("norm", struct(()), finite=True, contract=lambda S, i, o: [low(o[0].item())], concrete=_norm_conc)

    def __call__(self, t):
        return self.g(t) + self.g(jtu.tree_map(lambda x: -x, t))

    def spec(self, t):
        return sarr(self.g.spec(t).item() + self.g.spec(self.S.map(lambda x: -x, t)).item())


class Infos:
    """Arbitrary FunctionInfo values, as any solver may pass them to a search or descent."""

    def __init__(self, S, kind, ystruct="vec", outstruct="pair", full=False):
        """`full`: trial points come with a Jacobian, as in the Gauss-Newton solvers."""
        self.S, self.kind, self.full = S, kind, full
        self.ys, self.outs = YS[ystruct], OUTS[outstruct]
        self.n, self.m = size(self.ys), size(self.outs)

    def draw(self, name, finite=True):
        """The numbers of one FunctionInfo (as a tree)."""
        S = self.S
        if self.kind == "rj":
            return dict(r=S.like(self.outs, name + ".r", finite=finite), J=S.float(name + ".J", (self.m, self.n), finite=finite))
        out = dict(f=S.float(name + ".f", finite=finite), g=S.like(self.ys, name + ".g", finite=finite))
        if self.kind in ("egh", "eghi"):
            out["H"] = S.float(name + ".H", (self.n, self.n), finite=finite)
        return out

    def mk(self, d, tags=()):
        """The FunctionInfo itself (on traced values)."""
        if self.kind == "rj":
            return FI.ResidualJac(d["r"], _operator(d["J"], self.outs, self.ys))
        if self.kind == "eg":
            return FI.EvalGrad(d["f"], d["g"])
        op = _operator(d["H"], self.ys, self.ys, tags)
        return (FI.EvalGradHessian if self.kind == "egh" else FI.EvalGradHessianInv)(d["f"], d["g"], op)

    def mk_eval(self, d):
        if self.full:
            return self.mk(d)
        return FI.Residual(d["r"]) if self.kind == "rj" else FI.Eval(d["f"])

    def draw_eval(self, name, finite=True):
        S = self.S
        if self.full:
            return self.draw(name, finite)
        if self.kind == "rj":
            return dict(r=S.like(self.outs, name + ".r", finite=finite))
        return dict(f=S.float(name + ".f", finite=finite))

    def loss(self, d):
        return self.S.dot(d["r"], d["r"]) * xf(0.5) if self.kind == "rj" else d["f"].item()

    def grad(self, d):
        """Gradient of the objective, as a flat vector."""
        if self.kind == "rj":
            return np.asarray(d["J"]).T.dot(np.array(self.S.scalars(d["r"]), dtype=object))
        return np.array(self.S.scalars(d["g"]), dtype=object)


def _operator(M, outs, ins, tags=()):
    """The matrix as a linear operator between pytrees."""
    lo, tdo = jtu.tree_flatten(outs)
    li, tdi = jtu.tree_flatten(ins)
    rows, r = [], 0
    for a in lo:
        ka, c, row = int(np.prod(a.shape)), 0, []
        for b in li:
            kb = int(np.prod(b.shape))
            row.append(M[r : r + ka, c : c + kb].reshape(a.shape + b.shape))
            c += kb
        rows.append(jtu.tree_unflatten(tdi, row))
        r += ka
    return lx.PyTreeLinearOperator(jtu.tree_unflatten(tdo, rows), outs, tags)


class Plain:
    """A real solver on an opaque problem, with the values it might store as ghosts."""

    def __init__(self, S, mk, kind, ystruct="dict", outstruct="pair", options=None, finite=True, ghosts=True, tags=frozenset()):
        self.S, self.mk_ = S, mk
        self.prob = Prob(S, kind, ystruct, outstruct, finite=finite)
        self.options, self.tags = options or {}, tags
        self.rtol, self.atol = S.float("rtol", hint=(0, 1)), S.float("atol", hint=(0, 1))
        S.assume(xf(0) <= self.rtol.item(), xf(0).lt(self.atol.item()))
        self.extra = ()
        self.use_ghosts = ghosts

    def call(self, what, key, *xs):
        S, P = self.S, self.prob
        return S.run(lambda a, r, t, e, *x: what(self.mk_(r, t, *e), a, *x), P.args, self.rtol, self.atol, self.extra, *xs, key=key)

    def start(self, y0):
        return {}

    def follow(self, c, obs):
        """Specification step: ({name: ghost}, observations)."""
        return {}, {}

    def ghosts(self, S, c):
        if not self.use_ghosts:
            return {}
        P = self.prob
        return dict(y=c["y"], f=P.f(c["y"]), aux=P.aux(c["y"]), J=P.jac(c["y"]))

    def cands(self, S, c):
        return []

    def run(self, stop=False, depth=None, finite=True):
        S, P = self.S, self.prob

        def init(S):
            y0 = S.like(P.ys, "y0")
            st = self.call(lambda s, a, y: s.init(P.fn, y, a, self.options, P.outs, P.us, self.tags), "init", y0)
            return dict(y=y0, st=st, g=self.start(y0))

        def step(S, c):
            y2, st, aux = self.call(lambda s, a, y, st: s.step(P.fn, y, a, self.options, st, self.tags), "step", c["y"], c["st"])
            obs = dict(aux=aux)
            g, o = self.follow(c, obs)
            obs.update(o)
            return dict(y=y2, st=st, g=g), obs

        return S.evolve(init, step, self.ghosts, self.cands, (lambda S, c: or_(self.terminate(c)[0], not_(X.i_eq(self.terminate(c)[1], 0)))) if stop else None, depth=depth, finite=finite)

    def terminate(self, c):
        P = self.prob
        t, r = self.call(lambda s, a, y, st: s.terminate(P.fn, y, a, self.options, st, self.tags), "term", c["y"], c["st"])
        return self.S.s(t), self.S.s(code_of(r))
