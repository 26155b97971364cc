"""Ghost solvers: arbitrary user-written solvers, known only through opaque functions.

The driver (entry points, problem conversions, the solve loop) is verified against these.
`Run` is the ghost history of such a solver: Y(k), S(k), ... after k steps, defined by the
recursion that the documentation of the solver interface prescribes.
"""

from __future__ import annotations

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import z3

import optimistix as optx

from . import xf as X
from .core import dtype_of, elem_kind, is_sym, lift, sarr, struct
from .jx import ite, same
from .prove import implies_pc
from .xf import XF, and_, iff, implies, not_, or_, xf

RES = optx.RESULTS
NRES = len(RES)
TAG = "some-tag"
EnumItem = type(RES.successful)


def code_of(item):
    return item._value


CODE = {n: int(np.asarray(code_of(getattr(RES, n)))) for n in ("successful", "nonfinite", "nonlinear_max_steps_reached")}


def item_of(code):
    return EnumItem(jnp.asarray(code, jnp.int32), RES)


class GState(eqx.Module):
    s: jax.Array
    n: jax.Array
    flag: jax.Array
    static: str = eqx.field(static=True)


class _Ghost:
    """init/step/terminate/postprocess made of opaque functions."""

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        f, _ = fn(y, args)
        ok = eqx.tree_equal(jax.eval_shape(lambda: fn(y, args)), (f_struct, aux_struct))
        s, n, flag = self.G.init(y, args, self.G.opt(options), f, jnp.array(self.G.tagsok(tags)), jnp.array(bool(ok)))
        return GState(s, n, flag, "static")

    def _ctx(self, fn, y, args, options, state, tags):
        f, _ = fn(y, args)
        return (y, state.s, state.n, state.flag, args, self.G.opt(options), f, jnp.array(self.G.tagsok(tags) and state.static == "static"))

    def step(self, fn, y, args, options, state, tags):
        ctx = self._ctx(fn, y, args, options, state, tags)
        z = self.G.z(*ctx)
        fz, aux = fn(z, args)
        y2, s, n, flag = self.G.step(*ctx, fz)
        return y2, GState(s, n, flag, "static"), aux

    def terminate(self, fn, y, args, options, state, tags):
        t, c = self.G.term(*self._ctx(fn, y, args, options, state, tags))
        return t, item_of(c)

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        u = user_aux(aux) if self.G.has_aux else jnp.zeros(())
        v, zp, st = self.G.post(*self._ctx(fn, y, args, options, state, tags), u, code_of(result))
        _, paux = fn(zp, args)
        return v, paux, {"extra": st}


def user_aux(aux):
    """The leaf that the user's function put into its auxiliary output."""
    hits = [l for p, l in jtu.tree_leaves_with_path(aux, is_leaf=is_sym) if any(isinstance(k, jtu.DictKey) and k.key == "user_u" for k in p)]
    assert len(hits) == 1, hits
    return hits[0]


class GhostFP(_Ghost, optx.AbstractFixedPointSolver):
    rtol: float
    atol: float
    norm: object
    G: object = eqx.field(static=True)
    init, step, terminate, postprocess = _Ghost.init, _Ghost.step, _Ghost.terminate, _Ghost.postprocess


class GhostRoot(_Ghost, optx.AbstractRootFinder):
    rtol: float
    atol: float
    norm: object
    G: object = eqx.field(static=True)
    init, step, terminate, postprocess = _Ghost.init, _Ghost.step, _Ghost.terminate, _Ghost.postprocess


class GhostLsq(_Ghost, optx.AbstractLeastSquaresSolver):
    rtol: float
    atol: float
    norm: object
    G: object = eqx.field(static=True)
    init, step, terminate, postprocess = _Ghost.init, _Ghost.step, _Ghost.terminate, _Ghost.postprocess


class GhostMin(_Ghost, optx.AbstractMinimiser):
    rtol: float
    atol: float
    norm: object
    G: object = eqx.field(static=True)
    init, step, terminate, postprocess = _Ghost.init, _Ghost.step, _Ghost.terminate, _Ghost.postprocess


FAMILY = {"fp": GhostFP, "root": GhostRoot, "lsq": GhostLsq, "min": GhostMin}
ENTRY = {"fp": optx.fixed_point, "root": optx.root_find, "lsq": optx.least_squares, "min": optx.minimise}
PAIRS = [
    ("fp", "fp"), ("fp", "root"), ("fp", "lsq"), ("fp", "min"), ("root", "root"), ("root", "lsq"), ("root", "min"),
    ("lsq", "lsq"), ("lsq", "min"), ("min", "min"),
]
Y_STRUCTS = {
    "dict": {"a": struct((2,)), "b": struct(())},
    "scalar": struct(()),
    "vec": struct((2,)),
    "nested": ({"a": struct((1,))}, [struct(())]),
}
OUT_STRUCTS = {
    "pair": (struct((2,)), struct(())),
    "vec": struct((3,)),
    "scalar": struct(()),
}


class Setup:
    """Opaque ingredients of one solve: user function U, ghost solver G, norm."""

    def __init__(self, S, entry, family, ystruct="dict", outstruct="pair", has_aux=True, options=True, tags=True, finite_y=False, atol=1e-3, norm="opaque"):
        self.S, self.entry, self.family = S, entry, family
        self.has_aux, self.has_options = has_aux, options
        self.ys = Y_STRUCTS[ystruct]
        self.tags = frozenset({TAG}) if tags else frozenset()
        if entry == "fp":
            self.outs = self.ys
        elif entry == "min":
            self.outs = struct(())
        else:
            self.outs = OUT_STRUCTS[outstruct]
        self.us = {"user_u": struct(())}
        self.U = S.fn("U", (self.outs, self.us), finite=True)
        st = (struct((2,)), struct((), np.int64), struct((), np.bool_))
        self.init = S.fn("g_init", st, finite=True)
        self.z = S.fn("g_z", self.ys, finite=True)
        self.step = S.fn("g_step", (self.ys, *st), finite=finite_y)
        self.term = S.fn("g_term", (struct((), np.bool_), struct((), np.int64)), contract=self._codes, concrete=self._term_conc)
        self.post = S.fn("g_post", (self.ys, self.ys, struct(())))
        if norm == "opaque":
            self.nrm = S.fn("norm", struct(()), finite=False, contract=self._norm, concrete=self._norm_conc)
            self.norm_fn = lambda t: self.nrm(t)
        else:
            self.nrm, self.norm_fn = None, norm
        self.atol = atol
        self.solver = FAMILY[family](rtol=1e-3, atol=atol, norm=self.norm_fn, G=self)
        # how the options dictionary reaches the ghost

    def opt(self, options):
        if not self.has_options:
            return jnp.asarray(1.0 if options == {} else 0.0)
        if not isinstance(options, dict) or set(options) != {"my_option"}:
            return jnp.asarray(jnp.nan)
        return jnp.asarray(options["my_option"])

    def tagsok(self, tags):
        # tags describe the problem as posed; a converted problem may drop them
        return self.entry != self.family or tags == self.tags

    @staticmethod
    def _codes(S, ins, outs):
        c = outs[1].item()
        return [X.i_le(0, c), X.i_le(c, NRES - 1)]

    def _term_conc(self, S, args):
        import hashlib

        h = hashlib.sha256(repr((getattr(S.source, "seed", 0), [np.asarray(a).tolist() for a in args])).encode()).digest()
        return [np.array(h[0] < 70), np.array(0 if h[1] < 210 else h[2] % NRES)]

    @staticmethod
    def _norm(S, ins, outs):
        o = outs[0].item()
        bad = or_(*[e.inf for a in ins for e in a.reshape(-1)])
        nan = or_(*[e.nan for a in ins for e in a.reshape(-1)])
        return [implies(and_(bad, not_(nan)), o.pinf), implies(and_(not_(bad), not_(nan)), and_(o.finite, xf(0) <= o))]

    def _norm_conc(self, S, args):
        import hashlib

        v = np.concatenate([np.asarray(a, float).reshape(-1) for a in args])
        if np.any(np.isnan(v)):
            return [np.nan]
        if np.any(np.isinf(v)):
            return [np.inf]
        h = hashlib.sha256(repr((getattr(S.source, "seed", 0), v.tolist())).encode()).digest()
        return [0.0 if h[0] < 120 else float(np.max(np.abs(v)))]

    # ---- the problem the ghost solver must see
    def fval(self, y, args, c):
        S = self.S
        out, aux = self.U.spec(y, args, c)
        return self.convert(y, out), aux, self.resid(y, out)

    def resid(self, y, out):
        S = self.S
        if self.entry == "fp" and self.family != "fp":
            return S.map(lambda a, b: a - b, out, y)
        return out

    def norm_spec(self, t):
        if self.nrm is not None:
            return self.nrm.spec(t)
        return self.S.run(self.norm_fn, t)

    def convert(self, y, out):
        S = self.S
        r = self.resid(y, out)
        if self.family == "min" and self.entry in ("fp", "root"):
            return self.norm_spec(r)
        if self.family == "min" and self.entry == "lsq":
            return sarr(np.array(S.dot(r, r) * xf(0.5), dtype=object))
        return r

    def solve(self, y0, args, o, c, max_steps=256, throw=False, adjoint=None, y0_conv=None):
        kw = dict(max_steps=max_steps, throw=throw, has_aux=self.has_aux, tags=self.tags)
        if adjoint is not None:
            kw["adjoint"] = adjoint
        if self.has_options:
            kw["options"] = dict(my_option=o)
        U = self.U
        if self.has_aux:
            fn = lambda y, a: U(y, a, c)
        else:
            fn = lambda y, a: U(y, a, c)[0]
        return ENTRY[self.entry](fn, self.solver, y0, args, **kw)


def T(x):
    return sarr(np.array(x, dtype=object))


class Run:
    """Ghost history of a solve: what the documented interface says happens."""

    def __init__(self, P: Setup, y0, args, o, c):
        self.P, self.S, self.y0, self.args, self.c = P, P.S, y0, args, c
        if P.has_options:
            self.o = o
        else:
            self.o = T(xf(1))
        self.memo = {}
        self.tagsok = T(True)
        S = self.S
        f0, _, _ = P.fval(y0, args, c)
        s, n, flag = P.init.spec(y0, args, self.o, f0, self.tagsok, T(True))
        self.rootconv = P.family in ("lsq", "min") and P.entry in ("fp", "root")
        F = None
        if self.rootconv:
            F = S.map(lambda e: X.PINF, P.resid(y0, P.U.spec(y0, args, c)[0]))
        u0 = T(xf(0))
        self.start = dict(y=y0, s=s, n=n, flag=flag, u=u0, F=F, nostop=T(True))

    def ctx(self, h):
        P = self.P
        f, _, _ = P.fval(h["y"], self.args, self.c)
        return (h["y"], h["s"], h["n"], h["flag"], self.args, self.o, f, self.tagsok)

    def _next(self, h):
        P = self.P
        ctx = self.ctx(h)
        z = P.z.spec(*ctx)
        fz, aux, res = P.fval(z, self.args, self.c)
        y2, s, n, flag = P.step.spec(*ctx, fz)
        nostop = T(and_(h["nostop"].item(), not_(self.status(h)["stop"])))
        return dict(y=y2, s=s, n=n, flag=flag, u=aux["user_u"], F=res if self.rootconv else None, nostop=nostop)

    def status(self, h):
        """term, code, stop as seen by the driver after the step that produced h."""
        P, S = self.P, self.S
        t, c = P.term.spec(*self.ctx(h))
        t, c = t.item(), c.item()
        if self.rootconv:
            t = and_(t, P.norm_spec(h["F"]).item().lt(xf(P.atol)))
        fin = S.finite_(h["y"])
        code = X.i_ite(fin, c, CODE["nonfinite"])
        stop = or_(t, not_(X.i_eq(code, CODE["successful"])))
        return dict(term=t, code=code, stop=stop, finite=fin)

    def post(self, h, code):
        P = self.P
        u = h["u"] if P.has_aux else T(xf(0))
        v, zp, st = P.post.spec(*self.ctx(h), u, T(code))
        _, paux, _ = P.fval(zp, self.args, self.c)
        return v, paux["user_u"], st

    # ---- at step k
    def at(self, k):
        S = self.S
        if S.concrete:
            k = int(k)
            if k not in self.memo:
                self.memo[k] = self.start if k == 0 else self._next(self.at(k - 1))
            return self.memo[k]
        if isinstance(k, int):
            if k == 0:
                return self.start
            k = z3.IntVal(k)
        if not S.inductive:
            h = self.memo.get("n0") or self.memo.setdefault("n0", self.start)
            for i in range(1, S.depth + 1):
                prev = self.memo.get(f"n{i-1}")
                nx = self.memo.get(f"n{i}") or self.memo.setdefault(f"n{i}", self._next(prev))
                h = {n: None if h[n] is None else S.ite(X.i_eq(k, i), nx[n], h[n]) for n in h}
            return h
        if k.get_id() in self.memo:
            return self.memo[k.get_id()][0]
        names = [n for n in self.start if self.start[n] is not None]
        tmpl = {n: self.start[n] for n in names}
        leaves, td = jtu.tree_flatten(tmpl, is_leaf=is_sym)
        avals = tuple((l.shape, dtype_of(l)) for l in leaves)
        save = S.fns.get("History")
        S.fn("History", None, finite=False)
        outs = S.opaque("History", avals, [T(k)])
        h = jtu.tree_unflatten(td, [sarr(o, d) for o, (_, d) in zip(outs, avals)])
        h.setdefault("F", None)
        self.memo[k.get_id()] = (h, k)
        S.assume(implies(X.i_eq(k, 0), self._eq(h, self.start)))
        return h

    def _eq(self, a, b):
        return and_(*[self.S.same(a[n], b[n]) for n in a if a[n] is not None])

    def unfold(self, k):
        """Adds the definition of step k+1 in terms of step k."""
        if self.S.concrete or isinstance(k, int):
            return
        key = ("unfold", k.get_id())
        if key in self.memo:
            return
        self.memo[key] = k
        h = self.at(k)
        h1 = self.at(k + 1)
        self.S.assume(implies(k >= 0, self._eq(h1, self._next(h))))

    # ---- loop contract
    def handler(self, max_steps):
        def f(S, interp, cond, body, init, avals):
            return self._loop(max_steps, S, interp, cond, body, init, avals)

        f.on_exit = self._on_exit
        self.steps_taken = 0
        return f

    def _on_exit(self, init, carry):
        for a, b in zip(init, carry):
            if a.shape == () and elem_kind(a.item()) == "i" and isinstance(a.item(), int) and a.item() == 0:
                self.steps_taken = b.item()
                return

    def _cands(self, carry, slots):
        """Candidate invariants for a carry: each is (key, formula)."""
        S = self.S
        out = []
        for j in slots:
            k = carry[j].item()
            if not isinstance(k, int):
                self.unfold(k)
            h = self.at(k)
            st = self.status(h)
            comps = {}
            for n in h:
                if h[n] is None or n == "nostop":
                    continue
                for p, l in jtu.tree_leaves_with_path(h[n], is_leaf=is_sym):
                    comps[n + jtu.keystr(p)] = l
            comps["term"], comps["code"], comps["stop"] = T(st["term"]), T(st["code"]), T(st["stop"])
            comps["go"] = T(not_(st["stop"]))
            comps["k"] = carry[j]
            out.append((("nostop", j), h["nostop"].item()))
            out.append((("nonneg", j), X.i_le(0, k)))
            if self.max_steps is not None:
                out.append((("max", j), X.i_le(k, self.max_steps)))
            for i, a in enumerate(carry):
                if i == j:
                    continue
                for n, l in comps.items():
                    if l.shape != a.shape or (a.size and elem_kind(a.reshape(-1)[0]) != elem_kind(l.reshape(-1)[0])):
                        continue
                    out.append(((n, j, i), S.same(a, l)))
        return out

    def _loop(self, max_steps, S, interp, cond, body, init, avals):
        from .jx import kind_of

        self.max_steps = max_steps
        slots = [j for j, a in enumerate(avals) if a.shape == () and kind_of(a.dtype) == "i"]
        P = S.prover
        # only slots that start at 0 can count steps
        slots = [j for j in slots if isinstance(init[j].item(), int) and init[j].item() == 0]

        def hyps():
            return S.hyps() + [f for f in interp.pc if f is not True]

        c0 = self._cands(init, slots)
        alive = {k: True for k, f in _prove_all(P, hyps, c0)}
        h = [interp.havoc(a, f"loop.c{k}") for k, a in enumerate(avals)]
        ch = dict(self._cands(h, slots))
        cnd = cond(h)
        interp.pc.append(cnd)
        nb = body(h)
        interp.pc.pop()
        cb = dict(self._cands(nb, slots))
        while True:
            hy = lambda: hyps() + [ch[k] for k in alive if ch[k] is not True] + ([cnd] if cnd is not True else [])
            ok = {k for k, _ in _prove_all(P, hy, [(k, cb[k]) for k in alive])}
            if len(ok) == len(alive):
                break
            alive = {k: True for k in alive if k in ok}
        names = ["|".join(map(str, k)) for k in alive]
        for n in names:
            S.loop_obligations += [(f"loop.init[{n}]", "proved"), (f"loop.preserved[{n}]", "proved")]
        S.loop_invariants = names
        e = [interp.havoc(a, f"loop.x{k}") for k, a in enumerate(avals)]
        self.steps_taken = next((e[j].item() for j in slots if ("nostop", j) in alive), 0)
        ce = dict(self._cands(e, slots))
        S.assume(*[implies_pc(interp, ce[k]) for k in alive])
        S.assume(implies_pc(interp, not_(cond(e))))
        return e


def _prove_all(P, hyps, cands, exact=True):
    """Those candidates entailed by hyps (each proved; refuting models drop many at once).
    Without `exact`, those that hold whatever products and quotients are."""
    todo = []
    done = []
    for k, f in cands:
        if f is True:
            done.append((k, f))
        elif f is not False:
            todo.append((k, f))
    hy = hyps()
    # without non-linear arithmetic
    from .prove import abstract_nl

    ab, nl = abstract_nl(hy + [f for _, f in todo])
    if nl:
        s = z3.Solver()
        s.set("timeout", 8000)
        s.add(*ab[: len(hy)])
        keep = list(zip(todo, ab[len(hy):]))
        while keep:
            s.push()
            s.add(z3.Or(*[z3.Not(g) for _, g in keep]))
            P.queries += 1
            r = s.check()
            if r == z3.sat:
                m = s.model()
                nk = [(c, g) for c, g in keep if z3.is_true(m.eval(g, model_completion=True))]
                s.pop()
                if len(nk) == len(keep):
                    keep = []
                keep = nk
                continue
            if r == z3.unsat:
                done += [c for c, _ in keep]
            break
        names = {k for k, _ in done}
        todo = [(k, f) for k, f in todo if k not in names]
        if not exact:
            P.undecided += len(todo)
            return done
    # first, drop in bulk with models of the negated conjunction
    while todo:
        s = z3.Solver()
        s.set("timeout", 8000)
        s.add(*hy)
        s.add(z3.Or(*[z3.Not(f) for _, f in todo]))
        r = s.check()
        P.queries += 1
        if r == z3.unsat:
            return done + todo
        if r == z3.sat:
            m = s.model()
            keep = [(k, f) for k, f in todo if z3.is_true(m.eval(f, model_completion=True))]
            if len(keep) == len(todo):
                break
            todo = keep
        else:
            break
    for k, f in todo:
        st = P.valid(hy, f, 0.3).status
        if st == "proved":
            done.append((k, f))
            hy = hy + [f]
        elif st == "unknown":
            P.undecided += 1
    return done
