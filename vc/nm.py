"""The simplex search of Nelder and Mead as a ghost machine."""

from __future__ import annotations

import jax.tree_util as jtu
import numpy as np

import optimistix as optx

from . import xf as X
from .core import is_sym, sarr
from .driver import T
from .jx import ite
from .search import Plain, size
from .xf import and_, implies, not_, or_, xf


class Simplex(Plain):
    """NelderMead on an opaque problem; vertices are kept in the order of the real code
    (the worst one is overwritten in place), contracts do not depend on that order."""

    def __init__(self, S, ystruct, norm=None, **kw):
        super().__init__(S, lambda r, t: optx.NelderMead(r, t, **({} if norm is None else dict(norm=norm))), "min", ystruct, **kw)
        self.n = size(self.prob.ys)

    # a list of vertices <-> tree with a leading axis
    def rows(self, tree):
        leaves, td = jtu.tree_flatten(tree, is_leaf=is_sym)
        return [jtu.tree_unflatten(td, [sarr(l[i]) for l in leaves]) for i in range(self.n + 1)]

    def tree(self, rows):
        ls = [jtu.tree_leaves(r, is_leaf=is_sym) for r in rows]
        td = jtu.tree_structure(rows[0], is_leaf=is_sym)
        return jtu.tree_unflatten(td, [sarr(np.stack([np.asarray(l[j], dtype=object) for l in ls])) for j in range(len(ls[0]))])

    def at(self, v):
        return self.prob.f(v).item()

    def pick(self, rows, i):
        out = rows[0]
        for k in range(1, len(rows)):
            out = self.S.ite(X.i_eq(i, k), rows[k], out)
        return out

    @staticmethod
    def arg(F, better):
        """index of the first best value"""
        i, v = 0, F[0]
        for k in range(1, len(F)):
            b = better(F[k], v)
            i, v = X.i_ite(b, k, i), X.x_ite(b, F[k], v)
        return i, v

    def move(self, V, F, A):
        """One step: (vertices, values, kind)"""
        S = self.S
        bi, fb = self.arg(F, lambda a, b: a.lt(b))
        wi, fw = self.arg(F, lambda a, b: b.lt(a))
        others = [X.x_ite(X.i_eq(wi, k), X.NINF, F[k]) for k in range(len(F))]
        _, f2 = self.arg(others, lambda a, b: b.lt(a))
        worst, best = self.pick(V, wi), self.pick(V, bi)
        n = self.n
        d = S.map(lambda w, *vs: sum(((v - w) for v in vs), xf(0)) / xf(n), worst, *V)
        along = lambda c: S.map(lambda w, u: w + c * u, worst, d)
        fr = self.at(along(xf(2)))
        inner, contract, expand = fw.lt(fr), f2.lt(fr), fr.lt(fb)
        c = X.x_ite(contract, X.x_ite(inner, xf(0.5), xf(1.5)), X.x_ite(expand, xf(3), xf(2)))
        new = along(c)
        fn = self.at(new)
        shrink = fw.lt(fn)
        VS = [S.map(lambda b, v: b + xf(0.5) * (v - b), best, v) for v in V]
        FS = [self.at(v) for v in VS]
        VR = [S.ite(X.i_eq(wi, k), new, V[k]) for k in range(len(V))]
        FR = [X.x_ite(X.i_eq(wi, k), fn, F[k]) for k in range(len(V))]
        V2 = [S.ite(shrink, a, b) for a, b in zip(VS, VR)]
        F2 = [X.x_ite(shrink, a, b) for a, b in zip(FS, FR)]
        A2 = [ite(shrink, self.out(s), ite(X.i_eq(wi, k), self.out(new), a)) for k, (s, a) in enumerate(zip(VS, A))]
        return V2, F2, A2, dict(shrink=shrink, fb=fb, fw=fw, best=best, worst=worst, wi=wi, new=new, fn=fn)

    # ---- the run, from the first evaluation of the initial simplex on
    def simplex_of(self, st):
        want = jtu.tree_structure(self.prob.ys)
        shapes = [(self.n + 1,) + tuple(l.shape) for l in jtu.tree_leaves(self.prob.ys)]

        def fits(t):
            ls, td = jtu.tree_flatten(t, is_leaf=is_sym)
            return td == want and [tuple(getattr(l, "shape", ())) for l in ls] == shapes

        hits = [t for t in jtu.tree_leaves(st, is_leaf=lambda t: is_sym(t) or fits(t)) if fits(t)]
        return hits[0]

    def start(self, V):
        """Ghosts: vertices, their values and auxiliary outputs."""
        rows = self.rows(V)
        arr = lambda xs: sarr(np.array(xs, dtype=object))
        return dict(V=V, F=arr([self.at(v) for v in rows]), A=arr([self.out(v) for v in rows]))

    def out(self, v):
        return self.S.scalars(self.prob.aux(v))[0]

    def ghosts(self, S, c):
        V, F = self.rows(c["g"]["V"]), list(c["g"]["F"])
        bi, fb = self.arg(F, lambda a, b: a.lt(b))
        wi, fw = self.arg(F, lambda a, b: b.lt(a))
        others = [X.x_ite(X.i_eq(wi, k), X.NINF, F[k]) for k in range(len(F))]
        _, f2 = self.arg(others, lambda a, b: b.lt(a))
        d = dict(bi=T(bi), fb=T(fb), best=self.pick(V, bi), wi=T(wi), fw=T(fw), worst=self.pick(V, wi), f2=T(f2))
        d["no"] = T(False)
        d["aux"] = self.pick([T(a) for a in c["g"]["A"]], bi)
        return d

    def cands(self, S, c):
        g = c["g"]
        V, F = self.rows(g["V"]), list(g["F"])
        bi, _ = self.arg(F, lambda a, b: a.lt(b))
        out = [("iterate is the best vertex", S.same(c["y"], self.pick(V, bi)))]
        for k, v in enumerate(V):
            out += [(f"value {k}", F[k].same(self.at(v))), (f"aux {k}", g["A"][k].same(self.out(v)))]
        return out

    def real_step(self, y, st):
        P = self.prob
        return self.call(lambda s, a, y, st: s.step(P.fn, y, a, self.options, st, self.tags), "step", y, st)

    def real_init(self, y):
        P = self.prob
        return self.call(lambda s, a, y: s.init(P.fn, y, a, self.options, P.outs, P.us, self.tags), "init", y)

    def run(self, depth=None, finite=True):
        S = self.S

        def init(S):
            y0 = S.like(self.prob.ys, "y0")
            st = self.real_init(y0)
            V = self.simplex_of(st)
            y1, st, aux = self.real_step(y0, st)
            return dict(y=y1, st=st, g=self.start(V))

        def step(S, c):
            y2, st, aux = self.real_step(c["y"], c["st"])
            V = self.rows(c["g"]["V"])
            V2, F2, A2, kind = self.move(V, list(c["g"]["F"]), list(c["g"]["A"]))
            arr = lambda xs: sarr(np.array(xs, dtype=object))
            return dict(y=y2, st=st, g=dict(V=self.tree(V2), F=arr(F2), A=arr(A2))), dict(aux=aux, kind=kind, V=V, V2=V2)

        return S.evolve(init, step, self.ghosts, self.cands, depth=depth, finite=finite)
