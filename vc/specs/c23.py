"""C23: box utilities."""

import optimistix._misc as misc
from vc.core import *
from vc.driver import T
from vc.runner import Property
from vc.search import *
from vc.xf import *

prop = Property("C23", ["lower bounds do not exceed upper bounds where the property speaks of a box"])


def box(S, t, finite=True):
    x, dx = S.like(t, "x"), S.like(t, "dx")
    lo, up = S.like(t, "lower", finite=finite), S.like(t, "upper", finite=finite)
    for l, u in zip(S.scalars(lo), S.scalars(up)):
        S.assume(not_(l.nan), not_(u.nan), not_(l.pinf), not_(u.ninf), l <= u)
    return x, dx, lo, up


def lengths(ys, offset, finite):
    def ob(S):
        x, dx, lo, up = box(S, YS[ys], finite)
        if offset:
            off = S.float("offset", hint=(0, 1))
            S.assume(xf(0).lt(off.item()), off.item().lt(xf(1)))
            al = S.run(lambda x, d, l, u, o: misc.feasible_step_length(x, d, l, u, offset=o), x, dx, lo, up, off)
        else:
            al = S.run(misc.feasible_step_length, x, dx, lo, up)
        S.check("same structure", jtu.tree_structure(al, is_leaf=is_sym) == jtu.tree_structure(x, is_leaf=is_sym))
        total = S.s(S.run(lambda t: misc.tree_min(t), al))
        least = []
        for k, (a, e, d, l, u) in enumerate(zip(*[S.scalars(t) for t in (al, x, dx, lo, up)])):
            S.check(f"between zero and one [{k}]", and_(xf(0) <= a, a <= xf(1)))
            new = e + a * d
            with S.ctx.exactly():
                ok, inside = and_(l <= e, e <= u), and_(l.lt(e), e.lt(u))
                outside = or_(e.lt(l), u.lt(e))
                worse = or_(and_(e <= l, d.lt(xf(0))), and_(u <= e, xf(0).lt(d)))
            S.check(f"stays inside [{k}]", implies(ok, and_(l <= new, new <= u)))
            back = or_(and_(e <= l, xf(0) <= d, e + d <= l), and_(u <= e, d <= xf(0), u <= e + d))
            if offset:
                S.check(f"stays strictly inside [{k}]", implies(inside, and_(l.lt(new), new.lt(u))))
                S.check(f"violation-reducing steps are not blocked [{k}]", implies(and_(back, outside), xf(0).lt(a)))
            else:
                S.check(f"a feasible full step is allowed [{k}]", implies(and_(l <= e + d, e + d <= u), a.same(xf(1))))
                S.check(f"violation-reducing steps are not blocked [{k}]", implies(back, a.same(xf(1))))
            S.check(f"worsening steps are blocked [{k}]", implies(worse, a.same(xf(0))))
            least.append(total <= a)
            moved = e + total * d
            S.check(f"overall step stays inside [{k}]", implies(and_(ok, xf(0) <= total, total <= a, a <= xf(1), l <= new, new <= u), and_(l <= moved, moved <= u)))
        S.check("overall length is the least", and_(and_(*least), or_(*[total.same(a) for a in S.scalars(al)])))

    return ob


def clip(ys, finite):
    def ob(S):
        x, z, lo, up = box(S, YS[ys], finite)
        c = S.run(misc.tree_clip, x, lo, up)
        S.check("same structure", jtu.tree_structure(c, is_leaf=is_sym) == jtu.tree_structure(x, is_leaf=is_sym))
        ins, keep, near = [], [], []
        for a, e, w, l, u in zip(*[S.scalars(t) for t in (c, x, z, lo, up)]):
            ins += [l <= a, a <= u]
            keep.append(implies(and_(l <= e, e <= u), a.same(e)))
            near.append(implies(and_(l <= w, w <= u), abs(a - e) <= abs(w - e)))
        S.check("in the box", and_(*ins))
        S.check("points inside are unchanged", and_(*keep))
        S.check("nearest point", and_(*near))

    return ob


def clip_crossed(S):
    """Documented: with crossed bounds the upper one wins."""
    x, l, u = S.float("x", (2,)), S.float("l", (2,)), S.float("u", (2,))
    c = S.run(misc.tree_clip, x, l, u)
    S.check("upper bound wins", and_(*[implies(b.lt(a), v.same(b)) for v, a, b in zip(S.scalars(c), S.scalars(l), S.scalars(u))]))


def reductions(ys):
    def ob(S):
        t = S.like(YS[ys], "t")
        lo, hi = S.s(S.run(misc.tree_min, t)), S.s(S.run(misc.tree_max, t))
        es = S.scalars(t)
        S.check("minimum", and_(*[lo <= e for e in es], or_(*[lo.same(e) for e in es])))
        S.check("maximum", and_(*[e <= hi for e in es], or_(*[hi.same(e) for e in es])))

    return ob


for ys in ("scalar", "vec", "dict", "nested"):
    for fin in (True, False):
        b = "" if fin else ".infinite bounds"
        prop.ob(f"length.{ys}{b}", ["feasible_step_length", "tree_min"])(lengths(ys, False, fin))
        prop.ob(f"length.offset.{ys}{b}", ["feasible_step_length", "tree_min"])(lengths(ys, True, fin))
        prop.ob(f"clip.{ys}{b}", ["tree_clip"])(clip(ys, fin))
    prop.ob(f"reductions.{ys}", ["tree_min", "tree_max"])(reductions(ys))
prop.ob("clip.crossed bounds", ["tree_clip"])(clip_crossed)
