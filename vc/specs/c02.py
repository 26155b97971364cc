"""C02: step budget, step count, and what is returned."""

from vc.core import *
from vc.driver import *
from vc.runner import Property
from vc.specs.c01 import outcome, solved
from vc.xf import *

prop = Property("C02", [
    "user-written solvers are pure functions of what the interface passes them; their state holds floats, an integer, a flag and static data",
])


def ghost_state(state):
    hits = [l for l in jtu.tree_leaves(state, is_leaf=lambda x: isinstance(x, GState)) if isinstance(l, GState)]
    assert len(hits) == 1
    return hits[0]


def accounting(S, P, R, sol, max_steps, guard=True):
    N = S.s(sol.stats["num_steps"])
    h, st, want = outcome(S, R, N, max_steps)

    def chk(nm, f):
        S.check(nm, implies(guard, f))

    chk("count is non-negative", X.i_le(0, N))
    if max_steps is not None:
        chk("never more than the budget", X.i_le(N, max_steps))
        chk("stopped or budget used up", or_(st["stop"], X.i_eq(N, max_steps)))
    else:
        chk("stopped", st["stop"])
    chk("no earlier stop", h["nostop"].item())
    code = S.s(code_of(sol.result))
    v, u, extra = R.post(h, code)
    chk("value is the last iterate, post-processed", S.same(sol.value, v))
    if P.has_aux:
        chk("aux is that of post-processing", S.same(user_aux(sol.aux), u))
        chk("aux structure", jtu.tree_structure(sol.aux, is_leaf=is_sym) == jtu.tree_structure(P.us, is_leaf=is_sym))
    else:
        chk("no aux", sol.aux is None)
    g = ghost_state(sol.state)
    chk("state is that of the last step", and_(S.same(g.s, h["s"]), S.same(g.n, h["n"]), S.same(g.flag, h["flag"]), g.static == "static"))
    ms = sol.stats["max_steps"]
    chk("budget reported", ms is None if max_steps is None else (ms is not None and X.i_eq(S.s(ms) if is_sym(ms) else int(ms), max_steps)))
    chk("solver statistics reported", S.same(sol.stats["extra"], extra))
    chk("value structure", jtu.tree_structure(sol.value, is_leaf=is_sym) == jtu.tree_structure(P.ys, is_leaf=is_sym))


def steps(entry, family, max_steps, **kw):
    def ob(S):
        P, R, _, sol = solved(S, entry, family, max_steps, **kw)
        accounting(S, P, R, sol, max_steps)

    return ob


CKPT = optx.RecursiveCheckpointAdjoint()
F = ["iterative_solve", "_iterate"]
for e, f in PAIRS:
    prop.ob(f"{e}-via-{f}", F + [ENTRY[e].__name__])(steps(e, f, 256))
for e in ("fp", "root", "lsq", "min"):
    N = ENTRY[e].__name__
    prop.ob(f"{e}.unlimited", F + [N])(steps(e, e, None, ystruct="vec", outstruct="vec"))
    prop.ob(f"{e}.budget-1", F + [N])(steps(e, e, 1, ystruct="scalar", outstruct="scalar", options=False))
    prop.ob(f"{e}.budget-0", F + [N])(steps(e, e, 0, ystruct="nested", tags=False))
    prop.ob(f"{e}.checkpointed", F + [N, "RecursiveCheckpointAdjoint.apply"])(steps(e, e, 5, ystruct="vec", adjoint=CKPT))
    prop.ob(f"{e}.checkpointed-unlimited", F + [N, "RecursiveCheckpointAdjoint.apply"])(
        steps(e, e, None, ystruct="vec", adjoint=optx.RecursiveCheckpointAdjoint(checkpoints=3))
    )
    prop.ob(f"{e}.no-aux", F + [N])(steps(e, e, 16, has_aux=False))
for e, f in (("fp", "root"), ("fp", "min"), ("root", "lsq"), ("root", "min"), ("lsq", "min")):
    prop.ob(f"{e}-via-{f}.no-aux-unlimited", F + [ENTRY[e].__name__])(steps(e, f, None, has_aux=False, options=False, ystruct="vec"))
