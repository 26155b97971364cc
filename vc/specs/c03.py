"""C03: throwing."""

from vc.core import *
from vc.driver import *
from vc.runner import Property
from vc.specs.c01 import inputs, outcome, solved
from vc.specs.c02 import accounting
from vc.xf import *

prop = Property("C03", [
    "user-written solvers are pure functions of what the interface passes them",
    "the number of steps is determined by 'stopped at N and not before' (so that two runs meeting the same contract agree)",
])
MSGS = list(RES._index_to_message)


def throwing(entry, family, max_steps, **kw):
    def ob(S):
        P, R, raised, sol = solved(S, entry, family, max_steps, throw=True, **kw)
        if S.concrete:
            # executed: compare with the non-throwing run
            y0, args, o, c = R.y0, R.args, R.o, R.c
            ref = S.run(lambda y0, args, o, c: P.solve(y0, args, o, c, max_steps=max_steps, adjoint=kw.get("adjoint")), y0, args, o, c, key="ref")
            code = S.s(code_of(ref.result))
            S.check("raises iff unsuccessful", bool(raised) == (code != 0))
            if raised:
                S.check("error carries the message", MSGS[code] in S.last_error or not MSGS[code])
            else:
                S.check("same solution", S.same((ref.value, ref.aux, ref.stats), (sol.value, sol.aux, sol.stats)))
            return
        errors = list(S.errors)
        N = R.steps_taken  # (the returned count is meaningless if the run raises)
        h, st, want = outcome(S, R, N, max_steps)
        bad = not_(X.i_eq(want, CODE["successful"]))
        S.check("raises iff unsuccessful", iff(raised, bad))
        S.check("only solve outcomes raise", all(m == MSGS for _, m, _ in errors))
        S.check("error carries the message", and_(*[implies(pc, X.i_eq(ix, want)) for pc, _, ix in errors]))
        code = S.s(code_of(sol.result))
        S.check("result", implies(not_(raised), X.i_eq(code, want)))
        accounting(S, P, R, sol, max_steps, guard=not_(raised))

    return ob


def quiet(entry, family, max_steps, **kw):
    def ob(S):
        P = Setup(S, entry, family, **kw)
        y0, args, o, c = inputs(S, P)
        R = Run(P, y0, args, o, c)
        raised, sol = S.run_raises(lambda y0, args, o, c: P.solve(y0, args, o, c, max_steps=max_steps, throw=False), y0, args, o, c, loop=R.handler(max_steps))
        S.check("never raises", not_(raised))

    return ob


F = ["iterative_solve", "_iterate"]
for e, f in PAIRS:
    prop.ob(f"{e}-via-{f}.throw", F + [ENTRY[e].__name__])(throwing(e, f, 256))
    prop.ob(f"{e}-via-{f}.quiet", F + [ENTRY[e].__name__])(quiet(e, f, 256))
for e in ("fp", "root", "lsq", "min"):
    prop.ob(f"{e}.throw.budget-1", F + [ENTRY[e].__name__])(throwing(e, e, 1, ystruct="vec", has_aux=False))
    prop.ob(f"{e}.throw.unlimited", F + [ENTRY[e].__name__])(throwing(e, e, None, ystruct="scalar"))
prop.ob("min.throw.checkpointed", F + ["minimise"])(throwing("min", "min", 9, adjoint=optx.RecursiveCheckpointAdjoint(), ystruct="vec"))
