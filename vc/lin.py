"""Ghost linear solvers: any linear solver, known only by what it returns.

`GhostLinear` is a user-written `lineax.AbstractLinearSolver`: an arbitrary function of
the matrix of the operator and the right-hand side, returning a vector and a code.  With
`can_fail="non-finite"` it fails exactly on systems that are not finite.  With
`solves=True` its contract says that success means the (least-squares) system is solved.
"""

from __future__ import annotations

import hashlib
import re

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import lineax.internal as lxi
import numpy as np

import optimistix as optx

from . import xf as X
from .core import is_sym, sarr, struct
from .driver import EnumItem, T, code_of, item_of
from .xf import XF, and_, iff, implies, not_, or_, xf
from lineax._solver.misc import pack_structures, ravel_vector, transpose_packed_structures, unravel_solution

NLX = len(lx.RESULTS)


class Lin:
    def __init__(self, S, solves=False, finite=True, can_fail=True, name="lin"):
        self.S, self.solves, self.finite, self.can_fail, self.name = S, solves, finite, can_fail, name
        self.sample = None  # chooses solutions in concrete runs
        self.fns = {}
        S.fn_hooks.append(self._declare)

    def _declare(self, name):
        m = re.fullmatch(re.escape(self.name) + r"(\d+)x(\d+)", name)
        if m:
            self.fn(int(m.group(1)), int(m.group(2)))

    def fn(self, m, n):
        if (m, n) not in self.fns:
            self.fns[m, n] = self.S.fn(
                f"{self.name}{m}x{n}", (struct((n,)), struct((), np.int64)), finite=self.finite,
                contract=self._contract, concrete=self._conc,
            )
        return self.fns[m, n]

    def _contract(self, S, ins, outs):
        c = outs[1].item()
        if self.can_fail == "non-finite":
            out = [X.i_le(0, c), X.i_le(c, NLX - 1), iff(X.i_eq(c, 0), and_(*[e.finite for a in ins for e in np.asarray(a).reshape(-1)]))]
        else:
            out = [X.i_eq(c, 0)] if not self.can_fail else [X.i_le(0, c), X.i_le(c, NLX - 1)]
        if self.solves:
            A, b = (np.asarray(a) for a in ins)
            x = np.asarray(outs[0])
            r = A.dot(x) - b if A.shape[0] == A.shape[1] else A.T.dot(A.dot(x) - b)
            out.append(implies(X.i_eq(c, 0), and_(*[e.same(xf(0)) for e in r.reshape(-1)])))
        return out

    def _conc(self, S, args):
        A, b = (np.asarray(a, float) for a in args)
        n = A.shape[1]
        h = hashlib.sha256(repr((getattr(S.source, "seed", 0), A.tolist(), b.tolist())).encode()).digest()
        if not (np.all(np.isfinite(A)) and np.all(np.isfinite(b))):
            return [np.zeros(n), 2 if self.can_fail else 0]
        if not self.solves and h[2] < 128:  # any vector
            any_ = np.array([(h[3 + i % 20] - 128) / 64 for i in range(n)])
            return [any_ if self.sample is None else self.sample(A, b, any_), 0]
        x, _, rank, _ = np.linalg.lstsq(A, b, rcond=None)
        if self.solves and self.can_fail and A.shape[0] == A.shape[1] and rank < n:
            return [x, 2]
        if self.can_fail is True and h[0] < 50:
            return [x, 1 + h[1] % (NLX - 1)]
        return [x, 0]

    def solver(self):
        return GhostLinear(self)

    def spec(self, A, b):
        """(solution, optimistix code) that lineax gives for this matrix and vector."""
        m, n = A.shape

        def go(A, b):
            sol = lx.linear_solve(lx.MatrixLinearOperator(A), b, self.solver(), throw=False)
            return sol.value, code_of(optx.RESULTS.promote(sol.result))

        x, c = self.S.run(go, A, b, key=f"lin{m}x{n}")
        return x, self.S.s(c)

    def call(self, A, b):
        m, n = A.shape
        return self.fn(m, n)(A, b)


class GhostLinear(lx.AbstractLinearSolver):
    L: object = eqx.field(static=True)

    def init(self, operator, options):
        return operator.as_matrix(), pack_structures(operator)

    def compute(self, state, vector, options):
        A, packed = state
        x, code = self.L.call(A, ravel_vector(vector, packed))
        return unravel_solution(x, packed), _lx_item(code), {}

    def transpose(self, state, options):
        A, packed = state
        return (A.T, transpose_packed_structures(packed)), {}

    def conj(self, state, options):
        return state, {}

    def assume_full_rank(self):
        return True


def _lx_item(code):
    return type(lx.RESULTS.successful)(jnp.asarray(code, jnp.int32), lx.RESULTS)


def split(S, vec, tree):
    """The vector as a tree of the given structure."""
    leaves, td = jtu.tree_flatten(tree, is_leaf=is_sym)
    out, off = [], 0
    v = np.asarray(vec).reshape(-1)
    for l in leaves:
        k = int(np.prod(l.shape))
        out.append(sarr(v[off : off + k].reshape(l.shape)))
        off += k
    return jtu.tree_unflatten(td, out)


def flat(S, tree):
    return sarr(np.array(S.scalars(tree), dtype=object))
