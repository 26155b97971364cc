"""Opaque functions: callees that the verifier knows only through their contract.

`OpaqueFn` is a JAX-traceable callable.  When the real code is *traced*, calling it
leaves an `opaque_call` equation in the jaxpr; the VC generator turns that into an
application of an uninterpreted function.  When the real code is *run* (replays), the
very same primitive is evaluated by a Python callback from the interpretation currently
installed (the verifier's counter-model, or a random one).

The derivative of an opaque function `f` is the opaque function `f'` (a dense tensor),
contracted with the tangent; so forward mode, reverse mode and linearisation performed
by the real code all produce terms in the entries of the Jacobian `f'(x)`.
"""

from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax.extend import core as jex_core
from jax.interpreters import ad, batching, mlir


opaque_p = jex_core.Primitive("opaque_call")
opaque_p.multiple_results = True


class Interp:
    """Concrete interpretation of opaque names, used when the real code is run."""

    current = None

    def call(self, name, avals, args):
        raise NotImplementedError


def _shaped(avals):
    return [jax.core.ShapedArray(s, d) for s, d in avals]


def _host(name, avals, *args):
    out = Interp.current.call(name, avals, [np.asarray(a) for a in args])
    return [np.asarray(o, dtype=d).reshape(s) for o, (s, d) in zip(out, avals)]


def _impl(*args, name, avals):
    res = [jax.ShapeDtypeStruct(s, d) for s, d in avals]
    return jax.pure_callback(
        lambda *a: _host(name, avals, *a), res, *args, vmap_method="sequential"
    )


def _abstract(*args, name, avals):
    return _shaped(avals)


opaque_p.def_impl(_impl)
opaque_p.def_abstract_eval(_abstract)
mlir.register_lowering(opaque_p, mlir.lower_fun(_impl, multiple_results=True))


def _isfloat(d):
    return jnp.issubdtype(d, jnp.inexact)


def _jvp(primals, tangents, *, name, avals):
    outs = opaque_p.bind(*primals, name=name, avals=avals)
    touts = [None] * len(avals)
    for i, (p, t) in enumerate(zip(primals, tangents)):
        if isinstance(t, ad.Zero) or not _isfloat(p.dtype):
            continue
        davals, idx = [], []
        for j, (s, d) in enumerate(avals):
            if _isfloat(d):
                davals.append((tuple(s) + tuple(p.shape), d))
                idx.append(j)
        if not davals:
            continue
        jacs = opaque_p.bind(*primals, name=f"{name}.d{i}", avals=tuple(davals))
        for j, jac in zip(idx, jacs):
            contrib = jnp.tensordot(jac, t, axes=p.ndim) if p.ndim else jac * t
            touts[j] = contrib if touts[j] is None else touts[j] + contrib
    res = []
    for j, (s, d) in enumerate(avals):
        if touts[j] is None:
            if _isfloat(d):
                res.append(ad.Zero(jax.core.ShapedArray(s, d)))
            else:
                res.append(ad.Zero(jax.core.ShapedArray(s, jax.dtypes.float0)))
        else:
            res.append(touts[j])
    return outs, res


ad.primitive_jvps[opaque_p] = _jvp


def _batch(args, dims, *, name, avals):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    rows = []
    for b in range(size):
        row = [
            a if d is None else jax.lax.index_in_dim(a, b, d, False)
            for a, d in zip(args, dims)
        ]
        rows.append(opaque_p.bind(*row, name=name, avals=avals))
    outs = [jnp.stack(o) for o in zip(*rows)]
    return outs, [0] * len(outs)


batching.primitive_batchers[opaque_p] = _batch


def opaque_call(name, out_struct, *args):
    """Call opaque `name` on the array leaves of args; returns a pytree like out_struct."""
    leaves = [jnp.asarray(x) for x in jax.tree_util.tree_leaves(args)]
    out_leaves, treedef = jax.tree_util.tree_flatten(out_struct)
    avals = tuple((tuple(o.shape), jnp.dtype(o.dtype)) for o in out_leaves)
    outs = opaque_p.bind(*leaves, name=name, avals=avals)
    return jax.tree_util.tree_unflatten(treedef, outs)
