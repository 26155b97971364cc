"""VC generator: symbolic interpretation of jaxprs traced from the real code.

A jaxpr is what JAX itself executes, so interpreting it is interpreting the running
code.  Every array is a numpy object array of symbolic scalars (see xf.py).
Anything the interpreter does not understand raises `Unsupported` (an undecided run),
never a verdict.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3
from jax import lax

from . import xf as X
from .xf import XF, xf, and_, or_, not_, implies


class Unsupported(Exception):
    pass


def kind_of(dtype):
    dtype = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
    if jnp.issubdtype(dtype, np.bool_):
        return "b"
    if jnp.issubdtype(dtype, np.integer):
        return "i"
    if jnp.issubdtype(dtype, np.floating):
        return "f"
    raise Unsupported(f"dtype {dtype}")


def lift_scalar(x, kind):
    if kind == "b":
        return bool(x)
    if kind == "i":
        return int(x)
    for v, e in X.CTX.named:
        if abs(float(x) - v) <= 4e-16 * v:
            return e
    return xf(float(x))


def lift(x, dtype=None):
    """Concrete array -> object array of constants."""
    x = np.asarray(x)
    kind = kind_of(x.dtype if dtype is None else dtype)
    out = np.empty(x.shape, dtype=object)
    for idx in np.ndindex(x.shape):
        out[idx] = lift_scalar(x[idx], kind)
    return out


def omap(f, *arrs):
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(shape):
        out[idx] = f(*[a[idx] for a in arrs])
    return out


def oarr(x, shape=()):
    out = np.empty(shape, dtype=object)
    out[...] = x
    return out


def is_const(e):
    if isinstance(e, XF):
        return e.const
    return isinstance(e, (bool, int))


def ite(c, a, b):
    if isinstance(a, XF) or isinstance(b, XF):
        return X.x_ite(c, xf(a), xf(b))
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return X.ite_b(c, a, b)
    return X.i_ite(c, a, b)


def ite_arr(c, a, b):
    return omap(lambda u, v: ite(c, u, v), a, b)


def same(a, b):
    """Value identity (NaN same as NaN)."""
    if isinstance(a, XF) or isinstance(b, XF):
        return xf(a).same(xf(b))
    if isinstance(a, bool) or z3.is_bool(a):
        return X.iff(a, b)
    return X.i_eq(a, b)


# --------------------------------------------------------------------------- ops


def _arith(fop, iop):
    def f(a, b):
        if isinstance(a, XF):
            return fop(a, b)
        return iop(a, b)

    return f


def _i_div(a, b):
    # lax.div on ints truncates towards zero
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b > 0:
        a = X.zi(a)
        return z3.If(a >= 0, a / b, -((-a) / b))
    raise Unsupported("symbolic integer division")


def _i_rem(a, b):
    # lax.rem: sign of the dividend
    if isinstance(a, int) and isinstance(b, int):
        return int(math.fmod(a, b))
    if isinstance(b, int) and b > 0:
        lo = X.i_least(a)
        if lo is not None and lo >= 0:
            cs, c = X.i_linear(a)
            if all(v % b == 0 for v in cs.values()):
                return c % b
        a = X.zi(a)
        return z3.If(a >= 0, a % b, -((-a) % b))
    b = X.zi(b)
    a = X.zi(a)
    return z3.If(a >= 0, a % b, -((-a) % b))


def _add(a, b):
    return a + b if isinstance(a, XF) else X.i_bin(lambda u, v: u + v, a, b)


def _sub(a, b):
    return a - b if isinstance(a, XF) else X.i_bin(lambda u, v: u - v, a, b)


def _mul(a, b):
    if isinstance(a, XF):
        return a * b
    if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
        return 0
    return X.i_bin(lambda u, v: u * v, a, b)


def _div(a, b):
    return a / b if isinstance(a, XF) else _i_div(a, b)


def _max(a, b):
    if isinstance(a, XF):
        return X.x_max(a, b)
    if isinstance(a, bool) or z3.is_bool(a):
        return or_(a, b)
    return X.i_ite(X.i_lt(a, b), b, a)


def _min(a, b):
    if isinstance(a, XF):
        return X.x_min(a, b)
    if isinstance(a, bool) or z3.is_bool(a):
        return and_(a, b)
    return X.i_ite(X.i_lt(b, a), b, a)


def _neg(a):
    if isinstance(a, XF):
        return -a
    return -a if isinstance(a, int) else -a


def _lt(a, b):
    if isinstance(a, XF):
        return a.lt(b)
    if isinstance(a, bool) or z3.is_bool(a):
        return and_(not_(a), b)
    return X.i_lt(a, b)


def _le(a, b):
    if isinstance(a, XF):
        return a.le(b)
    if isinstance(a, bool) or z3.is_bool(a):
        return or_(not_(a), b)
    return X.i_le(a, b)


def _eq(a, b):
    if isinstance(a, XF):
        return a.eq(b)
    if isinstance(a, bool) or z3.is_bool(a):
        return X.iff(a, b)
    return X.i_eq(a, b)


def _isbool(a):
    return isinstance(a, bool) or z3.is_bool(a)


def _bit(fb, fi):
    def f(*xs):
        if all(_isbool(x) for x in xs):
            return fb(*xs)
        if all(isinstance(x, int) for x in xs):
            return fi(*xs)
        raise Unsupported("bit operation on symbolic ints")

    return f


def _sign(a):
    if isinstance(a, XF):
        return X.x_sign(a)
    return X.i_ite(X.i_lt(0, a), 1, X.i_ite(X.i_lt(a, 0), -1, 0))


def _abs(a):
    if isinstance(a, XF):
        return abs(a)
    if isinstance(a, int):
        return abs(a)
    return X.i_ite(X.i_lt(a, 0), -a, a)


def _integer_pow(a, n):
    if not isinstance(a, XF):
        out = 1
        for _ in range(n):
            out = _mul(out, a)
        return out
    if n >= 0:
        return a**n
    return xf(1) / (a ** (-n))


def _pow(a, b):
    if isinstance(b, XF) and b.const and b.plain:
        p = Fraction(b.r)
        if p.denominator == 1 and abs(p) <= 8:
            return _integer_pow(a, int(p))
        if p == Fraction(1, 2):
            return X.x_sqrt(a)
    if not isinstance(b, XF) and isinstance(b, int):
        return _integer_pow(a, b)
    return X.x_fun("pow", a, xf(b))


def _convert(a, src, dst):
    if src == dst:
        return a
    if dst == "f":
        return xf(a)
    if dst == "b":
        if src == "i":
            return not_(X.i_eq(a, 0))
        return not_(and_(a.eq(xf(0))))
    if dst == "i":
        if src == "b":
            if isinstance(a, bool):
                return int(a)
            return z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if a.const:
            return int(X.to_float(a))
        r = X.zr(a.r)
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    raise Unsupported(f"convert {src}->{dst}")


def _floor(a):
    if a.const and a.plain:
        return xf(math.floor(a.r))
    return XF(z3.ToReal(z3.ToInt(X.zr(a.r))), a.nan, a.pinf, a.ninf)


ELEMENTWISE = {
    "add": _add,
    "add_any": _add,
    "sub": _sub,
    "mul": _mul,
    "div": _div,
    "max": _max,
    "min": _min,
    "neg": _neg,
    "abs": _abs,
    "sign": _sign,
    "lt": _lt,
    "le": _le,
    "gt": lambda a, b: _lt(b, a),
    "ge": lambda a, b: _le(b, a),
    "eq": _eq,
    "ne": lambda a, b: not_(_eq(a, b)),
    "and": _bit(and_, lambda a, b: a & b),
    "or": _bit(or_, lambda a, b: a | b),
    "xor": _bit(X.xor_, lambda a, b: a ^ b),
    "not": _bit(not_, lambda a: ~a),
    "rem": lambda a, b: _i_rem(a, b),
    "sqrt": X.x_sqrt,
    "rsqrt": lambda a: xf(1) / X.x_sqrt(a),
    "square": lambda a: a * a if isinstance(a, XF) else _mul(a, a),
    "is_finite": lambda a: a.finite,
    "pow": _pow,
    "floor": _floor,
    "ceil": lambda a: -_floor(-a),
    "real": lambda a: a,
    "conj": lambda a: a,
    "shift_right_logical": _bit(None, lambda a, b: a >> b),
    "shift_left": _bit(None, lambda a, b: a << b),
    "shift_right_arithmetic": _bit(None, lambda a, b: a >> b),
}
for _n in ("exp", "log", "tanh", "sin", "cos", "log1p", "expm1", "tan", "atan2", "logistic", "cbrt"):
    ELEMENTWISE[_n] = (lambda n: lambda *a: X.x_fun(n, *a))(_n)

IDENTITY = {
    "copy",
    "copy_p",
    "stop_gradient",
    "nondifferentiable_backward",
    "nondifferentiable",
    "nontraceable",
    "nonbatchable",
    "unvmap_any",
    "unvmap_all",
    "unvmap_max",
    "optimization_barrier",
    "reduce_precision",
    "sharding_constraint",
    "noinline",
    "announce",
    "pvary",
    "mutate_to_const",
}


def _idx_arr(shape, base=0):
    n = int(np.prod(shape)) if shape else 1
    return (np.arange(n, dtype=np.int64) + base).reshape(shape)


def shuffle_op(bind, operands, shape):
    """Apply a data-movement primitive by running JAX itself on element indices."""
    flat = []
    ids = []
    base = 0
    for o in operands:
        ids.append(_idx_arr(o.shape, base))
        flat += list(o.reshape(-1))
        base += o.size
    out_ids = np.asarray(bind(*[jnp.asarray(i) for i in ids]))
    out = np.empty(out_ids.shape, dtype=object)
    for idx in np.ndindex(out_ids.shape):
        out[idx] = flat[int(out_ids[idx])]
    return out


# --------------------------------------------------------------------------- interpreter


class JX:
    """Interprets jaxprs.  `env` supplies the contracts of opaque callees and loops."""

    def __init__(self, env):
        self.env = env
        self.pc = []  # path condition (list of booleans)
        self.errors = []  # (path condition, messages) of runtime errors raised
        self.used = {}  # primitive -> count
        self.opaque_log = []

    # ---- values
    def read(self, frame, v):
        if hasattr(v, "val"):  # Literal
            return lift(np.asarray(v.val, dtype=v.aval.dtype))
        return frame[v]

    def eval_closed(self, closed, args):
        return self.eval(closed.jaxpr, [self._const(c) for c in closed.consts], args)

    def _const(self, c):
        if isinstance(c, np.ndarray) and c.dtype == object:
            return c
        return lift(np.asarray(c))

    def eval(self, jaxpr, consts, args):
        frame = {}
        for v, c in zip(jaxpr.constvars, consts):
            frame[v] = c
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            frame[v] = a
        for eqn in jaxpr.eqns:
            ins = [self.read(frame, v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if len(outs) != len(eqn.outvars):
                raise Unsupported(f"{eqn.primitive} arity")
            for v, o in zip(eqn.outvars, outs):
                if tuple(o.shape) != tuple(v.aval.shape):
                    raise Unsupported(
                        f"{eqn.primitive}: shape {o.shape} vs {v.aval.shape}"
                    )
                frame[v] = o
        return [self.read(frame, v) for v in jaxpr.outvars]

    # ---- equations
    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        self.used[name] = self.used.get(name, 0) + 1
        if name in ELEMENTWISE:
            return [omap(ELEMENTWISE[name], *ins)]
        if name in IDENTITY:
            return list(ins)
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is not None:
            return m(eqn, ins, p)
        sub = None
        for k in ("call_jaxpr", "fun_jaxpr", "jaxpr"):
            if k in p:
                sub = p[k]
                break
        if sub is not None and name in (
            "jit", "pjit", "closed_call", "core_call", "custom_jvp_call",
            "custom_vjp_call", "remat", "checkpoint", "remat2", "custom_lin",
            "custom_vjp_call_jaxpr", "core_closed_call",
        ):
            if hasattr(sub, "consts"):
                return self.eval_closed(sub, ins)
            return self.eval(sub, [], ins)
        raise Unsupported(f"primitive {name}")

    # call-like
    def _call(self, sub, ins):
        if hasattr(sub, "consts"):
            return self.eval_closed(sub, ins)
        return self.eval(sub, [], ins)

    # data movement via index trick
    def _shuffle(self, eqn, ins):
        prim, p = eqn.primitive, eqn.params
        out = shuffle_op(lambda *xs: prim.bind(*xs, **p), ins, None)
        return [out]

    p_reshape = p_transpose = p_slice = p_rev = p_squeeze = p_expand_dims = (
        lambda self, eqn, ins, p: self._shuffle(eqn, ins)
    )
    p_concatenate = p_stack = p_tile = p_pad = p_copy = lambda self, eqn, ins, p: self._shuffle(eqn, ins)

    def p_broadcast_in_dim(self, eqn, ins, p):
        x = ins[0]
        shape = p["shape"]
        inter = [1] * len(shape)
        for d, s in zip(p["broadcast_dimensions"], x.shape):
            inter[d] = s
        out = np.empty(shape, dtype=object)
        out[...] = np.broadcast_to(x.reshape(inter), shape)
        return [out]

    def p_split(self, eqn, ins, p):
        sizes, axis = p["sizes"], p["axis"]
        cuts = np.cumsum(sizes)[:-1]
        return list(np.split(ins[0], cuts, axis=axis))

    def p_unstack(self, eqn, ins, p):
        x = ins[0]
        return [np.take(x, i, axis=p["axis"]).reshape(v.aval.shape) if x.ndim > 1 else oarr(x[i]) for i, v in enumerate(eqn.outvars)]

    def p_iota(self, eqn, ins, p):
        return [lift(np.asarray(eqn.primitive.bind(**p)))]

    def p_empty(self, eqn, ins, p):
        return [lift(np.zeros(p["shape"], p["dtype"]))]

    def p_convert_element_type(self, eqn, ins, p):
        src = kind_of(eqn.invars[0].aval.dtype)
        dst = kind_of(p["new_dtype"])
        return [omap(lambda a: _convert(a, src, dst), ins[0])]

    def p_integer_pow(self, eqn, ins, p):
        return [omap(lambda a: _integer_pow(a, p["y"]), ins[0])]

    def p_select_n(self, eqn, ins, p):
        which, *cases = ins
        if which.shape == () and cases[0].shape != ():
            which = np.broadcast_to(which, cases[0].shape)

        def sel(w, *cs):
            if _isbool(w):
                return ite(w, cs[1], cs[0])
            out = cs[-1]
            for i in range(len(cs) - 2, -1, -1):
                out = ite(X.i_eq(w, i), cs[i], out)
            return out

        return [omap(sel, which, *cases)]

    def p_select_if_vmap(self, eqn, ins, p):
        return [ins[1]]

    def p_clamp(self, eqn, ins, p):
        lo, x, hi = ins
        return [omap(lambda l, v, h: _min(_max(v, l), h), lo, x, hi)]

    # reductions
    def _reduce(self, x, axes, f, init):
        axes = tuple(sorted(axes))
        keep = [d for d in range(x.ndim) if d not in axes]
        out = np.empty([x.shape[d] for d in keep], dtype=object)
        moved = np.transpose(x, keep + list(axes))
        moved = moved.reshape([x.shape[d] for d in keep] + [-1])
        for idx in np.ndindex(out.shape):
            acc = init
            for e in moved[idx]:
                acc = e if acc is None else f(acc, e)
            out[idx] = acc
        return out

    def _zero_of(self, eqn, v):
        k = kind_of(eqn.outvars[0].aval.dtype)
        return {"f": xf(v), "i": int(v) if math.isfinite(v) else None, "b": bool(v)}[k]

    def p_reduce_sum(self, eqn, ins, p):
        return [self._reduce(ins[0], p["axes"], _add, None if ins[0].size else self._zero_of(eqn, 0))]

    def p_reduce_prod(self, eqn, ins, p):
        return [self._reduce(ins[0], p["axes"], _mul, None if ins[0].size else self._zero_of(eqn, 1))]

    def p_reduce_max(self, eqn, ins, p):
        return [self._reduce(ins[0], p["axes"], _max, None if ins[0].size else self._zero_of(eqn, -math.inf))]

    def p_reduce_min(self, eqn, ins, p):
        return [self._reduce(ins[0], p["axes"], _min, None if ins[0].size else self._zero_of(eqn, math.inf))]

    def p_reduce_and(self, eqn, ins, p):
        return [self._reduce(ins[0], p["axes"], and_, True)]

    def p_reduce_or(self, eqn, ins, p):
        return [self._reduce(ins[0], p["axes"], or_, False)]

    def _arg(self, eqn, ins, p, better):
        (axis,) = p["axes"]
        x = np.moveaxis(ins[0], axis, -1)
        out = np.empty(x.shape[:-1], dtype=object)
        for idx in np.ndindex(out.shape):
            row = x[idx]
            bi, bv = 0, row[0]
            for j in range(1, len(row)):
                c = better(row[j], bv)
                bi = X.i_ite(c, j, bi)
                bv = ite(c, row[j], bv)
            out[idx] = bi
        return [out]

    def p_argmin(self, eqn, ins, p):
        def better(a, b):
            if isinstance(a, XF):
                return or_(a.lt(b), and_(a.nan, not_(b.nan)))
            return _lt(a, b)

        return self._arg(eqn, ins, p, better)

    def p_argmax(self, eqn, ins, p):
        def better(a, b):
            if isinstance(a, XF):
                return or_(b.lt(a), and_(a.nan, not_(b.nan)))
            return _lt(b, a)

        return self._arg(eqn, ins, p, better)

    def p_top_k(self, eqn, ins, p):
        # descending order; ties (and NaN, treated as largest) resolved by lowest index
        k = p["k"]
        x = ins[0]
        vals = np.empty(x.shape[:-1] + (k,), dtype=object)
        idxs = np.empty(x.shape[:-1] + (k,), dtype=object)

        def gt(a, b):
            return or_(xf(b).lt(a), and_(xf(a).nan, not_(xf(b).nan)))

        for idx in np.ndindex(x.shape[:-1]):
            row = list(x[idx])
            n = len(row)
            taken = [False] * n
            for j in range(k):
                bi, bv, bt = 0, row[0], taken[0]
                for i in range(1, n):
                    c = and_(not_(taken[i]), or_(bt, gt(row[i], bv)))
                    bi = X.i_ite(c, i, bi)
                    bv = ite(c, row[i], bv)
                    bt = X.ite_b(c, False, bt)
                vals[idx + (j,)] = bv
                idxs[idx + (j,)] = bi
                taken = [or_(t, X.i_eq(bi, i)) for i, t in enumerate(taken)]
        return [vals, idxs]

    def p_sort(self, eqn, ins, p):
        dim, nk = p["dimension"], p["num_keys"]
        if nk != 1:
            raise Unsupported("sort with several keys")
        xs = [np.moveaxis(x, dim, -1).copy() for x in ins]
        n = xs[0].shape[-1]

        def lt(a, b):
            if isinstance(a, XF):
                return or_(a.lt(b), and_(b.nan, not_(a.nan)))
            return _lt(a, b)

        for idx in np.ndindex(xs[0].shape[:-1]):
            for i in range(n):
                for j in range(n - 1 - i):
                    c = lt(xs[0][idx + (j + 1,)], xs[0][idx + (j,)])
                    for x in xs:
                        u, v = x[idx + (j,)], x[idx + (j + 1,)]
                        x[idx + (j,)], x[idx + (j + 1,)] = ite(c, v, u), ite(c, u, v)
        return [np.moveaxis(x, -1, dim) for x in xs]

    def p_cumsum(self, eqn, ins, p):
        return [self._cum(ins[0], p, _add)]

    def p_cummax(self, eqn, ins, p):
        return [self._cum(ins[0], p, _max)]

    def p_cummin(self, eqn, ins, p):
        return [self._cum(ins[0], p, _min)]

    def p_cumprod(self, eqn, ins, p):
        return [self._cum(ins[0], p, _mul)]

    def _cum(self, x, p, f):
        x = np.moveaxis(x, p["axis"], 0).copy()
        rng = range(1, x.shape[0])
        if p.get("reverse"):
            x = x[::-1].copy()
        for i in rng:
            x[i] = omap(f, x[i - 1], x[i]) if x.ndim > 1 else f(x[i - 1], x[i])
        if p.get("reverse"):
            x = x[::-1]
        return np.moveaxis(x, 0, p["axis"])

    def p_dot_general(self, eqn, ins, p):
        a, b = ins
        (ca, cb), (ba, bb) = p["dimension_numbers"]
        fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
        fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
        A = np.transpose(a, list(ba) + fa + list(ca))
        B = np.transpose(b, list(bb) + fb + list(cb))
        bs = [a.shape[d] for d in ba]
        sa = [a.shape[d] for d in fa]
        sb = [b.shape[d] for d in fb]
        nc = int(np.prod([a.shape[d] for d in ca])) if ca else 1
        A = A.reshape(bs + sa + [nc])
        B = B.reshape(bs + sb + [nc])
        out = np.empty(bs + sa + sb, dtype=object)
        for bi in np.ndindex(*bs):
            for ia in np.ndindex(*sa):
                for ib in np.ndindex(*sb):
                    acc = None
                    for k in range(nc):
                        t = _mul(A[bi + ia + (k,)], B[bi + ib + (k,)])
                        acc = t if acc is None else _add(acc, t)
                    if acc is None:
                        acc = self._zero_of(eqn, 0)
                    out[bi + ia + ib] = acc
        return [out]

    def p_mul_add(self, eqn, ins, p):
        raise Unsupported("mul_add")

    # indexing
    def _enum_index(self, idx_elems, limits, f):
        """Case split over the values of symbolic integer indices (clamped)."""
        consts = []
        for e, n in zip(idx_elems, limits):
            if isinstance(e, int):
                consts.append([(max(0, min(e, n)), True)])
            else:
                cs = []
                for v in range(n + 1):
                    if v == 0 and n == 0:
                        c = True
                    elif v == 0:
                        c = X.i_le(e, 0)
                    elif v == n:
                        c = X.i_le(n, e)
                    else:
                        c = X.i_eq(e, v)
                    cs.append((v, c))
                consts.append(cs)
        out = None
        for combo in reversed(list(itertools.product(*consts))):
            val = f([v for v, _ in combo])
            cond = and_(*[c for _, c in combo])
            out = val if out is None else ite_arr(cond, val, out)
        return out

    def p_dynamic_slice(self, eqn, ins, p):
        x, *starts = ins
        sizes = p["slice_sizes"]
        limits = [d - s for d, s in zip(x.shape, sizes)]
        elems = [s.item() for s in starts]

        def f(vs):
            return x[tuple(slice(v, v + s) for v, s in zip(vs, sizes))]

        return [self._enum_index(elems, limits, f)]

    def p_dynamic_update_slice(self, eqn, ins, p):
        x, u, *starts = ins
        limits = [d - s for d, s in zip(x.shape, u.shape)]
        elems = [s.item() for s in starts]

        def f(vs):
            y = x.copy()
            y[tuple(slice(v, v + s) for v, s in zip(vs, u.shape))] = u
            return y

        return [self._enum_index(elems, limits, f)]

    def _with_indices(self, indices, sizes_per_comp, f):
        """f(concrete index array) -> object array; enumerates symbolic entries."""
        sym = [ix for ix in np.ndindex(indices.shape) if not isinstance(indices[ix], int)]
        base = np.zeros(indices.shape, dtype=np.int64)
        for ix in np.ndindex(indices.shape):
            if isinstance(indices[ix], int):
                base[ix] = indices[ix]
        if not sym:
            return f(base)
        if len(sym) > 6:
            raise Unsupported("too many symbolic indices")
        out = None
        ranges = [range(-1, sizes_per_comp[ix[-1]] + 1) for ix in sym]
        n = 1
        for r in ranges:
            n *= len(r)
        if n > 4000:
            raise Unsupported("symbolic index space too large")
        for combo in itertools.product(*ranges):
            b = base.copy()
            conds = []
            for ix, v, r in zip(sym, combo, ranges):
                b[ix] = v
                e = indices[ix]
                if v == r[0]:
                    conds.append(X.i_le(e, v))
                elif v == r[-1]:
                    conds.append(X.i_le(v, e))
                else:
                    conds.append(X.i_eq(e, v))
            val = f(b)
            out = val if out is None else ite_arr(and_(*conds), val, out)
        return out

    def p_gather(self, eqn, ins, p):
        x, indices = ins
        dn = p["dimension_numbers"]
        sizes = {i: x.shape[d] for i, d in enumerate(dn.start_index_map)}
        fill = str(p["mode"]).upper().find("FILL") >= 0
        fillv = None
        if fill:
            k = kind_of(eqn.invars[0].aval.dtype)
            fv = p.get("fill_value")
            if fv is None:
                fillv = {"f": X.NAN, "b": True, "i": 0}[k]
            else:
                fillv = lift_scalar(fv, k)
        flat = list(x.reshape(-1))
        ids = _idx_arr(x.shape)
        params = dict(p)
        if fill:
            params["fill_value"] = -1

        def f(idx):
            out_ids = np.asarray(
                eqn.primitive.bind(
                    jnp.asarray(ids), jnp.asarray(idx, dtype=eqn.invars[1].aval.dtype), **params
                )
            )
            out = np.empty(out_ids.shape, dtype=object)
            for ix in np.ndindex(out_ids.shape):
                j = int(out_ids[ix])
                out[ix] = fillv if j < 0 else flat[j]
            return out

        return [self._with_indices(indices, sizes, f)]

    def _scatter(self, eqn, ins, p, combine):
        x, indices, upd = ins
        dn = p["dimension_numbers"]
        sizes = {i: x.shape[d] for i, d in enumerate(dn.scatter_dims_to_operand_dims)}
        xs, us = list(x.reshape(-1)), list(upd.reshape(-1))

        def f(idx):
            ji = jnp.asarray(idx, dtype=eqn.invars[1].aval.dtype)
            out = x.copy().reshape(-1)
            # which updates land where: scatter a one-hot for each update element
            for u in range(len(us)):
                hot = np.zeros(len(us), dtype=np.float64)
                hot[u] = 1.0
                hit = np.asarray(
                    lax.scatter_add(
                        jnp.zeros(x.shape), ji, jnp.asarray(hot.reshape(upd.shape)), dn,
                        indices_are_sorted=False, unique_indices=False, mode=p["mode"],
                    )
                ).reshape(-1)
                for k in np.nonzero(hit)[0]:
                    out[k] = combine(out[k], us[u])
            return out.reshape(x.shape)

        return [self._with_indices(indices, sizes, f)]

    def p_scatter(self, eqn, ins, p):
        return self._scatter(eqn, ins, p, lambda old, new: new)

    def p_scatter_add(self, eqn, ins, p):
        return self._scatter(eqn, ins, p, _add)

    def p_scatter_mul(self, eqn, ins, p):
        return self._scatter(eqn, ins, p, _mul)

    def p_scatter_max(self, eqn, ins, p):
        return self._scatter(eqn, ins, p, _max)

    def p_scatter_min(self, eqn, ins, p):
        return self._scatter(eqn, ins, p, _min)

    # control flow
    def p_platform_index(self, eqn, ins, p):
        for i, pl in enumerate(p["platforms"]):
            if pl is None or "cpu" in pl:
                return [lift(np.int32(i))]
        raise Unsupported("platform_index")

    def p_cond(self, eqn, ins, p):
        which, *args = ins
        branches = p["branches"]
        w = which.item()
        if _isbool(w):
            w = X.i_ite(w, 1, 0) if not isinstance(w, bool) else int(w)
        if isinstance(w, int):
            w = max(0, min(w, len(branches) - 1))
            return self._call(branches[w], args)
        n = len(branches)
        outs = None
        conds = []
        for i in range(n):
            if i == 0:
                c = X.i_le(w, 0)
            elif i == n - 1:
                c = X.i_le(n - 1, w)
            else:
                c = X.i_eq(w, i)
            conds.append(c)
        results = []
        for i in range(n):
            self.pc.append(conds[i])
            try:
                results.append(self._call(branches[i], args))
            finally:
                self.pc.pop()
        outs = results[-1]
        for i in range(n - 2, -1, -1):
            outs = [ite_arr(conds[i], a, b) for a, b in zip(results[i], outs)]
        return outs

    def p_pure_callback(self, eqn, ins, p):
        cb = p["callback"]
        fn = getattr(cb, "callback_func", cb)
        qn = getattr(fn, "__qualname__", "")
        if "_error" in qn and "raises" in qn:
            msgs = None
            for cell, nm in zip(fn.__closure__ or (), fn.__code__.co_freevars):
                if nm == "msgs":
                    msgs = list(cell.cell_contents)
            index = ins[0].item() if ins else 0
            self.errors.append((and_(*self.pc), msgs, index))
            return [self.havoc(v.aval, "err") for v in eqn.outvars]
        if "_error" in qn:
            return [self.havoc(v.aval, "err") for v in eqn.outvars]
        raise Unsupported(f"pure_callback {qn}")

    def havoc(self, aval, base):
        out = np.empty(aval.shape, dtype=object)
        for ix in np.ndindex(*aval.shape):
            out[ix] = self.env.fresh_elem(base, kind_of(aval.dtype))
        return out

    def p_debug_callback(self, eqn, ins, p):
        return []

    def p_scan(self, eqn, ins, p):
        if "ft_in" in p:
            idx = [list(q) for q in p["ft_in"].update(list(range(len(ins)))).unpack()]
            if sum(idx, []) != list(range(len(ins))):
                raise Unsupported("scan operand order")
            nc, nk = len(idx[0]), len(idx[1])
        else:
            nc, nk = p["num_consts"], p["num_carry"]
        length = p["length"]
        consts, carry, xs = ins[:nc], ins[nc : nc + nk], ins[nc + nk :]
        ys = []
        order = range(length - 1, -1, -1) if p["reverse"] else range(length)
        for i in order:
            outs = self._call(
                p["jaxpr"], list(consts) + list(carry) + [np.asarray(x[i], dtype=object) if not isinstance(x[i], np.ndarray) else x[i] for x in xs]
            )
            carry, y = outs[:nk], outs[nk:]
            ys.append(y)
        if p["reverse"]:
            ys = ys[::-1]
        stacked = []
        for j in range(len(eqn.outvars) - nk):
            shape = eqn.outvars[nk + j].aval.shape
            out = np.empty(shape, dtype=object)
            for i in range(length):
                out[i] = ys[i][j] if shape[1:] else ys[i][j].item()
            stacked.append(out)
        return list(carry) + stacked

    def p_while(self, eqn, ins, p):
        nb, ncnd = p["body_nconsts"], p["cond_nconsts"]
        cconsts, bconsts, init = ins[:ncnd], ins[ncnd : ncnd + nb], ins[ncnd + nb :]

        def cond(carry):
            return self._call(p["cond_jaxpr"], list(cconsts) + list(carry))[0].item()

        def body(carry):
            return self._call(p["body_jaxpr"], list(bconsts) + list(carry))

        avals = [v.aval for v in eqn.outvars]
        # the loop itself, for contracts that compare two runs
        cond.code = (p["cond_jaxpr"], p["body_jaxpr"])
        cond.consts = list(cconsts) + list(bconsts)
        return self.env.loop(self, cond, body, init, avals)

    # linear algebra with symbolic entries
    def p_triangular_solve(self, eqn, ins, p):
        a, b = ins
        if p["transpose_a"]:
            a = np.swapaxes(a, -1, -2)
        lower = p["lower"] != p["transpose_a"]
        if not p["left_side"]:
            # X A = B  <=>  A^T X^T = B^T
            a = np.swapaxes(a, -1, -2)
            b = np.swapaxes(b, -1, -2)
            lower = not lower
        n = a.shape[-1]
        x = b.copy()
        for bi in np.ndindex(a.shape[:-2]):
            A, Xm = a[bi], x[bi]
            rng = range(n) if lower else range(n - 1, -1, -1)
            for c in range(Xm.shape[1]):
                for i in rng:
                    acc = Xm[i, c]
                    js = range(i) if lower else range(i + 1, n)
                    for j in js:
                        acc = acc - A[i, j] * Xm[j, c]
                    if not p["unit_diagonal"]:
                        acc = acc / A[i, i]
                    Xm[i, c] = acc
        if not p["left_side"]:
            x = np.swapaxes(x, -1, -2)
        return [x]

    def p_cholesky(self, eqn, ins, p):
        # lower Cholesky factor by the defining recurrence (NaN if not positive definite)
        a = ins[0]
        n = a.shape[-1]
        out = np.empty(a.shape, dtype=object)
        for bi in np.ndindex(a.shape[:-2]):
            L = np.empty((n, n), dtype=object)
            L[...] = xf(0)
            A = a[bi]
            for j in range(n):
                s = A[j, j]
                for k in range(j):
                    s = s - L[j, k] * L[j, k]
                L[j, j] = X.x_sqrt(s)
                for i in range(j + 1, n):
                    t = A[i, j]
                    for k in range(j):
                        t = t - L[i, k] * L[j, k]
                    L[i, j] = t / L[j, j]
            out[bi] = L
        return [out]

    # lineax's primitive: run its own implementation (which calls solver.compute)
    def p_linear_solve(self, eqn, ins, p):
        prim = eqn.primitive
        structs = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
        impl = prim.impl_rule if hasattr(prim, "impl_rule") else prim.impl
        from jax.extend import core as _jex_core  # noqa: F401

        closed = jax.make_jaxpr(lambda *xs: _impl_of(prim)(*xs, **p))(*structs)
        return self.eval_closed(closed, ins)

    def p_opaque_call(self, eqn, ins, p):
        return self.env.opaque(p["name"], p["avals"], ins)


def _impl_of(prim):
    import equinox.internal as eqxi  # noqa: F401

    return prim.impl
