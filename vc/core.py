"""Obligations, scenarios (symbolic and concrete), discharge and replay.

A *scenario* is a Python function `ob(S)` that

  * declares universally quantified inputs   (S.float / S.int / S.bool / S.like),
  * declares opaque callees with a contract   (S.fn),
  * states preconditions                      (S.assume),
  * runs the REAL code                        (S.run),
  * states postconditions                     (S.check).

It is executed in two modes.  Symbolically, `S.run` traces the real code to a jaxpr and
interprets that (jx.py): each S.check becomes a proof obligation
`preconditions and definitions ==> goal` for an SMT solver.  Concretely, the same
function is executed on the numbers of the solver's counter-model (or on random ones),
and S.run *executes* the real code: that is how counterexamples are replayed.
"""

from __future__ import annotations

import hashlib
from contextlib import contextmanager, nullcontext
import json
import math
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import z3

from . import jx, opaque, xf as X
from .ring import Cuts, Facts
from .jx import JX, Unsupported, ite, kind_of, lift, oarr, omap, same
from .xf import MAYBE, XF, and_, iff, implies, not_, or_, xf

F64 = np.dtype("float64")
_DEF = {"f": np.dtype("float64"), "i": np.dtype("int64"), "b": np.dtype("bool")}


class SArr(np.ndarray):
    """Object array of symbolic scalars that remembers the JAX dtype it stands for."""

    jdtype = None

    def __array_finalize__(self, obj):
        self.jdtype = getattr(obj, "jdtype", None)


def sarr(a, dtype=None):
    a = np.asarray(a, dtype=object).view(SArr)
    a.jdtype = None if dtype is None else np.dtype(dtype)
    return a


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def elem_kind(e):
    if isinstance(e, XF):
        return "f"
    if isinstance(e, bool) or e is MAYBE or z3.is_bool(e):
        return "b"
    return "i"


def dtype_of(a):
    d = getattr(a, "jdtype", None)
    k = elem_kind(a.reshape(-1)[0]) if a.size else None
    if d is not None and (k is None or kind_of(d) == k):
        return d
    return _DEF[k or "f"]


def _sym_leaves(tree):
    return [(jtu.keystr(p), l) for p, l in jtu.tree_leaves_with_path(tree, is_leaf=is_sym) if is_sym(l)]


def tiny(S):
    return S.source.tiny() if S.concrete and isinstance(S.source, RandomSource) else nullcontext()


class Rejected(Exception):
    """Concrete sample does not satisfy the preconditions."""


class Falsified(Exception):
    def __init__(self, name, detail):
        super().__init__(name)
        self.name, self.detail = name, detail


class CodeRaised(Exception):
    """The real code raised while being traced with inputs of a valid type."""


# --------------------------------------------------------------------------- opaque fns


class OpaqueFn:
    """A callee known by contract only.  Call it from real code; `.spec` in contracts."""

    def __init__(self, S, name, out, finite, contract, concrete, wrap, smooth=None):
        self.S, self.name, self.out, self.smooth = S, name, out, smooth
        self.finite, self.contract, self.concrete = finite, contract, concrete
        self.wrap = wrap

    def is_finite(self, name):
        """`finite="derivatives"`: values may be NaN or infinite, derivatives not."""
        if self.finite == "derivatives":
            return name != self.name
        return self.finite(name) if callable(self.finite) else self.finite

    def __call__(self, *args):
        res = opaque.opaque_call(self.name, self.out, *args)
        return self.wrap(res) if self.wrap else res

    def spec(self, *args):
        leaves = [a for a in jtu.tree_leaves(args, is_leaf=is_sym)]
        leaves = [a if is_sym(a) else lift(np.asarray(a)) for a in leaves]
        out_leaves, treedef = jtu.tree_flatten(self.out)
        avals = tuple((tuple(o.shape), np.dtype(o.dtype)) for o in out_leaves)
        outs = self.S.opaque(self.name, avals, leaves)
        return jtu.tree_unflatten(treedef, [sarr(o, d) for o, (_, d) in zip(outs, avals)])

    def dspec(self, i, *args):
        """Derivative tensors w.r.t. the i-th array argument, in the contract language."""
        leaves = [a for a in jtu.tree_leaves(args, is_leaf=is_sym)]
        out_leaves, treedef = jtu.tree_flatten(self.out)
        avals = tuple(
            (tuple(o.shape) + tuple(leaves[i].shape), np.dtype(o.dtype)) for o in out_leaves
        )
        outs = self.S.opaque(f"{self.name}.d{i}", avals, leaves)
        return jtu.tree_unflatten(treedef, [sarr(o) for o in outs])


def struct(shape=(), dtype=F64):
    return jax.ShapeDtypeStruct(tuple(shape), np.dtype(dtype))


# --------------------------------------------------------------------------- base scenario


class Scenario:
    concrete = False

    def __init__(self, name, seed=0):
        self.name = name
        self.fns = {}
        self.fn_hooks = []  # called with an unknown name; may declare it
        self.checks = []
        self.seed = seed
        self.nrun = 0
        self.counter = 0
        self.mode = "inductive"  # or "reach": see history()
        self.depth = 0
        self.has_history = False
        self.seen_false = None  # concrete: candidate invariants that a run violated
        self.hopeless = ()  # symbolic: candidate invariants not worth an attempt

    @property
    def inductive(self):
        return self.mode == "inductive"

    def history(self, init, step, inv=None, stop=None, name="h", depth=None, finite=True, like=None):
        """An arbitrary state of a run, of any length.

        `init(S)` returns the carry at the start (declaring public inputs and running the
        real code), `step(S, carry)` runs the real code for one more step, `inv(S, carry)`
        is a list of (name, formula): the data invariant.  In inductive mode the carry is
        arbitrary subject to the invariant, which `init` is separately shown to establish
        (the caller shows that steps preserve it, with `S.preserved`).  In reach mode the
        carry is what the real code computes in `self.depth` steps from public inputs:
        counterexamples are only ever taken from there.
        """
        self.has_history = True
        carry = init(self)
        inv = inv or (lambda S, c: [])
        if self.inductive:
            for nm, f in inv(self, carry):
                self.check(f"{name}.init[{nm}]", f)
            carry = self.like(self.shape_of(carry) if like is None else like(carry), name, finite=finite)
            for nm, f in inv(self, carry):
                self.assume(f)
            return carry
        n = self.choose_depth(depth)
        for k in range(n):
            new = step(self, carry)
            if stop is not None:
                st = X._b(stop(self, new))
                if self.concrete:
                    if st is not False:
                        break
                else:
                    self.assume(not_(st))
            carry = new
        return carry

    def evolve(self, init, step, ghosts=None, cands=None, stop=None, name="h", depth=None, finite=True):
        """One step of a run of any length: returns (carry, next carry, observations).

        `init(S)` is the carry at the start, `step(S, carry)` runs the real code once and
        returns (carry, observations); `stop(S, carry)` says that no further step follows.
        `ghosts(S, carry)` names values that the real state might store.

        In inductive mode the carry is arbitrary, subject to an invariant that is found
        and proved here: every equation "leaf of the state = ghost value" (plain, or
        guarded by a flag of the state) and every formula of `cands(S, carry)` that holds
        initially and is preserved by the real step.  No name of the real state is used.
        In reach mode the carry is what the real code computes from public inputs.
        """
        self.has_history = True
        carry = init(self)
        go = (lambda c: True) if stop is None else (lambda c: not_(X._b(stop(self, c))))
        if self.inductive:
            return self._evolve(carry, step, ghosts, cands, go, name, finite)
        n = self.choose_depth(depth)
        self._observe(name, carry, ghosts, cands)
        for k in range(n):
            g = go(carry)
            if self.concrete:
                if g is not True:
                    break
            else:
                self.assume(g)
            carry, _ = step(self, carry)
            self._observe(name, carry, ghosts, cands)
        self.assume(go(carry))
        new, obs = step(self, carry)
        return carry, new, obs

    def _observe(self, name, carry, ghosts, cands):
        if self.seen_false is not None:
            self.seen_false |= {(name, k) for k, f in self._candidates(carry, ghosts, cands) if f is False}

    def _candidates(self, carry, ghosts, cands):
        out = []
        for i, (_, l) in enumerate(_sym_leaves(carry)):
            kind = elem_kind(l.reshape(-1)[0]) if l.size else None
            if kind == "f":
                out.append((("finite", i), and_(*[e.finite for e in l.reshape(-1)])))
            elif kind == "i":
                out.append((("nonneg", i), and_(*[X.i_le(0, e) for e in l.reshape(-1)])))
                out.append((("below 16", i), and_(*[X.i_le(e, 15) for e in l.reshape(-1)])))
        leaves = _sym_leaves(carry.get("st"))
        g = {k: v for k, v in carry.items() if k != "st"}
        if ghosts is not None:
            g.update(ghosts(self, carry))
        flags = [(i, l.item()) for i, (_, l) in enumerate(leaves) if l.shape == () and elem_kind(l.item()) == "b"]
        first = carry["g"].get("first") if isinstance(carry.get("g"), dict) else None
        for n, t in g.items():
            for p, v in _sym_leaves(t):
                for i, (_, l) in enumerate(leaves):
                    if l.shape != v.shape or not l.size:
                        continue
                    if elem_kind(l.reshape(-1)[0]) != elem_kind(v.reshape(-1)[0]):
                        continue
                    e = self.same(l, v)
                    nm = n + p
                    out.append(((nm, i), e))
                    for b, f in flags:
                        if b != i:
                            out.append(((nm, i, "if", b), implies(f, e)))
                            out.append(((nm, i, "unless", b), implies(not_(f), e)))
                    if first is not None:
                        out.append(((nm, i, "unless", "first"), implies(not_(first.item()), e)))
        if cands is not None:
            try:
                out += [(("user", n), f) for n, f in cands(self, carry)]
            except (AttributeError, KeyError, TypeError, IndexError):
                pass  # the real state does not look as expected: fewer invariants
        return out

    def _evolve(self, start, step, ghosts, cands, go, name, finite):
        from .driver import _prove_all

        P = self.prover
        nonfinite = set() if finite else None
        c0 = [(k, f) for k, f in self._candidates(start, ghosts, cands) if (name, k) not in self.hopeless]
        # a guarded equation is only of interest if the plain one is lost
        plain, lost = {k for k, _ in c0 if len(k) == 2}, set()
        idle = lambda k: len(k) > 2 and k[:2] in base and k[:2] not in lost
        base = set()
        base = {k for k, _ in _prove_all(P, self.hyps, [c for c in c0 if c[0] in plain])}
        base |= {k for k, _ in _prove_all(P, self.hyps, [c for c in c0 if c[0] not in plain and not idle(c[0])])}
        for attempt in range(8):
            h = self._arbitrary(start, f"{name}{attempt or ''}", nonfinite)
            ch = dict(self._candidates(h, ghosts, cands))
            alive = [k for k in ch if k in base and not idle(k)]
            used = None
            while True:
                # equations of the invariant are used from left to right: the step is run
                # on the ghost values, so that both sides are built from the same terms
                if used is None or not used <= set(alive):
                    hs, used = self._rewrite(h, alive, ghosts)
                    g = go(hs)
                    new, obs = step(self, hs)
                    cn = dict(self._candidates(new, ghosts, cands))
                    alive = [k for k in alive if k in cn]
                hy = lambda: self.hyps() + [ch[k] for k in alive if ch[k] is not True] + ([] if g is True else [g])
                # ranges of counters first: they are easily refuted
                ints = [k for k in alive if k[0] in ("nonneg", "below 16")]
                ok = {k for k, _ in _prove_all(P, hy, [(k, cn[k]) for k in ints])}
                if len(ok) < len(ints):
                    alive = [k for k in alive if k in ok or k not in ints]
                    continue
                ok |= {k for k, _ in _prove_all(P, hy, [(k, cn[k]) for k in alive if k not in ints])}
                if len(ok) == len(alive) and used <= ok:
                    break
                alive = [k for k in alive if k in ok]
            gone = {k for k in base if len(k) == 2 and k[0] not in ("finite", "nonneg", "below 16", "user") and k not in alive} - lost
            if gone:
                # their guarded forms may survive: start again with those
                lost |= gone
                more = [c for c in c0 if len(c[0]) > 2 and c[0][:2] in gone]
                base = (base - gone) | {k for k, _ in _prove_all(P, self.hyps, more)}
                if more:
                    continue
            bad = {k[1] for k in ch if k[0] == "finite"} - {k[1] for k in alive if k[0] == "finite"}
            if nonfinite is None or bad <= nonfinite:
                break
            nonfinite |= bad  # these may be non-finite: start again without assuming it
        else:
            raise Unsupported("no finiteness invariant")
        names = ["|".join(map(str, k)) for k in alive]
        for n in names:
            self.loop_obligations += [(f"{name}.init[{n}]", "proved"), (f"{name}.preserved[{n}]", "proved")]
        self.loop_invariants = list(self.loop_invariants) + names
        self.assume(*[ch[k] for k in alive])
        self.assume(g)
        self.assume(*[cn[k] for k in alive if k[0] == "user"])  # just proved
        return hs, new, obs

    def _rewrite(self, h, alive, ghosts):
        """(h with leaves of the state replaced by the ghosts they equal, equations used)"""
        values = {}
        g = {k: v for k, v in h.items() if k != "st"}
        if ghosts is not None:
            g.update(ghosts(self, h))
        for n, t in g.items():
            for p, v in _sym_leaves(t):
                values[n + p] = v
        pick = {}
        for k in alive:
            if len(k) == 2 and k[0] in values and k[1] not in pick:
                pick[k[1]] = k
        if not pick:
            return h, set()
        leaves, treedef = jtu.tree_flatten(h["st"], is_leaf=is_sym)
        out, i = [], 0
        for l in leaves:
            if is_sym(l):
                if i in pick:
                    l = sarr(values[pick[i][0]], dtype_of(l))
                i += 1
            out.append(l)
        return dict(h, st=jtu.tree_unflatten(treedef, out)), set(pick.values())

    def _arbitrary(self, carry, name, nonfinite):
        """Arbitrary values in the shape of the carry, floats finite except for the leaves
        listed in `nonfinite` (None: all may be non-finite)."""
        index = {p: i for i, (p, _) in enumerate(_sym_leaves(carry))}
        leaves, treedef = jtu.tree_flatten_with_path(carry, is_leaf=is_sym)
        vals = []
        for p, l in leaves:
            if is_sym(l):
                kind = elem_kind(l.reshape(-1)[0]) if l.size else "f"
                fin = nonfinite is not None and index[jtu.keystr(p)] not in nonfinite
                l = self._decl(f"{name}{jtu.keystr(p)}", l.shape, kind, fin, dtype_of(l))
            vals.append(l)
        return jtu.tree_unflatten(treedef, vals)

    def preserved(self, inv, carry, name="h"):
        if self.inductive:
            for nm, f in inv(self, carry):
                self.check(f"{name}.preserved[{nm}]", f)

    def choose_depth(self, depth):
        return self.depth

    def shape_of(self, tree):
        return jtu.tree_map(
            lambda x: jax.ShapeDtypeStruct(x.shape, dtype_of(x)) if is_sym(x) else x, tree, is_leaf=is_sym
        )

    # -- declarations shared by both modes
    def fn(self, name, out=None, finite=True, contract=None, concrete=None, wrap=None, smooth=None):
        """`concrete(S, args)` and `smooth(rng, x)` (of the flat argument, differentiable,
        for the first output) only say which functions random executions use."""
        out = struct() if out is None else out
        f = OpaqueFn(self, name, out, finite, contract, concrete, wrap, smooth)
        self.fns[name] = f
        return f

    def _fn_of(self, name):
        base = name
        while base not in self.fns:
            for hook in self.fn_hooks:
                hook(base)
            if base in self.fns:
                break
            m = re.match(r"(.*)\.d\d+$", base)
            if not m:
                return None
            base = m.group(1)
        return self.fns[base]

    def float(self, name, shape=(), finite=True, dtype=F64, hint=None):
        """`hint=(lo, hi)` only says where random samples are usefully drawn."""
        lo, hi = hint or (None, None)
        return self._decl(name, shape, "f", finite, dtype, lo, hi)

    def int(self, name, shape=(), dtype=np.int64, lo=None, hi=None):
        a = self._decl(name, shape, "i", True, dtype, lo, hi)
        for e in a.reshape(-1):
            if lo is not None:
                self.assume(X.i_le(lo, e))
            if hi is not None:
                self.assume(X.i_le(e, hi))
        return a

    def bool(self, name, shape=()):
        return self._decl(name, shape, "b", True, np.bool_)

    def _decl(self, name, shape, kind, finite, dtype, lo=None, hi=None):
        out = np.empty(tuple(shape), dtype=object)
        for ix in np.ndindex(*out.shape):
            label = name + ("" if not ix else "[" + ",".join(map(str, ix)) + "]")
            out[ix] = self.elem(label, kind, finite, lo, hi)
        return sarr(out, dtype)

    def like(self, tree, name, finite=True, ints=None):
        """Arbitrary values for every array (struct) leaf of `tree`."""
        leaves, treedef = jtu.tree_flatten_with_path(tree)
        out = []
        for path, leaf in leaves:
            if hasattr(leaf, "shape") and hasattr(leaf, "dtype"):
                label = name + jtu.keystr(path)
                k = kind_of(leaf.dtype)
                lo, hi = (ints or (None, None)) if k == "i" else (None, None)
                if k == "i" and "_value" in label:
                    lo, hi = 0, 9
                a = self._decl(label, leaf.shape, k, finite, np.dtype(leaf.dtype), lo, hi)
                if k == "i" and lo is not None:
                    for e in a.reshape(-1):
                        self.assume(and_(X.i_le(lo, e), X.i_le(e, hi)))
                out.append(a)
            else:
                out.append(leaf)
        return jtu.tree_unflatten(treedef, out)

    def fresh_elem(self, base, kind):
        self.counter += 1
        return self.elem(f"{base}!{self.counter}", kind, False)

    # spec helpers -----------------------------------------------------
    def const(self, x):
        return sarr(lift(np.asarray(x)))

    def all(self, f, *trees):
        """Conjunction of f over corresponding scalars of the trees."""
        flats = [self.scalars(t) for t in trees]
        n = {len(f_) for f_ in flats}
        assert len(n) == 1, f"structure mismatch {n}"
        return and_(*[f(*es) for es in zip(*flats)])

    def scalars(self, tree):
        out = []
        for leaf in jtu.tree_leaves(tree, is_leaf=is_sym):
            a = leaf if is_sym(leaf) else lift(np.asarray(leaf))
            out += list(a.reshape(-1))
        return out

    def same(self, a, b):
        return self.all(same, a, b)

    def eq(self, a, b):
        return self.all(jx._eq, a, b)

    def finite_(self, t):
        return and_(*[e.finite for e in self.scalars(t) if isinstance(e, XF)])

    def map(self, f, *trees):
        leaves0, treedef = jtu.tree_flatten(trees[0], is_leaf=is_sym)
        rest = [jtu.tree_leaves(t, is_leaf=is_sym) for t in trees[1:]]
        out = [sarr(omap(f, *ls)) for ls in zip(leaves0, *rest)]
        return jtu.tree_unflatten(treedef, out)

    def dot(self, a, b):
        acc = xf(0)
        for u, v in zip(self.scalars(a), self.scalars(b)):
            acc = acc + u * v
        return acc

    def ite(self, c, a, b):
        leaves0, treedef = jtu.tree_flatten(a, is_leaf=is_sym)
        leaves1 = jtu.tree_leaves(b, is_leaf=is_sym)
        out = [sarr(omap(lambda u, v: ite(c, u, v), p, q), dtype_of(p)) for p, q in zip(leaves0, leaves1)]
        return jtu.tree_unflatten(treedef, out)

    @staticmethod
    def s(a):
        """The scalar held by a 0-d array."""
        if isinstance(a, np.ndarray):
            return a.reshape(-1)[0] if a.size == 1 else a.item()
        return a


# --------------------------------------------------------------------------- symbolic mode


class Sym(Scenario):
    def __init__(self, name, seed=0, solver_factory=None):
        super().__init__(name, seed)
        self.ctx = X.set_ctx(X.Ctx())
        self.assumptions = []
        self.inputs = {}  # label -> (kind, term parts)
        self.apps = {}  # opaque applications (memo)
        self.app_log = []
        self.used_prims = {}
        self.discharge_inline = None  # set by the driver for loop invariants
        self.loop_handler = None
        self.loop_obligations = []
        self.errors = []
        self.runs = 0
        self.eqns = 0
        self.traces = {}  # by key, as in concrete mode: same key, same function

    def elem(self, label, kind, finite, lo=None, hi=None):
        if kind == "b":
            v = z3.Bool(label)
            self.inputs[label] = ("b", v)
            return v
        if kind == "i":
            v = z3.Int(label)
            self.inputs[label] = ("i", v)
            if lo is not None:
                self.ctx.least[label] = lo
            return v
        r = z3.Real(label)
        if finite:
            self.inputs[label] = ("f", r, None)
            return XF(r)
        k = z3.Int(label + "~kind")
        self.inputs[label] = ("f", r, k)
        return XF(r, k == 3, k == 1, k == 2)

    def assume(self, *fs):
        for f in fs:
            f = X._b(f)
            if f is True:
                continue
            if f is False:
                f = z3.BoolVal(False)
            self.assumptions.append(f)

    def check(self, name, goal):
        goal = X._b(goal)
        self.checks.append((name, goal, len(self.assumptions)))

    def lemma(self, name, goal):
        """Proved, then used for everything that follows."""
        self.check(name, goal)
        self.assume(goal)

    def holds(self, name, goal):
        """Is the goal provable? If so it counts as an obligation; if not nothing follows."""
        goal = X._b(goal)
        if self.prover.valid(self.hyps(), goal).status != "proved":
            return False
        self.check(name, goal)
        return True

    def nonzero(self, name, *xs, positive=False):
        """Proves that the numbers are not zero; divisions by them (in whatever way they
        are written) are from then on known to be finite."""
        for i, x in enumerate(xs):
            ok = xf(0).lt(x) if positive else not_(x.same(xf(0)))
            self.lemma(f"{name}" + (f" ({i})" if i else ""), ok)
            self._facts()
            if x.plain and not X.is_num(x.r):
                self.ctx.facts.add(x.r, positive)

    def positive(self, name, *xs):
        self.nonzero(name, *xs, positive=True)

    def nonneg(self, name, *xs):
        """Proves that the numbers are not negative; their roots are then known to be real."""
        for i, x in enumerate(xs):
            self.lemma(f"{name}" + (f" ({i})" if i else ""), xf(0) <= x)
            self._facts()
            if x.plain and not X.is_num(x.r):
                self.ctx.facts.add_nonneg(x.r)

    def abbreviate(self, *xs):
        """Proofs of identities may treat these polynomials as variables (to be called before
        anything is known of them)."""
        self._facts()
        for x in xs:
            if x.plain and not X.is_num(x.r):
                self.ctx.facts.ring.name(x.r)

    def algebra(self):
        """Equations may be proved by computing with polynomials."""
        self._facts()

    def generalise(self, name, xs, law=None, opaque=False, also=()):
        """Proves law(*xs) and replaces the numbers xs, wherever they are computed from here
        on, by variables of which only that law is known.  What is computed from other
        numbers is recognised by its normal form, in which `opaque` variables stand for
        themselves; `also` gives other ways to compute the first number."""
        self._facts()
        if law is not None:
            self.lemma(name, law(*xs))
        for i, y in enumerate(also):
            self.lemma(f"{name}, otherwise ({i})", xs[0].same(y))
        # a variable need not have a value that occurs: nothing is refuted from here on
        self.prover.undecided += 1
        if self.ctx.cuts is None:
            self.ctx.cuts = Cuts(self.ctx.squares)
        new = []
        for x in xs:
            if not x.plain or X.is_num(x.r) or z3.is_const(x.r):
                new.append(x)
                continue
            v = z3.Real(self.ctx.fresh("gen"))
            new.append(XF(self.ctx.cuts.add(x.r, v, opaque)))
        for y in also:
            if y.plain and not X.is_num(y.r) and z3.is_const(new[0].r):
                self.ctx.cuts.add(y.r, new[0].r, True)
        if law is not None:
            self.assume(law(*new))
        return new

    def _facts(self):
        if self.ctx.facts is None:
            self.ctx.facts = Facts(self.ctx.squares)
            self.prover.facts, self.prover.squares = self.ctx.facts, self.ctx.squares

    def schema(self, name, law, *xs):
        """A law of arithmetic, proved for all numbers, used for these ones."""
        ys = [XF(z3.Real(self.ctx.fresh("law"))) for _ in xs]
        self.checks.append((name, X._b(law(*ys)), -1))
        self.assume(law(*xs))

    # opaque calls
    def encode(self, a, dtype=None):
        out = []
        for e in np.asarray(a, dtype=object).reshape(-1):
            k = elem_kind(e)
            if k == "f":
                c = e.canon()
                r = X.zr(c.r)
                # linear normal form: the same point computed in two ways is one term
                out.append(r if r.num_args() == 0 else z3.simplify(r))
                if e.plain:
                    out.append(z3.RealVal(0))
                else:
                    kd = X.r_ite(e.nan, Fraction(3), X.r_ite(e.pinf, Fraction(1), X.r_ite(e.ninf, Fraction(2), Fraction(0))))
                    out.append(X.zr(kd))
            elif k == "b":
                out.append(X.zr(xf(e).r))
            else:
                out.append(X.zr(xf(e).r))
        return out

    def opaque(self, name, avals, ins):
        enc = [t for a in ins for t in self.encode(a)]
        key = (name, tuple((s, str(d)) for s, d in avals), tuple(t.get_id() for t in enc))
        if key in self.apps:
            return self.apps[key][0]
        spec = self._fn_of(name)
        finite = True if spec is None else spec.is_finite(name)
        outs = []
        for j, (shape, dtype) in enumerate(avals):
            o = np.empty(shape, dtype=object)
            k = kind_of(dtype)
            for ix in np.ndindex(*shape):
                base = f"{name}#{j}" + ("" if not ix else "[" + ",".join(map(str, ix)) + "]")
                o[ix] = self._app(base, enc, k, finite)
            outs.append(o)
        self.apps[key] = (outs, enc, ins)
        self.app_log.append((name, avals, ins, outs))
        if spec is not None and spec.contract is not None and spec.name == name:
            for f in spec.contract(self, list(ins), outs) or []:
                self.assume(f)
        return outs

    def _app(self, base, enc, k, finite):
        def fun(nm, sort):
            return z3.Function(nm, *([z3.RealSort()] * len(enc)), sort) if enc else None

        def ap(nm, sort):
            if not enc:
                return z3.Const(nm, sort)
            return fun(nm, sort)(*enc)

        if k == "b":
            return ap(base, z3.BoolSort())
        if k == "i":
            return ap(base, z3.IntSort())
        r = ap(base, z3.RealSort())
        if finite:
            return XF(r)
        kd = ap(base + "~kind", z3.IntSort())
        return XF(r, kd == 3, kd == 1, kd == 2)

    # running real code
    def run(self, f, *args, loop=None, key=None):
        leaves, treedef = jtu.tree_flatten(args, is_leaf=is_sym)
        dyn = [l for l in leaves if is_sym(l)]
        structs = [jax.ShapeDtypeStruct(l.shape, dtype_of(l)) for l in dyn]

        def g(*xs):
            it = iter(xs)
            full = [next(it) if is_sym(l) else l for l in leaves]
            return f(*jtu.tree_unflatten(treedef, full))

        ck = None if key is None else (key, treedef, tuple((s.shape, str(s.dtype)) for s in structs), tuple(is_sym(l) for l in leaves))
        if ck is None or ck not in self.traces:
            res = _make_jaxpr(g, structs)
            if ck is not None:
                self.traces[ck] = res
        else:
            res = self.traces[ck]
        closed, out_dyn, out_static = res
        self.runs += 1
        self.eqns += count_eqns(closed.jaxpr)
        interp = JX(self)
        old = self.loop_handler
        if loop is not None:
            self.loop_handler = loop
        try:
            outs = interp.eval_closed(closed, [np.asarray(d, dtype=object) for d in dyn])
        finally:
            self.loop_handler = old
        for k, v in interp.used.items():
            self.used_prims[k] = self.used_prims.get(k, 0) + v
        self.errors = interp.errors
        vals = [sarr(o, v.aval.dtype) for o, v in zip(outs, closed.jaxpr.outvars)]
        return eqx.combine(jtu.tree_unflatten(out_dyn, vals), out_static, is_leaf=is_sym)

    def run_raises(self, f, *args, loop=None, key=None, pyexc=()):
        """Returns (raised, out): raised is the condition under which an error is thrown.

        `pyexc`: Python exception types that count as raising when thrown while tracing."""
        try:
            out = self.run(f, *args, loop=loop)
        except pyexc:
            return True, None
        raised = or_(*[e[0] for e in self.errors]) if self.errors else False
        return raised, out

    def loop(self, interp, cond, body, init, avals):
        if self.loop_handler is None:
            # concrete trip count only
            carry = list(init)
            for _ in range(200):
                c = cond(carry)
                if c is True:
                    carry = body(carry)
                elif c is False:
                    return carry
                else:
                    raise Unsupported("loop without a contract")
            raise Unsupported("loop too long to unroll")
        self.has_history = True
        if not self.inductive:
            return self._unrolled(interp, cond, body, list(init))
        return self.loop_handler(self, interp, cond, body, list(init), avals)

    def _unrolled(self, interp, cond, body, init):
        """At most `depth` iterations (used to look for counterexamples only)."""
        carry = init
        for _ in range(self.depth):
            c = cond(carry)
            if c is False:
                return carry
            interp.pc.append(c)
            new = body(carry)
            interp.pc.pop()
            carry = [jx.ite_arr(c, a, b) for a, b in zip(new, carry)]
        self.assume(implies(and_(*interp.pc), not_(cond(carry))))
        on_exit = getattr(self.loop_handler, "on_exit", None)
        if on_exit is not None:
            on_exit(init, carry)
        return carry


def count_eqns(jaxpr):
    n = 0
    for e in jaxpr.eqns:
        n += 1
        for v in e.params.values():
            for w in v if isinstance(v, (tuple, list)) else (v,):
                j = getattr(w, "jaxpr", w)
                if hasattr(j, "eqns"):
                    n += count_eqns(j)
    return n


def _make_jaxpr(g, structs):
    box = {}

    def h(*xs):
        out = g(*xs)
        # python scalars in the output become arrays
        out = jtu.tree_map(
            lambda x: jnp.asarray(x) if isinstance(x, (bool, int, float, np.ndarray, np.generic)) else x, out
        )
        dyn, static = eqx.partition(out, eqx.is_array)
        leaves, treedef = jtu.tree_flatten(dyn)
        box["tree"], box["static"] = treedef, static
        return leaves

    closed = jax.make_jaxpr(h)(*structs)
    return closed, box["tree"], box["static"]


# --------------------------------------------------------------------------- concrete mode


class Source:
    """Supplies numbers for a concrete run."""

    def elem(self, label, kind, finite, lo, hi):
        raise NotImplementedError

    def call(self, S, name, avals, args):
        raise NotImplementedError


class RandomSource(Source):
    def __init__(self, seed, tame=False):
        self.rng = random.Random(seed)
        self.seed = seed
        self.style = self.rng.choice(["small", "grid", "mixed"] if tame else ["mixed", "small", "grid", "big"])
        self.coefs = {}

    def elem(self, label, kind, finite, lo=None, hi=None):
        r = self.rng
        if kind == "b":
            return r.random() < 0.5
        if kind == "i":
            a = -3 if lo is None else lo
            b = (a + 12) if hi is None else hi
            return r.randint(a, b)
        if not finite and r.random() < 0.25:
            return r.choice([math.nan, math.inf, -math.inf])
        if lo is not None:
            return r.choice([r.uniform(lo, hi), r.uniform(lo, hi), lo + (hi - lo) * r.randint(1, 7) / 8])
        return self.num(r)

    @contextmanager
    def tiny(self):
        """Small numbers, in some of the samples."""
        old, self.style = self.style, "tiny" if self.rng.random() < 0.25 else self.style
        try:
            yield
        finally:
            self.style = old

    def num(self, r):
        if self.style == "tiny":
            return r.gauss(0, 1) * 1e-5
        if self.style == "grid":
            return float(r.randint(-3, 3))
        if self.style == "small":
            return r.gauss(0, 1)
        if self.style == "big":
            return r.gauss(0, 1) * 10 ** r.uniform(-3, 3)
        u = r.random()
        if u < 0.2:
            return float(r.randint(-2, 2))
        if u < 0.25:
            return 0.0
        return r.gauss(0, 2)

    def _poly(self, base, nin, shape, dtype, j):
        """Random cubic polynomial per output element; derivatives are then exact."""
        key = (base, j, nin, shape)
        if key not in self.coefs:
            h = int.from_bytes(hashlib.sha256(repr((self.seed, key)).encode()).digest()[:6], "big")
            g = np.random.default_rng(h)
            n = int(np.prod(shape)) if shape else 1
            lin = bool(g.random() < 0.3)
            c = dict(
                c0=g.normal(size=(n,)) * 1.5,
                c1=g.normal(size=(n, nin)),
                c2=(0.0 if lin else 1.0) * g.normal(size=(n, nin, nin)) * 0.5,
                c3=(0.0 if lin else 1.0) * g.normal(size=(n, nin)) * 0.2,
            )
            if g.random() < 0.3:
                c = {k: np.round(v) for k, v in c.items()}
            self.coefs[key] = c
        c = self.coefs[key]

        def f(x):
            return (
                c["c0"] + c["c1"] @ x + jnp.einsum("nij,i,j->n", c["c2"], x, x) + c["c3"] @ (x**3)
            ).reshape(shape)

        return f

    def call(self, S, name, avals, args):
        fn = S._fn_of(name)
        base = fn.name if fn is not None else name
        if fn is not None and fn.concrete is not None and base == name:
            return fn.concrete(S, [np.asarray(a) for a in args])
        order = [int(t) for t in re.findall(r"\.d(\d+)", name[len(base):])]
        fl = [np.asarray(a, dtype=np.float64).reshape(-1) for a in args]
        flat = np.concatenate(fl) if fl else np.zeros(0)
        outs = []
        base_avals = None
        if fn is not None:
            base_avals = [(tuple(o.shape), np.dtype(o.dtype)) for o in jtu.tree_leaves(fn.out)]
        jlist = [j for j, (s, d) in enumerate(base_avals or avals) if not order or kind_of(d) == "f"]
        for j, (shape, dtype) in zip(jlist, avals):
            k = kind_of(dtype)
            if k != "f" or not np.all(np.isfinite(flat)):
                h = hashlib.sha256(repr((self.seed, name, j, [float(v) if v == v else "nan" for v in flat])).encode()).digest()
                g = np.random.default_rng(int.from_bytes(h[:6], "big"))
                if k == "b":
                    outs.append(g.random(shape) < 0.4)
                elif k == "i":
                    hi = 3 if g.random() < 0.7 else 9
                    outs.append(g.integers(0, hi, size=shape) * (g.random(shape) < 0.5))
                else:
                    outs.append(np.full(shape, np.nan) if not (fn and fn.is_finite(name)) else g.normal(size=shape))
                continue
            oshape = shape if not order else base_avals[j][0]
            if fn is not None and fn.smooth is not None and j == 0:
                f = lambda x: fn.smooth(np.random.default_rng([self.seed & 0xFFFFFFFF, 78]), x)
            else:
                f = self._poly(base, len(flat), oshape, dtype, j)
            sizes = [a.size for a in fl]
            offs = np.cumsum([0] + sizes)

            def part(fun, i):
                def d(x):
                    jac = jax.jacfwd(fun)(x)
                    return jac[..., offs[i] : offs[i + 1]].reshape(
                        jac.shape[:-1] + tuple(np.asarray(args[i]).shape)
                    )

                return d

            fun = f
            for i in order:
                fun = part(fun, i)
            val = np.asarray(fun(jnp.asarray(flat)))
            if fn is not None and not fn.is_finite(name) and not order:
                # on some region of the input space (so that rounding does not matter)
                g = np.random.default_rng([self.seed & 0xFFFFFFFF, j, 77])
                if np.sin(3 * g.normal(size=flat.size) @ np.tanh(flat) + g.normal()) > 0.95:
                    val = np.full(val.shape, [np.nan, np.inf, -np.inf][g.integers(0, 3)])
            outs.append(val)
        return outs


class ModelSource(Source):
    """Numbers from a z3 model."""

    def __init__(self, model, sym: Sym):
        self.m = model
        self.sym = sym
        # tables of opaque applications: name -> list of (float arg vector, outs)
        self.tables = {}
        for name, avals, ins, outs in sym.app_log:
            key = (name, tuple(a.shape for a in ins))
            self.tables.setdefault(key, []).append(
                ([self.num(e) for a in ins for e in a.reshape(-1)],
                 [np.array([self.num(e) for e in o.reshape(-1)]).reshape(o.shape) for o in outs])
            )

    def val(self, t):
        return self.m.eval(t, model_completion=True)

    def real(self, t):
        if isinstance(t, (int, Fraction)):
            return Fraction(t)
        v = self.val(t)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        return Fraction(v.numerator_as_long(), v.denominator_as_long())

    def truth(self, t):
        if isinstance(t, bool):
            return t
        return z3.is_true(self.val(t))

    def num(self, e):
        if isinstance(e, XF):
            if self.truth(e.nan):
                return math.nan
            if self.truth(e.pinf):
                return math.inf
            if self.truth(e.ninf):
                return -math.inf
            try:
                return float(self.real(e.r))
            except OverflowError:
                return math.inf
        if isinstance(e, bool) or z3.is_bool(e):
            return self.truth(e)
        if isinstance(e, int):
            return e
        return self.val(e).as_long()

    def elem(self, label, kind, finite, lo=None, hi=None):
        if label not in self.sym.inputs:
            return {"b": False, "i": 0, "f": 0.0}[kind]
        ent = self.sym.inputs[label]
        if kind == "b":
            return self.truth(ent[1])
        if kind == "i":
            return self.val(ent[1]).as_long()
        if ent[2] is not None:
            k = self.val(ent[2]).as_long()
            if k in (1, 2, 3):
                return [math.inf, -math.inf, math.nan][k - 1]
        try:
            return float(self.real(ent[1]))
        except OverflowError:
            return math.inf

    def call(self, S, name, avals, args):
        key = (name, tuple(np.asarray(a).shape for a in args))
        vec = [float(v) if not isinstance(v, (bool, np.bool_)) else bool(v) for a in args for v in np.asarray(a).reshape(-1)]
        best, bd = None, None
        for v, outs in self.tables.get(key, []):
            d = 0.0
            for p, q in zip(v, vec):
                p, q = float(p), float(q)
                if p == q or (p != p and q != q):
                    continue
                if not (math.isfinite(p) and math.isfinite(q)):
                    d = math.inf
                    break
                d = max(d, abs(p - q) / (1.0 + abs(p)))
            if bd is None or d < bd:
                best, bd = outs, d
        if best is not None and bd is not None and bd <= 1e-6:
            return best
        fn = S._fn_of(name)
        if fn is not None and fn.concrete is not None and fn.name == name:
            return fn.concrete(S, [np.asarray(a) for a in args])
        if best is not None and bd is not None and math.isfinite(bd):
            return best
        return [np.zeros(s, d) for s, d in avals]


_JIT_CACHE = {}


class Conc(Scenario):
    concrete = True

    def __init__(self, name, source, seed=0, key=None, tol=Fraction(1, 10**7)):
        super().__init__(name, seed)
        self.ctx = X.set_ctx(X.Ctx())
        self.ctx.tol = (tol, tol)
        self.source = source
        self.key = key
        self.inputs_used = {}
        self.results = []
        self.failed = []
        self.calls = []
        self.memo = {}
        self.fresh = []  # calls of opaque functions whose contract has not been looked at yet
        self.mode = "reach"

    def elem(self, label, kind, finite, lo=None, hi=None):
        v = self.source.elem(label, kind, finite, lo, hi)
        self.inputs_used[label] = v
        return xf(v) if kind == "f" else v

    def assume(self, *fs):
        for f in fs:
            if X._b(f) is not True:
                raise Rejected()

    def check(self, name, goal):
        goal = X._b(goal)
        self.results.append((name, goal))
        if goal is False:
            self.failed.append(name)

    def lemma(self, name, goal):
        self.check(name, goal)

    def holds(self, name, goal):
        return False

    def generalise(self, name, xs, law=None, opaque=False, also=()):
        if law is not None:
            self.check(name, law(*xs))
        for i, y in enumerate(also):
            self.check(f"{name}, otherwise ({i})", xs[0].same(y))
        return list(xs)

    def nonzero(self, name, *xs):
        for i, x in enumerate(xs):
            self.check(f"{name}" + (f" ({i})" if i else ""), not_(x.same(xf(0))))

    def nonneg(self, name, *xs):
        for i, x in enumerate(xs):
            self.check(f"{name}" + (f" ({i})" if i else ""), xf(0) <= x)

    def abbreviate(self, *xs):
        pass

    def algebra(self):
        pass

    def schema(self, name, law, *xs):
        self.check(name, law(*xs))

    def positive(self, name, *xs):
        for i, x in enumerate(xs):
            self.check(f"{name}" + (f" ({i})" if i else ""), xf(0).lt(x))

    def opaque(self, name, avals, ins):
        outs = self.memo_call(name, avals, [self._np(a) for a in ins])
        res = [lift(np.asarray(o, dtype=d).reshape(s)) for o, (s, d) in zip(outs, avals)]
        self.check_contracts()
        return res

    def check_contracts(self):
        """The values chosen for opaque functions must meet their contracts."""
        while self.fresh:
            name, avals, args, outs = self.fresh.pop()
            spec = self._fn_of(name)
            if spec is None or spec.contract is None or spec.name != name:
                continue
            outs = [lift(np.asarray(o, dtype=d).reshape(s)) for o, (s, d) in zip(outs, avals)]
            for f in spec.contract(self, [lift(np.asarray(a)) for a in args], outs) or []:
                if X._b(f) is False:
                    raise Rejected()

    def _np(self, a):
        a = np.asarray(a, dtype=object)
        d = dtype_of(a)
        out = np.empty(a.shape, dtype=d)
        for ix in np.ndindex(a.shape):
            e = a[ix]
            if e is MAYBE or (isinstance(e, XF) and (e.nan is MAYBE or e.pinf is MAYBE)):
                raise Rejected()
            out[ix] = X.to_float(e) if isinstance(e, XF) else e
        return out

    def choose_depth(self, depth):
        if isinstance(self.source, RandomSource):
            d = self.source.rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
            self.depth = d if depth is None else min(d, depth)
            self.inputs_used["number of steps before"] = self.depth
        return self.depth

    def run(self, f, *args, loop=None, key=None):
        raised, out = self.run_raises(f, *args, key=key)
        if raised:
            raise Rejected()
        return out

    def run_raises(self, f, *args, loop=None, key=None, pyexc=()):
        leaves, treedef = jtu.tree_flatten(args, is_leaf=is_sym)
        mask = [is_sym(l) for l in leaves]
        dyn = [jnp.asarray(self._np(l), dtype=dtype_of(l)) for l in leaves if is_sym(l)]
        ckey = (self.key, key if key is not None else self.nrun) if self.key is not None else None
        if key is None:
            self.nrun += 1
        if ckey is None or ckey not in _JIT_CACHE:
            box = {}

            def g(*xs):
                it = iter(xs)
                full = [next(it) if m else l for l, m in zip(leaves, mask)]
                out = f(*jtu.tree_unflatten(treedef, full))
                out = jtu.tree_map(
                    lambda x: jnp.asarray(x) if isinstance(x, (bool, int, float, np.ndarray, np.generic)) else x, out
                )
                d, st = eqx.partition(out, eqx.is_array)
                lv, td = jtu.tree_flatten(d)
                box["td"], box["st"] = td, st
                return lv

            ent = (eqx.filter_jit(g), g, box)
            if ckey is not None:
                _JIT_CACHE[ckey] = ent
        else:
            ent = _JIT_CACHE[ckey]
        jf, eager, box = ent
        opaque.Interp.current = self
        try:
            try:
                outs = jf(*dyn)
            except (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError):
                # a number that users pass as it is (a tolerance, say) need not be traceable
                outs = eager(*dyn)
            outs = [np.asarray(o) for o in outs]
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ in ("EquinoxRuntimeError", "XlaRuntimeError", "JaxRuntimeError", "EquinoxTracetimeError"):
                self.last_error = str(e)
                return True, None
            if pyexc and isinstance(e, pyexc):
                self.last_error = str(e)
                return True, None
            raise
        finally:
            opaque.Interp.current = None
            self.check_contracts()
        vals = [sarr(lift(o), o.dtype) for o in outs]
        return False, eqx.combine(jtu.tree_unflatten(box["td"], vals), box["st"], is_leaf=is_sym)

    def memo_call(self, name, avals, args):
        """Opaque functions are locally constant at the scale of rounding errors, so that
        contract and code, computing the same argument differently, get the same value."""
        vec = np.concatenate([np.asarray(a, dtype=np.float64).reshape(-1) for a in args]) if args else np.zeros(0)
        key = (name, tuple(np.shape(a) for a in args))
        for v, outs in self.memo.get(key, []):
            with np.errstate(invalid="ignore"):
                close = (v == vec) | (np.isnan(v) & np.isnan(vec)) | (np.abs(v - vec) <= 1e-9 * (1.0 + np.abs(v)))
            if np.all(close):
                return outs
        outs = self.source.call(self, name, avals, args)
        self.fresh.append((name, avals, args, outs))
        self.memo.setdefault(key, []).append((vec, outs))
        return outs

    def call(self, name, avals, args):  # Interp protocol
        outs = self.memo_call(name, avals, args)
        if len(self.calls) < 400:
            self.calls.append((name, [np.asarray(a).tolist() for a in args], [np.asarray(o).tolist() for o in outs]))
        return outs
