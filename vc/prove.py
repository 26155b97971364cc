"""Discharging obligations: z3 (API), z3's nlsat after Ackermann reduction, cvc5."""

from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction

import numpy as np
import z3

from . import xf as X
from .ring import combination, Ring, TooBig, patience, eliminate

CVC5 = shutil.which("cvc5")


class Result:
    def __init__(self, status, backend, secs, model=None, why=""):
        self.status, self.backend, self.secs, self.model, self.why = status, backend, secs, model, why


def _apps(fs):
    """All uninterpreted applications (arity > 0) in fs."""
    seen, out, stack = set(), [], list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            stack.extend(t.children())
    return out


class SubModel:
    """A model of the Ackermann-reduced problem, readable on the original terms."""

    def __init__(self, model, pairs):
        self.m, self.pairs = model, pairs

    def eval(self, t, model_completion=True):
        # innermost first
        for _ in range(4):
            t2 = z3.substitute(t, *self.pairs) if self.pairs else t
            if t2.eq(t):
                break
            t = t2
        return self.m.eval(t, model_completion=model_completion)


def ackermann(fs):
    apps = _apps(fs)
    if not apps:
        return fs, [], []
    # innermost-first ordering by depth
    depth = {}

    def d(t):
        if t.get_id() in depth:
            return depth[t.get_id()]
        r = 1 + max([d(c) for c in t.children()], default=0)
        depth[t.get_id()] = r
        return r

    apps.sort(key=d)
    pairs = []
    byfun = {}
    for i, t in enumerate(apps):
        new_args = [z3.substitute(c, *pairs) if pairs else c for c in t.children()]
        v = z3.Const(f"ack!{i}", t.sort())
        byfun.setdefault(t.decl().name() + str(t.num_args()), []).append((new_args, v))
        # substitute both the original and the arg-substituted form
        pairs.append((t, v))
        t2 = t.decl()(*new_args)
        if not t2.eq(t):
            pairs.append((t2, v))
    out = []
    for f in fs:
        g = f
        # outermost originals first would hide inner ones; replace from the outermost down
        g = z3.substitute(g, *[p for p in reversed(pairs)])
        for _ in range(6):
            h = z3.substitute(g, *pairs)
            if h.eq(g):
                break
            g = h
        out.append(g)
    cong = []
    for lst in byfun.values():
        for a in range(len(lst)):
            for b in range(a):
                (ua, va), (ub, vb) = lst[a], lst[b]
                eqs = []
                impossible = False
                for p, q in zip(ua, ub):
                    if p.eq(q):
                        continue
                    if z3.is_rational_value(p) and z3.is_rational_value(q):
                        impossible = True
                        break
                    eqs.append(p == q)
                if impossible:
                    continue
                cong.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), va == vb))
    return out, cong, pairs


class _NL:
    """Replaces non-linear products and quotients by uninterpreted ones (a sound weakening)."""

    def __init__(self):
        self.cache = {}
        self.found = False

    def __call__(self, t):
        stack = [t]
        while stack:
            u = stack[-1]
            if u.get_id() in self.cache:
                stack.pop()
                continue
            if not z3.is_app(u):
                raise z3.Z3Exception("quantifier")
            ch = u.children()
            todo = [c for c in ch if c.get_id() not in self.cache]
            if todo:
                stack += todo
                continue
            stack.pop()
            self.found = any(self.cache[c.get_id()][2] for c in ch)
            self.cache[u.get_id()] = (self._build(u, [self.cache[c.get_id()][0] for c in ch]), u, self.found)
        return self.cache[t.get_id()][0]

    def all(self, fs):
        """(formulas, whether anything was abstracted)."""
        out = [self(f) for f in fs]
        return out, any(self.cache[f.get_id()][2] for f in fs)

    def _build(self, u, ch):
        k = u.decl().kind()
        if k == z3.Z3_OP_MUL:
            consts = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            rest = sorted([c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))], key=lambda c: (c.num_args() > 0, c.get_id()))
            if len(rest) > 1:
                self.found = True
                p = rest[0]
                f = z3.Function("nl*", p.sort(), p.sort(), p.sort())
                for r in rest[1:]:
                    p = f(p, r)
                for c in consts:
                    p = c * p
                return p
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            self.found = True
            return z3.Function("nl/", ch[0].sort(), ch[0].sort(), ch[0].sort())(*ch)
        if not ch:
            return u
        return u.decl()(*ch)


def abstract_nl(fs):
    """(formulas, whether anything was abstracted)."""
    return _NL().all(fs)


def _ite_conditions(fs, deep=True):
    """Conditions of arithmetic if-then-elses with their numbers of occurrences (unless
    `deep`: not within arguments of functions)."""
    seen, count, stack = set(), {}, list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(t):
                c = t.arg(0)
                n, _ = count.get(c.get_id(), (0, c))
                count[c.get_id()] = (n + 1, c)
            if deep or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                stack.extend(t.children())
    return count


def _size(t, cache):
    if t.get_id() not in cache:
        cache[t.get_id()] = 1
        cache[t.get_id()] = 1 + sum(_size(c, cache) for c in t.children())
    return cache[t.get_id()]


def _atoms(t, cache):
    """The numbers a formula or term is about."""
    if t.get_id() not in cache:
        out, stack, seen = set(), [t], set()
        while stack:
            u = stack.pop()
            if u.get_id() in seen or z3.is_rational_value(u) or z3.is_int_value(u):
                continue
            seen.add(u.get_id())
            if z3.is_real(u) and z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.get_id())
            else:
                stack.extend(u.children())
        cache[t.get_id()] = out
    return cache[t.get_id()]


def _relevant(hyps, goal, rounds=2):
    cache = {}
    have, out = set(_atoms(goal, cache)), {}
    for _ in range(rounds):
        new = {h.get_id(): h for h in hyps if h.get_id() not in out and _atoms(h, cache) & have}
        out.update(new)
        for h in new.values():
            have |= _atoms(h, cache)
    return list(out.values())


def _has_real_eq(f):
    stack, seen = [f], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_eq(t) and z3.is_real(t.arg(0)):
            return True
        if z3.is_bool(t):
            stack += t.children()
    return False


def _divisors(t):
    seen, out, stack = set(), [], [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(u.arg(1)):
                out.append(u.arg(1))
            if u.decl().kind() in ARITH:
                stack += u.children()
    return out


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER)


class _Linear:
    """Comparisons of polynomials as linear forms over monomials (a normal form)."""

    def __init__(self, ring, facts):
        self.ring, self.facts, self.cache = ring, facts, {}

    def __call__(self, f):
        if f.get_id() in self.cache:
            return self.cache[f.get_id()][0]
        r = self._go(f)
        self.cache[f.get_id()] = (r, f)
        return r

    def _go(self, f):
        if not z3.is_app(f) or not z3.is_bool(f) or f.num_args() == 0:
            return f
        if z3.is_real(f.arg(0)) and f.num_args() == 2:
            k = f.decl().kind()
            ops = {z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_LT: lambda a: a < 0, z3.Z3_OP_GE: lambda a: a >= 0, z3.Z3_OP_GT: lambda a: a > 0, z3.Z3_OP_EQ: lambda a: a == 0, z3.Z3_OP_DISTINCT: lambda a: a != 0}
            if k in ops:
                l = self.linear(f.arg(0) - f.arg(1))
                if l is not None:
                    return ops[k](l)
            return f
        if all(z3.is_bool(c) for c in f.children()):
            return f.decl()(*[self(c) for c in f.children()])
        return f

    def linear(self, t):
        if _ite_conditions([t]):
            return None
        if any(self.facts is None or not self.facts.nonzero(d) for d in _divisors(t)):
            return None
        try:
            r = self.ring.of(t)
            den = str(sorted((k, e) for k, (_, e) in r.d.items())) if r.d else ""
            terms = []
            for m, c in r.n.items():
                if not den and len(m) == 1 and m[0][1] == 1:
                    v = self.ring.atoms[m[0][0]]
                elif m or den:
                    v = z3.Real(f"mono!{m}{'/' + str(self.ring.dens.setdefault(den, len(self.ring.dens))) if den else ''}")
                else:
                    v = z3.RealVal(1)
                terms.append(z3.RealVal(c) * v)
            return z3.Sum(*terms) if terms else z3.RealVal(0)
        except TooBig:
            return None


class Prover:
    def __init__(self, t_z3=8.0, t_nl=15.0, t_cvc5=20.0, seed=0):
        self.t_ring = 40.0
        self.t_z3, self.t_nl, self.t_cvc5, self.seed = t_z3, t_nl, t_cvc5, seed
        self.time = {"z3": 0.0, "z3-nlsat": 0.0, "cvc5": 0.0, "fold": 0.0}
        self.queries = 0
        self.nl = _NL()
        self.facts, self.squares = None, {}
        self.undecided = 0  # candidate invariants neither proved nor refuted

    def _z3(self, fs, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", self.seed % 1000)
        s.add(*fs)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.time["z3"] += dt
        if r == z3.unsat:
            return Result("proved", "z3", dt)
        if r == z3.sat:
            return Result("refuted", "z3", dt, s.model())
        return Result("unknown", "z3", dt, why=s.reason_unknown())

    def _nl(self, fs, timeout):
        t = time.time()
        red, cong, pairs = ackermann(fs)
        g = z3.Goal()
        g.add(*red)
        g.add(*cong)
        tac = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "simplify", "tseitin-cnf", "qfnra-nlsat")
        s = tac.solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*red)
        s.add(*cong)
        try:
            r = s.check()
        except z3.Z3Exception as e:
            self.time["z3-nlsat"] += time.time() - t
            return Result("unknown", "z3-nlsat", time.time() - t, why=str(e))
        dt = time.time() - t
        self.time["z3-nlsat"] += dt
        if r == z3.unsat:
            return Result("proved", "z3-nlsat", dt)
        if r == z3.sat:
            return Result("refuted", "z3-nlsat", dt, SubModel(s.model(), pairs))
        return Result("unknown", "z3-nlsat", dt, why=s.reason_unknown())

    def _cvc5(self, fs, timeout):
        if CVC5 is None:
            return Result("unknown", "cvc5", 0.0, why="no cvc5")
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
            path = fh.name
        try:
            p = subprocess.run(
                [CVC5, f"--tlimit={int(timeout*1000)}", path],
                capture_output=True, text=True, timeout=timeout + 10,
            )
            out = p.stdout.strip().splitlines()
            ans = out[0] if out else ""
        except subprocess.TimeoutExpired:
            ans = "timeout"
        finally:
            os.unlink(path)
        dt = time.time() - t
        self.time["cvc5"] += dt
        if ans == "unsat":
            return Result("proved", "cvc5", dt)
        return Result("unknown", "cvc5", dt, why=ans)

    def _split(self, fs, timeout, leaves=24):
        """Case distinction on if-then-else conditions; polynomials are expanded in each
        case, so that equal ones become the same term."""
        t0 = time.time()
        budget = [leaves]

        def go(fs, depth):
            if time.time() - t0 > timeout or budget[0] <= 0:
                return False
            fs = [z3.simplify(f, som=True) for f in fs]
            if any(z3.is_false(f) for f in fs):
                return True
            fs = [f for f in fs if not z3.is_true(f)]
            ab, _ = abstract_nl(fs)
            if self._z3(ab, 1.0).status == "proved":
                return True
            conds = _ite_conditions(fs)
            if not conds or depth == 0:
                budget[0] -= 1
                return self._z3(fs, 3.0).status == "proved" or self._nl(fs, 3.0).status == "proved"
            cache = {}
            n, c = max(conds.values(), key=lambda v: (v[0], -_size(v[1], cache)))
            return all(go([z3.substitute(f, (c, b)) for f in fs] + [c if z3.is_true(b) else z3.Not(c)], depth - 1) for b in (z3.BoolVal(True), z3.BoolVal(False)))

        try:
            ok = go(fs, 8)
        except z3.Z3Exception:
            ok = False
        dt = time.time() - t0
        return Result("proved" if ok else "unknown", "z3", dt, why="case split")

    # ---- identities between rational functions
    def _ring(self, hyps, goal, timeout):
        t0 = time.time()
        facts = self.facts
        ring = facts.ring if facts is not None else Ring()
        ring.squares = self.squares
        decided = {}

        def normal(f):
            """Comparisons as linear forms over monomials."""
            return _Linear(ring, facts)(f)

        base = [normal(h) for h in hyps]

        def z3_says(hy, f):
            ab, _ = self.nl.all(hy + [z3.Not(f)])
            return self._z3(ab, 1.5).status == "proved"

        def decide(hy, c):
            key = (len(hy), c.get_id())
            if key not in decided:
                n = normal(c)
                ans = True if z3_says(hy, n) else False if z3_says(hy, z3.Not(n)) else None
                decided[key] = (ans, c)
            return decided[key][0]

        def resolve(hy, t, deep):
            for _ in range(200):
                if time.time() - t0 > timeout:
                    return None
                conds = [c for _, c in _ite_conditions([t], deep).values()]
                if not conds:
                    return t
                cache = {}
                hit = None
                for c in sorted(conds, key=lambda c: _size(c, cache)):
                    d = decide(hy, c)
                    if d is not None:
                        hit = (c, z3.BoolVal(d))
                        break
                if hit is None:
                    return t  # what remains is treated as a number
                t = z3.simplify(z3.substitute(t, hit))
            return None

        def equations(hy, goal, deep):
            """Equations that follow from the hypotheses (as given) and may be relevant."""
            key = ("eqs", len(hy), goal.get_id(), deep)
            if key not in decided:
                out, todo = [], _relevant([h for h in hyps if _has_real_eq(h)], goal)
                while todo:
                    f = todo.pop()
                    if z3.is_and(f):
                        todo += f.children()
                    elif z3.is_eq(f) and z3.is_real(f.arg(0)):
                        out.append(f.arg(0) - f.arg(1))
                    elif z3.is_implies(f) and decide(hy, f.arg(0)) is True:
                        todo.append(f.arg(1))
                    elif z3.is_or(f) and any(_has_real_eq(c) for c in f.children()):
                        for i, c in enumerate(f.children()):
                            if _has_real_eq(c) and decide(hy, z3.Or(*[o for j, o in enumerate(f.children()) if j != i])) is False:
                                todo.append(c)
                decided[key] = [e for e in (resolve(hy, e, deep) for e in out) if e is not None]
            return decided[key]

        def prove_(hy, g):
            if time.time() - t0 > timeout:
                return False
            if z3.is_true(g):
                return True
            if z3.is_and(g):
                return all(prove_(hy, c) for c in g.children())
            if z3.is_implies(g):
                return prove_(hy + [normal(g.arg(0))], g.arg(1))
            if z3.is_or(g):
                ch = g.children()
                for i, c in enumerate(ch):
                    if any(_has_real_eq(x) for x in [c]):
                        rest = [normal(z3.Not(o)) for j, o in enumerate(ch) if j != i]
                        if prove_(hy + rest, c):
                            return True
                return z3_says(hy, normal(g))
            if z3.is_eq(g) and z3.is_real(g.arg(0)):
                fine = lambda x: self._nonvanishing(facts, normal, hy, x, z3_says)
                d, before = g.arg(0) - g.arg(1), None
                for deep in (False, True):
                    d = resolve(hy, d, deep)
                    if d is None:
                        return False
                    if before is not None and d.eq(before):
                        continue
                    before = d
                    a, b = (d.arg(0), d.arg(1)) if d.decl().kind() == z3.Z3_OP_SUB and d.num_args() == 2 else (d, 0)
                    if (self._identity(ring, a, b) or self._combined(ring, d, equations(hy, d, deep), fine)) and all(fine(x) for x in _divisors(d)):
                        return True
                return False
            return z3_says(hy, normal(g))

        try:
            ok = prove_(base, goal)
        except (z3.Z3Exception, TooBig):
            ok = False
        dt = time.time() - t0
        self.time["ring"] = self.time.get("ring", 0.0) + dt
        return Result("proved" if ok else "unknown", "ring", dt, why="no identity")

    def _identity(self, ring, a, b):
        rings = [ring]
        if ring.names:
            rings.append(Ring(self.squares))
        for r in rings:
            try:
                with patience(self.t_ring):
                    if r.zero(a, b):
                        return True
            except TooBig:
                pass
        return False

    def _combined(self, ring, d, eqs, fine):
        """Is the number a combination of numbers known to be zero?"""
        try:
            with patience(self.t_ring):
                hs = [ring.tidy(ring.of(e)).n for e in eqs if all(fine(x) for x in _divisors(e))]
                return bool(hs) and combination(*eliminate(ring.tidy(ring.of(d)).n, hs))
        except TooBig:
            return False

    def _nonvanishing(self, facts, normal, hy, d, says):
        if facts is not None and facts.nonzero(d):
            return True
        return says(hy, normal(d != 0))

    def valid(self, hyps, goal, effort=1.0):
        """Is (and hyps) ==> goal valid?"""
        self.queries += 1
        if goal is True:
            return Result("proved", "fold", 0.0)
        g = z3.BoolVal(False) if goal is False else goal
        fs = [h for h in hyps] + [z3.Not(g)]
        try:
            ab, nl = self.nl.all(fs)
        except z3.Z3Exception:
            ab, nl = fs, False
        if nl:
            r = self._z3(ab, min(4.0, self.t_z3) * effort)
            if r.status == "proved":
                return r
        if nl and self.facts is not None:
            r = self._ring(list(hyps), g, self.t_z3 * effort)
            if r.status == "proved":
                return r
        r = self._z3(fs, min(2.0, self.t_z3) * effort)
        if r.status != "unknown":
            return r
        if nl:
            r = self._split(fs, self.t_z3 * effort)
            if r.status == "proved":
                return r
        r = self._z3(fs, self.t_z3 * effort)
        if r.status != "unknown":
            return r
        r2 = self._nl(fs, self.t_nl * effort)
        if r2.status != "unknown":
            return r2
        r3 = self._cvc5(fs, self.t_cvc5 * effort)
        if r3.status != "unknown":
            return r3
        r.why = f"z3: {r.why}; nlsat: {r2.why}; cvc5: {r3.why}"
        return r

    def find(self, hyps, goal, timeout):
        """A model of hyps and not goal, or None."""
        if goal is True:
            return None
        g = z3.BoolVal(False) if goal is False else goal
        fs = list(hyps) + [z3.Not(g)]
        for f in (self._z3, self._nl):
            r = f(fs, timeout)
            if r.status == "proved":
                return None
            if r.status == "refuted":
                return r.model
        return None

    def sat(self, hyps, timeout=None):
        r = self._z3(list(hyps), timeout or self.t_z3)
        return {"proved": "unsat", "refuted": "sat", "unknown": "unknown"}[r.status]


def houdini(cands, label="loop", exact=True):
    """Loop contract by inductive invariants.

    `cands(S, carry)` returns a list of (name, formula).  Every candidate that does not
    hold initially, or is not preserved by the loop body (given the surviving ones and
    the loop condition), is dropped: the rest is an inductive invariant, i.e. it holds
    after any number of iterations.  Returns a loop handler.
    """

    def handler(S, interp, cond, body, init, avals):
        P = S.prover
        hyps0 = S.hyps() + [f for f in interp.pc if f is not True]
        c0 = cands(S, init)
        hyps0 = S.hyps() + [f for f in interp.pc if f is not True]
        from .driver import _prove_all

        ok = {i for i, _ in _prove_all(P, lambda: hyps0, [(i, f) for i, (_, f) in enumerate(c0)], exact)}
        alive = [i for i in range(len(c0)) if i in ok]
        h = [interp.havoc(a, f"{label}.c{k}") for k, a in enumerate(avals)]
        base_axioms = None
        ch = cands(S, h)
        cnd = cond(h)
        interp.pc.append(cnd)
        nb = body(h)
        interp.pc.pop()
        cb = cands(S, nb)
        changed = True
        while changed:
            changed = False
            hy = S.hyps() + [f for f in interp.pc if f is not True]
            hy += [ch[i][1] for i in alive if ch[i][1] is not True]
            if cnd is not True:
                hy.append(cnd if cnd is not False else z3.BoolVal(False))
            ok = {i for i, _ in _prove_all(P, lambda: hy, [(i, cb[i][1]) for i in alive], exact)}
            if len(ok) < len(alive):
                alive, changed = [i for i in alive if i in ok], True
        names = [c0[i][0] for i in alive]
        for i in alive:
            S.loop_obligations.append((f"{label}.init[{c0[i][0]}]", "proved"))
            S.loop_obligations.append((f"{label}.preserved[{c0[i][0]}]", "proved"))
        S.loop_invariants = names
        # exit state
        e = [interp.havoc(a, f"{label}.x{k}") for k, a in enumerate(avals)]
        ce = cands(S, e)
        S.assume(*[implies_pc(interp, ce[i][1]) for i in alive])
        S.assume(implies_pc(interp, X.not_(cond(e))))
        return e

    return handler


def same_loops():
    """Loop contract for comparing runs: a loop is some function of its inputs, the same
    function for loops with the same code (equal up to the names of variables)."""
    seen = {}

    def handler(S, interp, cond, body, init, avals):
        code = repr([(re.sub(r"0x[0-9a-f]+", "", str(j)), [np.asarray(c).tolist() for c in j.consts]) for j in cond.code])
        name = seen.setdefault(code, f"loop{len(seen)}")
        S.fn(name, None, finite=False)
        S.loop_code = seen
        ins = cond.consts + list(init)
        return S.opaque(name, tuple((a.shape, a.dtype) for a in avals), ins)

    handler.seen = seen
    return handler


def implies_pc(interp, f):
    return X.implies(X.and_(*interp.pc), f)
