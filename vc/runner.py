"""Runs the obligations of one property; decides, replays, writes evidence.

Obligations are handed to worker processes (`check.py <id> --worker`), one at a time.
"""

from __future__ import annotations

import copy
import json
import os
import queue
import subprocess
import sys
import threading
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import prove
from .core import Conc, ModelSource, RandomSource, Rejected, Sym
from .jx import Unsupported
from .prove import Prover
from .xf import Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
TRUSTED = [
    "JAX tracing: the jaxpr obtained by tracing the real Python functions is the program that runs (XLA compiles it faithfully); tracing fixes array shapes, dtypes, pytree structures and static configuration to the listed instances",
    "VC generator /verif/vc (jaxpr -> SMT), cross-checked on every run against real executions",
    "SMT solvers z3 and cvc5, and the polynomial identity prover vc/ring.py (self-tested by exact evaluation at setup)",
    "floating point modelled as extended reals: exact on finite values (no rounding, no overflow, unsigned zero), IEEE on NaN/inf; machine integers as mathematical integers",
]
TIME_CAP = {"quick": 150.0, "thorough": 700.0}  # per obligation
RUN_CAP = {"quick": 600.0, "thorough": 800.0}  # per check


class Obligation:
    def __init__(self, name, fn, functions, samples=5, search=200, effort=1.0, tier="quick", bounded=False, tol=1e-4, instance="", depth=2, search_s=60.0, slow=1.0):
        self.name, self.fn, self.functions = name, fn, functions
        self.samples, self.search, self.effort = samples, search, effort
        self.tier, self.bounded, self.tol = tier, bounded, tol
        self.instance, self.depth, self.search_s, self.slow = instance, depth, search_s, slow


class Property:
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.obligations = []
        self.assumptions = list(assumptions)

    def ob(self, name, functions=(), **kw):
        def deco(fn):
            assert name not in {o.name for o in self.obligations}, name
            self.obligations.append(Obligation(name, fn, list(functions), **kw))
            return fn

        return deco


def observe(ob, seed, limit=8.0):
    """Candidate invariants that executions of the real code violate (twice, so that a
    rounding error does no harm): they need not be tried."""
    count, ok, t0 = {}, 0, None
    for k in range(40):
        S = Conc(ob.name, RandomSource((seed * 1000003 + k * 7907 + _h(ob.name)) & 0x7FFFFFFF, tame=True), seed, key=ob.name, tol=Fraction(1e-4))
        S.prover, S.hyps, S.seen_false = None, (lambda: []), set()
        try:
            ob.fn(S)
        except (Rejected, Undecided):
            pass
        except Exception:  # noqa: BLE001  (reported when the obligation is executed)
            return set()
        if not S.has_history:
            if k >= 3 or not S.seen_false and S.results:
                return set()
            continue
        t0 = t0 or time.time()  # the first run compiles
        ok += bool(S.results)
        for c in S.seen_false:
            count[c] = count.get(c, 0) + 1
        if ok >= 10 or time.time() - t0 > limit:
            break
    return {c for c, n in count.items() if n >= 2}


def run_sym(ob, prover, seed, mode="inductive", depth=0, hopeless=()):
    S = Sym(ob.name, seed)
    S.hopeless = hopeless
    S.mode, S.depth = mode, depth
    S.prover = prover
    prover.facts, prover.squares = None, {}
    S.hyps = lambda: list(S.assumptions) + list(S.ctx.axioms)
    S.loop_invariants = []
    ob.fn(S)
    return S


def run_conc(ob, source, seed=0, depth=0, tol=1e-7):
    S = Conc(ob.name, source, seed, key=ob.name, tol=Fraction(tol))
    S.depth = depth
    S.prover = None
    S.hyps = lambda: []
    ob.fn(S)
    return S


def _jsonable(v):
    if isinstance(v, float):
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v


def _h(s):
    return zlib.crc32(s.encode())


class Unexpected(Exception):
    pass


def _raised_in_repo(e):
    """Was the exception raised by the code under verification (not by a contract)?"""
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    ours = [os.path.realpath(f) for f in frames if os.path.realpath(f).startswith((REPO + os.sep, VERIF + os.sep))]
    return bool(ours) and ours[-1].startswith(REPO + os.sep)


def process(ob, tier="quick", seed=0, verbose=False):
    """Decides one obligation; returns a JSON-able record."""
    t0 = time.time()
    cap = TIME_CAP[tier] * ob.slow
    prover = Prover(seed=seed)
    if tier == "thorough":
        prover.t_z3, prover.t_nl, prover.t_cvc5 = 20.0, 40.0, 60.0
    R = dict(
        name=ob.name, obligations=0, discharged=0, by_backend={}, undecided=[], functions=ob.functions,
        samples_run=0, samples_rejected=0, vacuous=[], details=[], errors=[], prims={}, eqns=0, traces=0,
        invariants=[], bounded=[], violation=None,
    )

    def log(*a):
        if verbose:
            print(*a, file=sys.stderr, flush=True)

    S = None
    why_not = None
    trace_exc = None
    if not ob.bounded:
        try:
            S = run_sym(ob, prover, seed, hopeless=observe(ob, seed))
        except Unsupported as e:
            why_not = f"outside the VC generator: {e}"
            if verbose:
                traceback.print_exc()
        except Exception as e:  # noqa: BLE001
            why_not = "could not extract: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
            trace_exc = e
            if verbose:
                traceback.print_exc()
    else:
        why_not = ob.bounded if isinstance(ob.bounded, str) else "bounded check by design"
    proved, refuted, unknown, statuses = [], [], [], []
    if S is not None:
        R["eqns"], R["traces"], R["prims"] = S.eqns, S.runs, dict(S.used_prims)
        R["invariants"] = list(S.loop_invariants)
        for nm, st in S.loop_obligations:
            R["obligations"] += 1
            R["discharged"] += 1
            R["by_backend"]["z3"] = R["by_backend"].get("z3", 0) + 1
        if not S.checks:
            R["errors"].append(f"{ob.name}: no obligations generated")
        axioms = list(S.ctx.axioms)
        for nm, goal, na in S.checks:
            R["obligations"] += 1
            if time.time() - t0 > 0.55 * cap:
                r = prove.Result("unknown", "none", 0.0, why="time budget of the obligation exhausted")
            else:
                r = prover.valid([], goal, ob.effort / 2) if na < 0 else None  # a law
                if r is None or r.status != "proved":
                    r = prover.valid(S.assumptions[:max(na, 0)] + axioms, goal, ob.effort)
            statuses.append((nm, r))
            if r.status == "proved":
                R["discharged"] += 1
                R["by_backend"][r.backend] = R["by_backend"].get(r.backend, 0) + 1
                proved.append(nm)
            elif r.status == "refuted":
                refuted.append((nm, r))
            else:
                unknown.append((nm, r))
            R["details"].append(dict(obligation=f"{ob.name}/{nm}", status=r.status, backend=r.backend, secs=round(r.secs, 3)))
            log(f"  {ob.name}/{nm}: {r.status} [{r.backend} {r.secs:.2f}s] {r.why if r.status == 'unknown' else ''}")
    all_proved = S is not None and not refuted and not unknown
    if refuted and prover.undecided:
        # with the invariant that could not be decided the obligation might hold
        R["undecided_invariants"] = prover.undecided

    # ---- executions of the real code
    witness = False
    fail = None  # (Conc, how)
    ok_runs = 0

    def replay(source, how, depth=0, tol=1e-7, want=None):
        nonlocal witness, fail, ok_runs
        try:
            C = run_conc(ob, source, seed, depth, tol)
        except (Rejected, Undecided):
            return "rejected"
        except Exception as e:  # noqa: BLE001
            if _raised_in_repo(e):
                fail = (None, how, f"{type(e).__name__}: {str(e)[:600]}")
                return "raised"
            raise Unexpected(f"{type(e).__name__}: {str(e)[:300]}") from e
        witness = True
        if C.failed:
            if want is not None and want not in C.failed and fail is not None:
                return "other"
            fail = (C, how, None)
            return "failed"
        ok_runs += 1
        return "ok"

    try:
        # counter-models
        if refuted and not S.has_history:
            for nm, r in refuted:
                if r.model is not None and replay(ModelSource(r.model, S), "counter-model of " + nm, want=nm) == "failed":
                    break
        if fail is None and (refuted or unknown) and S is not None:
            # models of executions starting from public inputs, with moderate numbers
            depths = range(ob.depth + 1) if S.has_history else [0]
            names = [nm for nm, _ in refuted + unknown]
            for d in depths:
                if fail is not None or time.time() - t0 > 0.75 * cap:
                    break
                try:
                    B = run_sym(ob, prover, seed, "reach", d)
                except Exception:  # noqa: BLE001
                    break
                box = [z3.And(v[1] >= -50, v[1] <= 50) for v in B.inputs.values() if v[0] == "f"]
                ax = list(B.ctx.axioms)
                for nm, goal, na in B.checks:
                    if nm not in names and not any(n.startswith(("h.", "loop")) or ".preserved" in n or ".init[" in n for n in names):
                        continue
                    if time.time() - t0 > 0.75 * cap:
                        break
                    for extra in (box, []):
                        r = prover.find(B.assumptions[:na] + ax + extra, goal, 6.0)
                        if r is not None:
                            log(f"  depth {d} counter-model for {nm}")
                            replay(ModelSource(r, B), f"counter-model of {nm} after {d} steps", d, want=nm)
                        if fail is not None:
                            break
                    if fail is not None:
                        break
        # random executions: cross-check of proofs, or search for a failing input
        n = ob.samples if all_proved else ob.search
        ok_runs = 0
        k = tried = 0
        tsearch = time.time()
        limit = 25.0 if all_proved else ob.search_s
        tol = ob.tol if all_proved else (ob.tol / 100 if refuted else ob.tol / 10)
        while fail is None and k < n and tried < 60 * max(n, 4):
            if time.time() - tsearch > limit:
                break
            tried += 1
            st = replay(
                RandomSource((seed * 1000003 + tried * 7919 + _h(ob.name)) & 0x7FFFFFFF, tame=not refuted),
                f"random execution {tried}", tol=tol,
            )
            if st == "rejected":
                R["samples_rejected"] += 1
                continue
            k += 1
            if st == "failed" and all_proved:
                # proved for exact arithmetic: a lone failing run is rounding flipping a
                # comparison, a gap in the generator would show up again and again
                first, fail, again, t1 = fail, None, 0, tried
                while tried < t1 + 60 and again < 3 and time.time() - tsearch < 2 * limit:
                    tried += 1
                    fail = None
                    src = RandomSource((seed * 1000003 + tried * 7919 + _h(ob.name)) & 0x7FFFFFFF, tame=True)
                    again += replay(src, f"random execution {tried}", tol=tol) in ("failed", "raised")
                fail = first if again >= 3 else None
                if fail is None:
                    R["rounding"] = R.get("rounding", 0) + 1
                    break
        R["samples_run"] += k
    except Unexpected as e:
        R["errors"].append(f"{ob.name}: execution failed: {e}")
        if verbose:
            traceback.print_exc()
    except Unsupported as e:
        R["errors"].append(f"{ob.name}: {e}")
    # vacuity
    if S is not None and not witness and fail is None:
        st = prover.sat(S.assumptions + list(S.ctx.axioms), 10)
        if st == "unsat":
            R["errors"].append(f"{ob.name}: preconditions are unsatisfiable (vacuous)")
        elif st != "sat":
            R["vacuous"].append(ob.name)
    base = dict(functions=ob.functions, instance=ob.instance, solver=[(a, r.status, r.backend) for a, r in statuses], extraction=why_not)
    if fail is not None:
        C, how, exc = fail
        if C is None:
            R["violation"] = dict(obligation=f"{ob.name}/raises", failing_input=True, how=f"{how}: the real code raises {exc}", **base)
        else:
            R["violation"] = dict(
                obligation=f"{ob.name}/{C.failed[0]}", failing_input=True, how=how, all_failed=C.failed,
                inputs={k: _jsonable(v) for k, v in C.inputs_used.items()},
                calls_of_opaque_functions=C.calls[:150], results=[(a, str(b)) for a, b in C.results], **base,
            )
    elif refuted and not prover.undecided:
        nm, r = refuted[0]
        R["violation"] = dict(
            obligation=f"{ob.name}/{nm}", failing_input=False, how="obligation refuted by the solver; no execution of the real code that fails was found",
            model=str(r.model.m if hasattr(r.model, "m") else r.model)[:6000], **base,
        )
    elif S is None:
        if ok_runs >= 10:
            R["undecided"].append((ob.name, f"{why_not}; bounded stand-in: {ok_runs} executions of the real code, none failing"))
            R["bounded"].append((ob.name, ok_runs))
            R["errors"] = []
        else:
            R["undecided"].append((ob.name, why_not))
            R["errors"].append(f"{ob.name}: {why_not}")
        R["obligations"] += 1
    else:
        for nm, r in refuted + unknown:
            if r.status == "refuted":
                r.why = f"{prover.undecided} candidate invariants undecided"
            R["undecided"].append((f"{ob.name}/{nm}", f"solver: {r.why}; bounded stand-in: {ok_runs} executions of the real code, none failing"))
            R["bounded"].append((f"{ob.name}/{nm}", ok_runs))
            if ok_runs < 10:
                R["errors"].append(f"{ob.name}/{nm}: undecided ({r.why}) and only {ok_runs} executions")
    R["solver_time"], R["queries"], R["secs"] = dict(prover.time), prover.queries, round(time.time() - t0, 2)
    log(f"[{ob.name}] {R['secs']}s samples={R['samples_run']} rejected={R['samples_rejected']}" + (" VIOLATION" if R["violation"] else ""))
    return R


def select(prop, tier, only=None):
    return [
        o for o in prop.obligations
        if (not only or any(t in o.name for t in only)) and (o.tier != "thorough" or tier == "thorough")
    ]


def worker(prop, tier, seed):
    obs = {o.name: o for o in prop.obligations}
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        name = line.rstrip("\n")
        if not name:
            break
        ob = obs[name.lstrip("!")]
        if name.startswith("!"):
            # the proof ran out of time: bounded stand-in
            ob = copy.copy(ob)
            ob.bounded = ob.bounded or "the proof attempt ran out of time"
        try:
            r = process(ob, tier, seed)
        except Exception as e:  # noqa: BLE001
            r = dict(name=ob.name, crash=f"{type(e).__name__}: {str(e)[:400]}")
        out.write("@@" + json.dumps(r, default=str) + "\n")
        out.flush()
    return 0


def _ask(cmd, jobs, results, cap, deadline, known, stop):
    p = None
    while not stop.is_set():
        try:
            name = jobs.get_nowait()
        except queue.Empty:
            break
        late = time.time() > deadline
        if late and not name.startswith("!"):
            name = "!" + name  # no time for a proof
        if time.time() > deadline + 120:
            results.append(dict(name=name[1:], crash="time budget of the run exhausted", timeout=True))
            continue
        if p is None:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        timer = threading.Timer(90 if name.startswith("!") else min(cap(name), max(5.0, deadline - time.time())) + 30, p.kill)
        timer.start()
        r = None
        try:
            p.stdin.write(name + "\n")
            p.stdin.flush()
            for line in p.stdout:
                if line.startswith("@@"):
                    r = json.loads(line[2:])
                    break
        except (BrokenPipeError, ValueError):
            pass
        timer.cancel()
        if r is None:
            p.kill()
            p.wait()
            p = None
            if not name.startswith("!"):
                jobs.put("!" + name)
                continue
            r = dict(name=name[1:], crash="worker died or timed out", timeout=True)
        results.append(r)
        v = r.get("violation")
        if v and v["failing_input"] and v["obligation"] not in known:
            stop.set()  # decided: the rest is not needed
    if p is not None:
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
        p.wait()


def verify(prop, tier="quick", seed=0, only=None, verbose=False, jobs=None, known=()):
    t0 = time.time()
    obs = select(prop, tier, only)
    rep = dict(
        obligations=0, discharged=0, by_backend={}, undecided=[], functions=set(), samples_run=0, samples_rejected=0,
        vacuous=[], details=[], errors=[], prims={}, eqns=0, traces=0, invariants={}, bounded=[], solver_time={}, queries=0,
        contracts=len(obs), rounding=0,
    )
    violations = []
    if not obs:
        rep["errors"].append("no contracts selected")
    results = []
    if jobs == 0:
        for o in obs:
            results.append(process(o, tier, seed, verbose))
    else:
        n = min(jobs or max(1, min(8, os.cpu_count() or 1)), max(1, len(obs)))
        q = queue.Queue()
        caps = {o.name: TIME_CAP[tier] * o.slow for o in obs}
        for o in sorted(obs, key=lambda o: -o.effort * o.slow):
            q.put(o.name)
        cmd = [sys.executable, os.path.join(VERIF, "check.py"), prop.pid, "--worker", "--tier", tier, "--seed", str(seed)]
        stop = threading.Event()
        ths = [
            threading.Thread(target=_ask, args=(cmd, q, results, caps.get, t0 + RUN_CAP[tier], known, stop))
            for _ in range(n)
        ]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    order = {o.name: i for i, o in enumerate(obs)}
    for r in sorted(results, key=lambda r: order[r["name"]]):
        if "crash" in r:
            rep["errors"].append(f"{r['name']}: {r['crash']}")
            rep["undecided"].append((r["name"], r["crash"]))
            rep["obligations"] += 1
            continue
        for k in ("obligations", "discharged", "samples_run", "samples_rejected", "eqns", "traces", "queries"):
            rep[k] += r[k]
        for k in ("by_backend", "prims", "solver_time"):
            for a, b in r[k].items():
                rep[k][a] = rep[k].get(a, 0) + b
        for k in ("undecided", "vacuous", "details", "errors", "bounded"):
            rep[k] += r[k]
        rep["rounding"] += r.get("rounding", 0)
        rep["functions"].update(r["functions"])
        if r["invariants"]:
            rep["invariants"][r["name"]] = r["invariants"]
        if r["violation"]:
            violations.append(r["violation"])
        if verbose and jobs != 0:
            print(f"[{r['name']}] {r['discharged']}/{r['obligations']} {r['secs']}s samples={r['samples_run']}/{r['samples_rejected']}", flush=True)
    rep["wall"] = time.time() - t0
    return rep, violations


def write_evidence(prop, rep, violations, tier, seed, known):
    pid = prop.pid
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=rep["obligations"], discharged=rep["discharged"],
            checker_cmd=f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier} --seed {seed}",
            trusted_base=TRUSTED + prop.assumptions,
            contracts=rep["contracts"],
            functions_under_contract=sorted(rep["functions"]),
            discharged_by={k: v for k, v in rep["by_backend"].items()},
            solver_seconds={k: round(v, 3) for k, v in rep["solver_time"].items()},
            solver_queries=rep["queries"],
            undecided=[list(map(str, u)) for u in rep["undecided"]],
            bounded_stand_ins=[list(map(str, u)) for u in rep["bounded"]],
            loop_invariants=rep["invariants"],
            traces_of_real_code=rep["traces"], jaxpr_equations=rep["eqns"], primitives=rep["prims"],
            concrete_cross_checks=rep["samples_run"], concrete_samples_rejected_by_precondition=rep["samples_rejected"],
            preconditions_without_concrete_witness=rep["vacuous"],
            known_findings=known,
            obligation_details=rep["details"],
        ),
        assumptions=TRUSTED + prop.assumptions, wall_s=round(rep["wall"], 3), violations=len(violations),
    )
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
