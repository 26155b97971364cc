from __future__ import annotations

import argparse
import importlib
import json
import os
import re
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    """known_findings.txt: committed, never written at run time.

    Lines `known: property=<id> obligation="<contract/obligation>" <what fails>`
    (lines starting with `fixed:` record repaired defects and are not read)."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\w+) obligation="([^"]*)" (.*)', line)
            if m:
                out.append(dict(property=m.group(1), obligation=m.group(2), what=m.group(3)))
    return out


def main(argv, repo):
    warnings.filterwarnings("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "0") or 0))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", action="append")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="test the verification condition generator itself")
    ap.add_argument("-j", type=int, default=None, help="worker processes (0: in this process)")
    a = ap.parse_args(argv)
    import jax

    jax.config.update("jax_enable_x64", True)
    import optimistix

    if not os.path.realpath(optimistix.__file__).startswith(os.path.realpath(repo) + os.sep):
        print(f"error: optimistix imported from {optimistix.__file__}, not {repo}")
        return 3
    from . import runner

    if a.selftest:
        from . import selftest

        return selftest.main(a.seed)
    mod = importlib.import_module(f"vc.specs.{a.pid.lower()}")
    prop = mod.prop
    assert prop.pid == a.pid
    if a.worker:
        return runner.worker(prop, a.tier, a.seed)
    known = [k for k in load_known() if k["property"] == a.pid]
    rep, violations = runner.verify(prop, a.tier, a.seed, a.only, a.v, a.j, {k["obligation"] for k in known})
    reported, shown = [], []
    for v in violations:
        hit = [k for k in known if k["obligation"] == v["obligation"]]
        if hit:
            shown.append(hit[0])
        else:
            reported.append(v)
    runner.write_evidence(prop, rep, reported, a.tier, a.seed, [k["what"] for k in shown])
    for k in shown:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    print(
        f"{a.pid}: {rep['discharged']}/{rep['obligations']} obligations discharged by {rep['by_backend']}, "
        f"{len(rep['functions'])} functions under contract, {rep['samples_run']} concrete cross-checks, {rep['wall']:.1f}s"
    )
    for u in rep["undecided"][:12]:
        print("undecided:", u[0], "--", str(u[1])[:300])
    if len(rep["undecided"]) > 12:
        print(f"undecided: ... and {len(rep['undecided']) - 12} more (see evidence)")
    if reported:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        v = sorted(reported, key=lambda q: not q["failing_input"])[0]
        path = os.path.join(VERIF, "evidence", f"{a.pid}.replay.json")
        with open(path, "w") as fh:
            json.dump(dict(property=a.pid, violations=reported, command=f"/opt/venv/bin/python /verif/check.py {a.pid} --seed {a.seed} --tier {a.tier} -v"), fh, indent=1, default=str)
        for q in reported:
            print("failed obligation:", q["obligation"], "—", q["how"])
        tail = "" if v["failing_input"] else " no-failing-input-found"
        print(f"VIOLATION property={a.pid} replay={path}{tail}")
        return 1
    if rep["errors"]:
        for e in rep["errors"]:
            print("error:", e)
        return 3
    return 0
