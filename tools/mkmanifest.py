"""Writes MANIFEST.json from properties.jsonl and the specs present in vc/specs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = (
    "Every obligation is generated on each run from the jaxpr of the real functions and proved for all real-valued inputs "
    "and all iteration counts; array shapes, pytree structures and static configuration are those of the listed instances. "
    "Floating point is modelled as extended reals (exact on finite values, IEEE on NaN/inf). "
)
EXTRA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "vc", "specs", pid.lower() + ".py")):
        cmd = f"/opt/venv/bin/python /verif/check.py {pid}"
        checks.append(dict(
            property=pid, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough", evidence_file=f"evidence/{pid}.json",
            technique="contract-based deductive verification: verification conditions generated from the jaxpr of the real code, discharged by z3, cvc5 and a polynomial identity prover",
            level="proof", level_note=NOTE + EXTRA.get(pid, ""),
        ))
    else:
        na.append(dict(property=pid, reason="no contract written yet"))
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python /verif/check.py C01 --selftest",
    checks=checks, not_applicable=na,
    notes="All checks: check.py <id>. See DESIGN.md. known_findings.txt lists the defects found on the original tree.",
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
