import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

NOTE = ("Each contract clause is an obligation generated from /repo's current source by executing it on symbolic "
        "values for a generic pixel (all grids) and discharged by z3/cvc5; real arithmetic, requires clauses on "
        "value ranges, axiomatised elementary functions, numpy element-wise semantics and numba are trusted; "
        "instances marked bounded in the evidence are not counted as proved; the same contracts are also validated "
        "at run time on the real code.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        q = {k: v for k, v in p.items() if k != "note"}
        f.write(json.dumps(q) + "\n")
checks = []
na = {q["property"] for q in getattr(props, "NA", [])}
for p in sorted(props.P, key=lambda p: p["id"]):
    if p["id"] in na:
        continue
    i = p["id"]
    checks.append(dict(
        property=i, quick_cmd=f"bash /verif/check.sh {i} quick", thorough_cmd=f"bash /verif/check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique="contract-based deductive verification (pre/postconditions on the real functions, VCs from the "
                  "current source discharged by SMT)",
        level="other" if i in props.BOUNDED else "proof", level_note=NOTE + (" Most obligations of this property are bounded instances or run-time "
                                   "contract checks of the real code." if i in props.BOUNDED else "")
        + (" " + p["note"] if p["note"] else "")))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks,
         not_applicable=getattr(props, "NA", []),
         notes="See DESIGN.md. known_findings.json lists repaired defects (fixed) and, if any, recorded ones (known).")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
