import json
from pathlib import Path
here = Path(__file__).resolve().parents[1]
props = [json.loads(l) for l in (here/"properties.jsonl").read_text().splitlines() if l.strip()]
NOTE = ("Contracts on the functions of /repo this property depends on are discharged for all inputs from the current source "
        "(pyvc, z3); library calls, parser and file system are assumed contracts. What no contract reaches is covered by a "
        "bounded concrete search against an independent reference, labelled bounded in the evidence.")
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick",
        thorough_cmd=f"python3-vt check.py {i} --tier thorough",
        technique="function contracts on the real source, discharged by a VC generator over the Python AST with z3; bounded search for the remainder",
        level="proof", level_note=NOTE))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
  notes="No hooks in /repo. The engine reads /repo/src on every run; nothing is built outside /verif/evidence.")
(here/"MANIFEST.json").write_text(json.dumps(m, indent=1)+"\n")
