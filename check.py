"""Decide one property:  python3-vt check.py C01 [--tier quick|thorough] [--seed N]   |   check.py replay FILE

1. contracts: every obligation generated from /repo's current source for the functions this property depends on
   (python3-vt -m pyvc.run) must be discharged;
2. bounded stand-in: concrete search over case families (python3-vt -m oracle.core) for what no contract reaches,
   and for turning a failed obligation into a failing input.
"""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import subprocess
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_EXPERIMENT_REPO", "/repo"))  # only experiments set it
PY = "python3-vt"
ENV = {
    **os.environ,
    "PYTHONPATH": f"{HERE}:{REPO}/src:/opt/venv/lib/python3.12/site-packages",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
}
BUDGET = {"quick": (330, 300), "thorough": (3000, 3600)}  # seconds: contracts, search


def run_json(args, timeout):
    """(parsed last line of stdout or None, stderr tail)"""
    try:
        p = subprocess.run([PY, *args], cwd=HERE, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, f"timeout after {timeout} s: {str(e.stderr)[-400:]}"
    for line in reversed(p.stdout.splitlines()):
        try:
            return json.loads(line), p.stderr[-2000:]
        except ValueError:
            continue
    return None, f"exit {p.returncode}: {p.stderr[-2000:]}"


def write_replay(prop, data):
    d = HERE / "evidence" / "replay"
    d.mkdir(parents=True, exist_ok=True)
    text = json.dumps(data, indent=1, default=str, ensure_ascii=False)
    path = d / f"{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json"
    path.write_text(text)
    return path


def known_findings(prop):
    out = []
    f = HERE / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"known: property={prop} "):
                out.append(line[len("known: ") :])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.prop == "replay":
        d = json.loads(Path(a.file).read_text())
        if d.get("kind") == "obligation":
            r, err = run_json(["-m", "pyvc.run", d["property"], "quick", "--only", d["fn"]], 900)
            print(json.dumps(r, indent=1) if r else err)
            return 1 if r and any(o["status"] in ("failed", "refuted") for o in r["obligations"]) else 0
        mod = "pyvc.run" if d.get("family") == "contract" else "oracle.core"
        return subprocess.run([PY, "-m", mod, "replay", os.path.abspath(a.file)], cwd=HERE, env=ENV).returncode
    prop, tier = a.prop, a.tier
    t0 = time.time()
    cb, sb = BUDGET[tier]
    con = subprocess.Popen(
        [PY, "-m", "pyvc.run", prop, tier], cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    search, serr = run_json(["-m", "oracle.core", prop, tier, str(a.seed), str(sb * 0.8)], sb + 120)
    con_t = max(5.0, t0 + cb - time.time())
    try:
        out, cerr = con.communicate(timeout=con_t)
        proof = json.loads(out.splitlines()[-1])
    except Exception as e:  # engine failure: contracts undecided on this run, the bounded stand-in remains
        con.kill()
        proof = {"obligations": [], "functions": [], "assumptions": [], "error": f"{type(e).__name__}: {e}"}
        try:
            proof["error"] += " " + con.communicate(timeout=5)[1][-800:]
        except Exception:
            pass

    violation = None
    if search and search.get("fail"):
        violation = ("input", search["fail"])
    failed = sorted((o for o in proof["obligations"] if o["status"] in ("failed", "refuted")), key=lambda o: o["name"])
    escalated = None
    undecided = [o for o in proof["obligations"] if o["status"] not in ("proved", "bounded", "superseded")]
    if violation is None and not any(o.get("input") for o in failed) and (undecided or proof.get("suspects") or proof.get("error")):
        # a contract no longer holds (or is no longer decided) but no input shows it yet: search harder, from another seed
        left = min(sb if failed or proof.get("suspects") else sb / 2, 780 - (time.time() - t0)) if tier == "quick" else sb
        if left > 20:
            escalated, _ = run_json(["-m", "oracle.core", prop, "thorough", str(a.seed + 1000), str(left * 0.8)], left + 20)
            if escalated and escalated.get("fail"):
                violation = ("input", escalated["fail"])
    if violation is None:
        for o in failed:
            if o.get("input"):
                violation = ("input", {"property": prop, **o["input"]})
                break
    if violation is None and failed:
        violation = ("obligation", failed[0])

    obs = [o for o in proof["obligations"] if o["status"] not in ("bounded", "superseded")]
    proved = [o for o in obs if o["status"] == "proved"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": a.seed,
        "level": "proof" if proved else "exploration",
        "coverage": {
            "obligations": len(obs),
            "discharged": len(proved),
            "checker_cmd": f"{PY} -m pyvc.run {prop} {tier}",
            "trusted_base": proof.get("trusted_base", []),
            "functions_under_contract": proof.get("functions", []),
            "functions_bounded_only": proof.get("bounded_functions", []),
            "undischarged": [
                {"name": o["name"], "status": o["status"], "detail": str(o.get("detail", ""))[:300]}
                for o in proof["obligations"]
                if o["status"] != "proved"
            ],
            "escalated_search": escalated and {"evaluations": escalated["evaluations"]},
            "internal_contracts_contradicted": proof.get("suspects", []),
            "slowest_contracts": proof.get("slowest", []),
            "by_back_end": proof.get("by_back_end", {}),
            "solver_s": proof.get("solver_s", 0),
            "obligation_names": [o["name"] for o in obs],
            "engine_error": proof.get("error"),
            "load_errors": proof.get("load_errors", []),
            "functions_inlined_in_proofs": proof.get("inlined", []),
            "concrete_contract_cases": proof.get("concrete_cases", 0),
            "bounded": {
                "what": "concrete search over generated cases (never counted as proved)",
                "families": (search or {}).get("families", {}),
                "error": None if search else serr,
            },
            "evaluations": (search or {}).get("evaluations", 0),
            "distinct_nontrivial": (search or {}).get("distinct", 0),
            "rule": "cases are drawn per family from the seed; a case is counted once per distinct input; each compares the real code with an independent reference",
            "samples": (search or {}).get("samples", [])[:6],
        },
        "assumptions": proof.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    (HERE / "evidence").mkdir(exist_ok=True)
    (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str, ensure_ascii=False) + "\n")
    print(
        f"{prop} {tier}: {len(proved)}/{len(obs)} obligations discharged over {len(proof.get('functions', []))} functions, "
        f"{ev['coverage']['evaluations']} cases searched, {ev['wall_s']} s",
    )
    if not search:
        print(f"{prop}: the bounded search did not run: {serr[-300:]}")
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    if not violation:
        return 0
    kind, d = violation
    if kind == "input":
        path = write_replay(prop, {**d, "failed_obligations": [o["name"] for o in failed]})
        print(d["message"] if "message" in d else d)
        print(f"VIOLATION property={prop} replay={path}")
    else:
        path = write_replay(prop, {"kind": "obligation", "property": prop, "obligation": d["name"], "fn": d.get("fn"), "failed": [o["name"] for o in failed], "detail": d.get("detail"), "output": d})
        print(f"obligation {d['name']} of {d.get('fn')} is not discharged: {str(d.get('detail'))[:600]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    return 1


if __name__ == "__main__":
    sys.exit(main())
