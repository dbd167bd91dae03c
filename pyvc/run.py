"""python3-vt -m pyvc.run PROP TIER [--only TARGET]     verify the contracts property PROP depends on
python3-vt -m pyvc.run replay FILE                      run one concrete contract case again"""
from __future__ import annotations

import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
from pathlib import Path

TRUSTED = [
    "z3 (python3-vt z3-solver)",
    "/verif/pyvc: translation of the Python AST of /repo's functions to verification conditions (generators are evaluated to completion or matched round by round against the specification, so interleaving of their effects with the consumer is dropped; machine floats are mathematical reals; dictionary iteration order is an uninterpreted function of the contents; recursion is assumed to terminate)",
    "assumed contracts of the standard library (listed in assumptions)",
]
JOBS = 5


def load_contracts():
    out, errs = [], []
    mods = [p.stem for p in sorted((Path(__file__).resolve().parents[1] / "contracts").glob("c_*.py"))]
    for m in mods:
        try:
            out += importlib.import_module("contracts." + m).CONTRACTS
        except Exception as e:  # the module of the code under contract changed shape: its contracts are undecided
            errs.append(f"{m}: {type(e).__name__}: {e}")
    return out, errs


STATE = {}  # filled before the workers are forked


def verify_one(target, dropped, budget, seed, tier):
    """One contract in a worker process; returns only plain data."""
    t0 = time.time()
    contracts = STATE["contracts"]
    c = next(c for c in contracts if c.target == target)
    r = dict(target=target, name=c.name, obls=[], queries=0, time=0.0, assumed=[], inlined=[], used=[], cases=0, suspect=None)
    mod = None
    try:
        from contracts import model as M

        from .contract import verify

        w = M.new_world(4000 if tier == "quick" else 15000)
        for d in contracts:
            if d.fn is not None and d.target not in dropped:
                w.contracts[d.fn] = d
        res, mod = verify(w, c, deadline=t0 + budget)
        r.update(queries=w.prover.stats["queries"], time=w.prover.stats["time"], assumed=sorted(w.assumed), inlined=sorted(w.inlined), used=sorted(w.used_contracts))
    except Exception as e:  # noqa: BLE001  outside the verifier's reach: undecided, never an alarm
        res = [(c.name, "unsupported", f"{type(e).__name__}: {str(e)[:300]}")]
    bad = [x for x in res if x[1] not in ("proved", "bounded")]
    for name, st, detail in res:
        r["obls"].append(dict(name=name, fn=target, status=st, detail=str(detail)))
    try:
        from . import concrete

        n = c.n_fuzz * (1 if tier == "quick" else 5) * (10 if bad else 1)
        msg, info = concrete.fuzz(c, n, seed, mod, deadline=time.time() + (10 if not bad else 30) * (1 if tier == "quick" else 3))
    except Exception as e:  # noqa: BLE001
        msg, info = None, 0
    if msg is None:
        r["cases"] = info
    elif c.internal:
        r["suspect"] = f"{target}: {msg}"
        for o in r["obls"]:
            if o["status"] == "proved":
                o["status"] = "unknown"
                o["detail"] = f"contradicted by a concrete case: {msg}"
    else:
        o = dict(name=f"{c.name}.concrete", fn=target, status="failed", detail=msg)
        o["input"] = dict(family="contract", target=target, message=f"{target}: {msg}", args=repr(info)[:2000], pickle=concrete.dump(info))
        r["obls"].append(o)
    r["wall"] = round(time.time() - t0, 2)
    return r


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def decide(prop, tier, only=None):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    contracts, errs = load_contracts()
    STATE["contracts"] = contracts
    by_name = {c.name: c for c in contracts}
    by_target = {c.target: c for c in contracts}
    t_end = time.time() + (270 if tier == "quick" else 1500)
    todo = [c.target for c in contracts if (only in (c.target, c.name) if only else prop in c.props)]
    done, dropped, rounds = {}, frozenset(), 0
    late = []
    with cf.ProcessPoolExecutor(JOBS, mp_context=mp.get_context("fork"), initializer=limit) as ex:
        while True:
            pending = {}
            seen = set(done)

            def submit(t):
                if t in seen or t not in by_target:
                    return
                seen.add(t)
                left = t_end - time.time()
                if left < 3:
                    late.append(t)
                    return
                b = by_target[t].budget or 60
                pending[ex.submit(verify_one, t, dropped, min(left, b if tier == "quick" else b * 4), seed, tier)] = t

            # slow ones first
            for t in sorted(todo, key=lambda t: -(by_target[t].budget or 0)):
                submit(t)
            try:
                while pending:
                    fin, _ = cf.wait(pending, timeout=max(1.0, t_end + 20 - time.time()), return_when=cf.FIRST_COMPLETED)
                    if not fin:
                        late += pending.values()
                        for p in list(getattr(ex, "_processes", {}).values()):
                            p.kill()
                        pending = {}
                        break
                    for fu in fin:
                        t = pending.pop(fu)
                        done[t] = fu.result()
                        for u in done[t]["used"]:
                            if u in by_name:
                                submit(by_name[u].target)
            except cf.process.BrokenProcessPool:
                late += pending.values()
                break
            new = {t for t, r in done.items() if by_target[t].internal and t not in dropped and any(o["status"] not in ("proved", "bounded") for o in r["obls"])}
            rounds += 1
            if not new or rounds > 3 or time.time() > t_end - 5 or late:
                break
            # an internal helper no longer meets its contract: its callers are verified against its body instead
            dropped = dropped | new
            names = {by_target[t].name for t in new}
            again = [t for t, r in done.items() if names & set(r["used"]) and t not in dropped]
            if not again:
                break
            for t in again:
                del done[t]
            todo = again
    obls, suspects = [], []
    for t in late:
        if t not in done:
            obls.append(dict(name=by_target[t].name, fn=t, status="unsupported", detail="out of time"))
    funcs, bounded = [], []
    for t, r in done.items():
        c = by_target[t]
        if r["suspect"]:
            suspects.append(r["suspect"])
        sts = {o["status"] for o in r["obls"]}
        for o in r["obls"]:
            if c.internal and o["status"] not in ("proved", "bounded", "failed"):
                o["detail"] = f"internal lemma ({o['status']}), its callers were verified against the body instead: {o['detail']}"
                o["status"] = "superseded"
            obls.append(o)
        if sts == {"proved"}:
            funcs.append(t)
        elif sts == {"bounded"}:
            bounded.append(t)
    notes = {n for t in done for n in ([by_target[t].note] if by_target[t].note else [])}
    return dict(
        obligations=obls,
        functions=sorted(funcs),
        bounded_functions=sorted(bounded),
        inlined=sorted({x for r in done.values() for x in r["inlined"]}),
        assumptions=sorted({"assumed contract: " + a for r in done.values() for a in r["assumed"]} | notes),
        trusted_base=TRUSTED,
        by_back_end={"z3 queries": sum(r["queries"] for r in done.values())},
        solver_s=round(sum(r["time"] for r in done.values()), 2),
        concrete_cases=sum(r["cases"] for r in done.values()),
        suspects=suspects,
        slowest=sorted(((r["wall"], t) for t, r in done.items()), reverse=True)[:5],
        load_errors=errs,
    )


def main(argv):
    if argv[0] == "replay":
        from . import concrete

        d = json.loads(Path(argv[1]).read_text())
        cs, _ = load_contracts()
        c = next(c for c in cs if c.target == d["target"])
        m = concrete.check_case(c, concrete.load(d["pickle"]))
        print(f"{d['target']}({d['args']}): {m}")
        return 1 if m not in (None, NotImplemented) else 0
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    print(json.dumps(decide(argv[0], argv[1], only), default=str))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
