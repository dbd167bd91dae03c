"""Bounded concrete search: deterministic case families per property, run against the code in /repo."""
from __future__ import annotations

import concurrent.futures as cf
import json
import logging
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

FAMS: dict = {}
CASE_CPU_S = 20


class Skip(Exception):
    """The case does not apply to this tree (e.g. an internal helper no longer exists)."""


class Hang(BaseException):
    pass


class Fam:
    def __init__(self, prop, name, gen, run, quick, thorough, chunk):
        self.prop, self.name, self.gen, self.run = prop, name, gen, run
        self.quick, self.thorough, self.chunk = quick, thorough, chunk


def family(prop, gen, quick=200, thorough=3000, chunk=50):
    def deco(run):
        for p in [prop] if isinstance(prop, str) else prop:
            FAMS[(p, run.__name__)] = Fam(p, run.__name__, gen, run, quick, thorough, chunk)
        return run

    return deco


def load():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from . import fams_gen, fams_jinja, fams_large, fams_parse, fams_post, fams_text, fams_wild  # noqa: F401


def _on_alarm(*_):
    raise Hang()


def run_case(fam, case):
    """None if fine, else a message."""
    from . import ref

    ref.STEPS[0] = 0
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return fam.run(case)
    except Skip:
        return None
    except Hang:
        return f"no result within {CASE_CPU_S} s of CPU time"
    except MemoryError:
        return "ran out of memory"
    except Exception as e:
        return "unexpected " + "".join(traceback.format_exception_only(type(e), e)).strip() + " at " + _where(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])


def mkcase(fam, seed, i):
    rng = random.Random(f"{seed}/{fam.prop}/{fam.name}/{i}")
    return fam.gen(rng, i)


def work(args):
    prop, name, seed, lo, hi, deadline = args
    fam = FAMS[(prop, name)]
    n, keys, nontriv = 0, set(), 0
    sample = None
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        case = mkcase(fam, seed, i)
        if case is None:
            continue
        n += 1
        keys.add(hash(json.dumps(case, sort_keys=True, default=str)))
        msg = run_case(fam, case)
        if sample is None:
            sample = case
        if msg:
            return {"n": n, "keys": list(keys), "sample": sample, "fail": {"family": name, "property": prop, "index": i, "case": case, "message": msg}}
    return {"n": n, "keys": list(keys), "sample": sample, "fail": None}


def init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    load()


def search(prop, tier, seed, jobs=6, budget_s=None, scale=1):
    load()
    budget_s = budget_s or (150 if tier == "quick" else 1500)
    deadline = time.time() + budget_s
    tasks = []
    for (p, name), f in FAMS.items():
        if p != prop:
            continue
        n = f.quick * 4 * scale if tier == "quick" else f.thorough * scale
        for lo in range(0, n, f.chunk):
            tasks.append((prop, name, seed, lo, min(n, lo + f.chunk), deadline))
    out = {"families": {}, "evaluations": 0, "distinct": 0, "samples": [], "fail": None}
    keys = {}
    try:
        with cf.ProcessPoolExecutor(jobs, initializer=init) as ex:
            futs = {ex.submit(work, t): t for t in tasks}
            for fu in cf.as_completed(futs):
                t = futs[fu]
                if fu.cancelled():
                    continue
                r = fu.result()
                d = out["families"].setdefault(t[1], {"cases": 0})
                d["cases"] += r["n"]
                out["evaluations"] += r["n"]
                keys.setdefault(t[1], set()).update(r["keys"])
                if r["sample"] is not None and t[3] == 0:
                    out["samples"].append({"family": t[1], "case": r["sample"]})
                if r["fail"] and (out["fail"] is None):
                    out["fail"] = r["fail"]
                    for o in futs:
                        o.cancel()
    except cf.process.BrokenProcessPool:
        out["broken"] = True
    out["distinct"] = sum(len(k) for k in keys.values())
    return out


def replay(path):
    load()
    d = json.load(open(path))
    fam = FAMS[(d["property"], d["family"])]
    msg = run_case(fam, d["case"])
    print(msg or "no failure")
    return 1 if msg else 0


if __name__ == "__main__":
    from oracle import core as _c  # single module identity for the families registry

    if sys.argv[1] == "replay":
        sys.exit(_c.replay(sys.argv[2]))
    r = _c.search(sys.argv[1], sys.argv[2], int(sys.argv[3]), budget_s=float(sys.argv[4]) if len(sys.argv) > 4 else None)
    print(json.dumps(r, default=str))
