"""Run every contract's concrete cases against the unchanged tree: nothing may fail.  python3-vt tools/fuzz_all.py [N] [SEED]"""
import logging
import sys

sys.path[:0] = ["/verif", "/repo/src", "/opt/venv/lib/python3.12/site-packages"]
from pyvc.concrete import fuzz  # noqa: E402
from pyvc.run import load_contracts  # noqa: E402

logging.disable(logging.CRITICAL)
cs, errors = load_contracts()
print(*errors)
n, seed = int(sys.argv[1]) if len(sys.argv) > 1 else 0, int(sys.argv[2]) if len(sys.argv) > 2 else 1
for c in cs:
    m, r = fuzz(c, n or c.n_fuzz, seed)
    print("FAILS" if m else "ok   ", c.target, m or f"{r} cases", "" if r else "(none)")
