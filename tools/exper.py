"""python3 tools/exper.py LIST.py [ids...] [--par N]: for each (id, property, [(file, old, new), ...]) of LIST.MUT, copy /repo,
apply, run the tests and (if they pass) the property's check on the copy; one result line each."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

def one(m):
    mid, prop, edits = m[0], m[1], m[2]
    d = Path(f"/tmp/exp/{mid}")
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    try:
        for x in ("src", "tests", "pyproject.toml", "README.md"):
            subprocess.run(["cp", "-a", f"/repo/{x}", str(d / x)], check=False)
        for file, old, new in edits:
            p = d / "src/dynamicprompts" / file
            t = p.read_text()
            if t.count(old) != 1:
                return f"{mid} {prop} BAD-EDIT {file} count={t.count(old)}"
            p.write_text(t.replace(old, new))
        env = {**os.environ, "PYTHONPATH": str(d / "src"), "PYTHONDONTWRITEBYTECODE": "1"}
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=150)
        except subprocess.TimeoutExpired:
            return f"{mid} {prop} tests-timeout"
        if t.returncode and "-f" not in sys.argv:
            return f"{mid} {prop} tests-fail: " + " ".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:110]
        props = [prop] if isinstance(prop, str) else prop
        out = []
        for pr in props:
            if "--oracle" in sys.argv:  # bounded search alone, no contracts
                c = subprocess.run(["python3-vt", "-m", "oracle.core", pr, "quick", "1"], cwd="/verif", env={**env, "PYTHONPATH": f"/verif:{d}/src:/opt/venv/lib/python3.12/site-packages"}, capture_output=True, text=True)
                f = '"fail": null' in c.stdout
                out.append(f"{pr} {'oracle-MISSED' if f else 'oracle-caught'} {'' if f else c.stdout.strip()[-160:]} {c.stderr[-100:] if not c.stdout else ''}")
                continue
            c = subprocess.run(["python3-vt", "/verif/check.py", pr, "--tier", "quick"], env={**os.environ, "VERIF_EXPERIMENT_REPO": str(d), "VERIF_SEED": "1"}, capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{pr} rc={c.returncode} {'CAUGHT' if c.returncode == 1 and v and not v[0].endswith('no-failing-input-found') else 'weak' if v else 'MISSED'} {c.stdout.strip().splitlines()[-1][:230] if c.stdout.strip() else c.stderr[-200:]}")
        return f"{mid} " + " || ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    n = 2
    if "--par" in sys.argv:
        n = int(sys.argv[sys.argv.index("--par") + 1]); a.remove(str(n))
    muts = runpy.run_path(a[0])["MUT"]
    if a[1:]:
        muts = [m for m in muts if m[0] in a[1:]]
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, muts):
            print(r, flush=True)
