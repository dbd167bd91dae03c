"""python3 tools/plant.py SPEC.py : create seeded/<id>/ from SPEC (ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS)
after confirming in a scratch copy that the tests pass with the change and the demo tells it apart."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path

def main(f):
    s = runpy.run_path(f)
    tmp = Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        wt = tmp / "repo"
        subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
        out = Path("/verif/seeded") / s["ID"]
        demo = s["DEMO"]
        d = tmp / "demo"; d.mkdir()
        (d / "demo.py").write_text(demo)
        (d / "demo.sh").write_text('#!/bin/bash\nexec env PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        def run_demo():
            p = subprocess.run(["bash", str(d / "demo.sh")], cwd=wt, capture_output=True, text=True, timeout=120)
            return p.returncode, (p.stdout + p.stderr)[-600:]
        r0 = run_demo()
        for file, old, new in s["EDITS"]:
            p = wt / "src/dynamicprompts" / file
            t = p.read_text()
            assert t.count(old) == 1, (file, old, t.count(old))
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(wt), "diff"], capture_output=True, text=True).stdout
        r1 = run_demo()
        env = {**os.environ, "PYTHONPATH": str(wt / "src")}
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=wt, env=env, capture_output=True, text=True, timeout=120)
        tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        ok = r0[0] == 0 and r1[0] != 0 and t.returncode == 0
        print(s["ID"], "OK" if ok else "REJECTED", "| clean", r0[0], r0[1] if r0[0] else "", "| bug", r1[0], r1[1][-200:].strip(), "| tests", tests)
        if not ok and "-f" not in sys.argv:
            print(t.stdout[-1500:] if t.returncode else "")
            return 1
        shutil.rmtree(out, ignore_errors=True); out.mkdir(parents=True)
        shutil.copy(d / "demo.py", out); shutil.copy(d / "demo.sh", out)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
