#!/usr/bin/env python3
"""Applies the bundles of refactors.py to scratch copies, runs the tests there, and all checks: all have to be quiet."""
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import BUNDLES  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
for _f in sorted(os.listdir(HERE)):
    if _f.endswith(".diff"):
        BUNDLES[_f[:-5]] = os.path.join(HERE, _f)
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
KEEP = "--keep" in sys.argv
props = [a for a in args if a.startswith("C")] or [f"C{n:02}" for n in range(1, 38) if n != 35]
for name in [a for a in args if not a.startswith("C")] or BUNDLES:
    scratch = f"/tmp/refactor-{name}"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", scratch], check=True)
    if isinstance(BUNDLES[name], str):
        subprocess.run(["git", "apply", BUNDLES[name]], cwd=scratch, check=True)
    for path, old, new in [] if isinstance(BUNDLES[name], str) else BUNDLES[name]:
        p = os.path.join(scratch, path)
        with open(p) as f:
            s = f.read()
        assert s.count(old) == 1, (name, path, s.count(old), old)
        with open(p, "w") as f:
            f.write(s.replace(old, new))
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "tests"], cwd=scratch, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=scratch))
    print(name, "tests", r.returncode, r.stdout.strip().splitlines()[-1] if r.returncode == 0 else r.stdout[-2000:])
    for p in props:
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=scratch),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "-v" in sys.argv:
            print(name, p, "exit", r.returncode, f"{time.time() - t:.0f} s", r.stdout[-800:], flush=True)
        elif time.time() - t > 120 or "WARNING" in r.stdout or " 0 fallback" not in r.stdout:
            print(name, p, f"{time.time() - t:.0f} s", r.stdout[-300:].strip(), flush=True)
    print(name, "done", flush=True)
    if not KEEP:
        shutil.rmtree(scratch)
