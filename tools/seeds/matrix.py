#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or of all properties: --all) against a scratch copy with the bug."""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = "/tmp/seedmatrix"
everything = "--all" in sys.argv
only = [a for a in sys.argv[1:] if not a.startswith("--")]
table = {}
for bug in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    if only and bug not in only:
        continue
    d = os.path.join(ROOT, "seeded", bug)
    with open(os.path.join(d, "meta.json")) as f:
        prop = json.load(f)["property"]
    if os.path.exists(SCRATCH):
        shutil.rmtree("/tmp/seedmatrix")
    subprocess.run(["git", "clone", "-q", "/repo", SCRATCH], check=True)
    subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=SCRATCH, check=True)
    props = [f"C{n:02}" for n in range(1, 38) if n != 35] if everything else [prop]
    row = []
    for p in props:
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=SCRATCH),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        if hit or p == prop or r.returncode not in (0, 1):
            row.append(f"{p}:{'caught' if hit else r.returncode}")
        if p == prop and not hit or r.returncode not in (0, 1):
            print(r.stdout[-1500:])
    print(bug, prop, " ".join(row), flush=True)
shutil.rmtree("/tmp/seedmatrix", ignore_errors=True)
