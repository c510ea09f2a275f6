#!/usr/bin/env python3
"""Runs single edits (ideas.py: name, checks, path, old, new) against the checks that should report them. run.py [-j N] [names]"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from ideas import IDEAS  # noqa: E402


def one(idea):
    name, checks, edits = idea
    d = f"/tmp/probe/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/probe", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    try:
        for path, old, new in edits:
            p = os.path.join(d, path)
            with open(p) as f:
                s = f.read()
            if s.count(old) != 1:
                return name, f"EDIT? {s.count(old)} matches of {old!r}"
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        t = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                           cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [] if "2 passed" in t.stdout else ["(tests fail)"]
        for c in checks.split():
            r = subprocess.run(["timeout", "850", "python3-vt", "check.py", c, "--procs", "3"], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                out.append(f"{c}:caught[" + next((l[12:90] for l in r.stdout.splitlines() if l.startswith("violated in")), "?") + "]")
            else:
                out.append(f"{c}:MISSED({r.returncode})" + (" WARNING" if "WARNING" in r.stdout else "") +
                           (r.stdout[-200:] if r.returncode else ""))
        return name, " ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


args = [a for a in sys.argv[1:] if not a.startswith("-")]
jobs = next((int(a[2:]) for a in sys.argv[1:] if a.startswith("-j")), 3)
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for fut in concurrent.futures.as_completed(
            [ex.submit(one, i) for i in IDEAS if not args or any(re.search(a, i[0]) for a in args)]):
        print(*fut.result(), flush=True)
