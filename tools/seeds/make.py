#!/usr/bin/env python3
"""
Builds /verif/seeded/<id>/ from bugs.py, and confirms each one in a scratch copy: applies, builds, stable tests pass, demo passes
without and fails with the patch. python3 make.py [ids...]
"""
import json
import os
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
SCRATCH = "/tmp/seedscratch"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from bugs import BUGS  # noqa: E402

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
DEMO = """#!/bin/bash
# exit 0 iff the property holds in this history
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    only = sys.argv[1:]
    bad = 0
    for bug in BUGS:
        if only and bug["id"] not in only:
            continue
        if os.path.exists(SCRATCH):
            shutil.rmtree("/tmp/seedscratch")
        subprocess.run(["git", "clone", "-q", "/repo", SCRATCH], check=True)
        for path, old, new in bug["edits"]:
            p = os.path.join(SCRATCH, path)
            with open(p) as f:
                text = f.read()
            assert text.count(old) == 1, (bug["id"], path, text.count(old), old)
            with open(p, "w") as f:
                f.write(text.replace(old, new))
        patch = sh("git diff", SCRATCH).stdout
        out = os.path.join(ROOT, "seeded", bug["id"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(patch)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write("from harness import *\n\n\nasync def demo():\n" + textwrap.indent(
                textwrap.dedent(bug["demo"]).strip("\n"), "    ") + "\n\n\nrun(demo)\n")
        shutil.copy(os.path.join(HERE, "harness.py"), os.path.join(out, "harness.py"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
        tests = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3", SCRATCH)
        withp = sh(f"bash {out}/demo.sh", SCRATCH)
        sh("git checkout -q -- .", SCRATCH)
        without = sh(f"bash {out}/demo.sh", SCRATCH)
        ok = "2 passed" in tests.stdout and withp.returncode != 0 and without.returncode == 0
        last = withp.stdout.strip().splitlines()[-1:] or [""]
        print(("ok   " if ok else "BAD  ") + bug["id"], "| with:", withp.returncode, last[0][:100])
        if not ok:
            bad = 1
            print(tests.stdout[-600:], "\nWITHOUT:", without.returncode, without.stdout[-1500:])
    shutil.rmtree("/tmp/seedscratch", ignore_errors=True)
    return bad


if __name__ == "__main__":
    sys.exit(main())
