#!/usr/bin/env python3
"""
Systematic small changes to /repo's code (statement deleted, condition negated or forced, operator replaced, order of two
statements swapped, filter or exception dropped ...), each run against the checks of the function it is in. Reports the
changes that no check reports: each of them is either behaviour-preserving, outside of all properties, or a gap.

  mutate.py [--fn REGEX] [--jobs N] [--out FILE] [--list]
"""
import argparse
import ast
import concurrent.futures
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGETS = {
    "omemo/session_manager.py": [
        (r"create$", "C18 C19 C20 C26 C32 C23 C10"), (r"purge_backend", "C21 C19 C20"), (r"purge_bare_jid", "C22"),
        (r"__manage_signed_pre_key_rotation", "C23"), (r"ensure_data_consistency", "C24"),
        (r"update_device_list", "C13 C14 C15 C18 C32"), (r"refresh_device_list", "C13 C14 C18"),
        (r"set_trust", "C17 C16"), (r"replace_sessions", "C27 C02"), (r"get_sending_chain_length", "C34"),
        (r"set_own_label", "C25"), (r"__get_device_information", "C16 C17 C03 C02"),
        (r"get_own_device_information", "C16 C21"), (r"get_device_information", "C16"), (r"format_identity_key", "C31"),
        (r"history_sync", "C12 C10"), (r"__send_empty_message", "C11 C12"),
        (r"encrypt$", "C03 C01 C04 C05 C06 C02 C32"), (r"decrypt$", "C09 C10 C11 C08 C07 C12 C02"),
    ],
    "omemo/storage.py": [(r"Storage", "C28 C29"), (r"Just|Nothing", "C28 C29")],
    "omemo/identity_key_pair.py": [(r"", "C26")],
    "omemo/backend.py": [(r"__init__|max_num", "C30")],
    "examples/btbv_session_manager.py": [(r"", "C33")],
}


def is_log(node):
    return isinstance(node, ast.Expr) and "logging.getLogger" in ast.unparse(node)


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)


class Site:
    def __init__(self, what, line, apply):
        self.what, self.line, self.apply = what, line, apply


def bodies(node):
    for field in ("body", "orelse", "finalbody"):
        b = getattr(node, field, None)
        if isinstance(b, list) and b:
            yield field, b


def sites(fn):
    """All mutations of a function, as functions that modify the tree in place; the tree is re-parsed for each."""
    index = 0
    nodes = list(ast.walk(fn))
    for k, node in enumerate(nodes):
        if isinstance(node, ast.stmt):
            for field, body in bodies(node):
                for i, s in enumerate(body):
                    if is_log(s) or is_doc(s) or isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Pass)):
                        continue
                    if isinstance(s, ast.AnnAssign) and s.value is None:
                        continue
                    yield k, ("delete", field, i), f"delete: {ast.unparse(s)[:90]!r}", s.lineno
                    if i + 1 < len(body):
                        t = next((x for x in body[i + 1:] if not is_log(x)), None)
                        if t is not None and not isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            yield k, ("swap", field, i, body.index(t)), \
                                f"swap: {ast.unparse(s)[:50]!r} / {ast.unparse(t)[:50]!r}", s.lineno
                if len(body) > 0 and isinstance(node, (ast.For, ast.AsyncFor)) and field == "body":
                    yield k, ("break",), f"only first iteration: {ast.unparse(node)[:70]!r}", node.lineno
        if isinstance(node, (ast.If, ast.IfExp, ast.While)) and not (
                isinstance(node.test, ast.Constant)):
            for v in ("not", "True", "False"):
                yield k, ("test", v), f"condition {ast.unparse(node.test)[:80]!r} -> {v}", node.lineno
        if isinstance(node, ast.Compare) and len(node.ops) >= 1:
            for j, op in enumerate(node.ops):
                for new in {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
                            ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn],
                            ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(type(op), []):
                    yield k, ("op", j, new), f"{ast.unparse(node)[:80]!r} -> {new.__name__}", node.lineno
        if isinstance(node, ast.BoolOp):
            yield k, ("boolop",), f"{ast.unparse(node)[:80]!r}: and <-> or", node.lineno
            for j in range(len(node.values)):
                yield k, ("operand", j), f"{ast.unparse(node)[:80]!r}: drop operand {j}", node.lineno
        if isinstance(node, ast.BinOp):
            yield k, ("left",), f"{ast.unparse(node)[:80]!r} -> left", node.lineno
            yield k, ("right",), f"{ast.unparse(node)[:80]!r} -> right", node.lineno
        if isinstance(node, ast.Constant) and type(node.value) in (int, bool):
            for v in ([not node.value] if type(node.value) is bool else [node.value + 1, node.value - 1]):
                yield k, ("const", v), f"{node.value!r} -> {v!r}", node.lineno
        if isinstance(node, ast.comprehension):
            for j in range(len(node.ifs)):
                yield k, ("if", j), f"drop filter {ast.unparse(node.ifs[j])[:80]!r}", node.ifs[j].lineno
        if isinstance(node, ast.ExceptHandler) and isinstance(node.type, ast.Tuple):
            for j in range(len(node.type.elts)):
                yield k, ("except", j), f"don't catch {ast.unparse(node.type.elts[j])}", node.lineno
        if isinstance(node, ast.Call) and len(node.args) >= 1 and isinstance(node.func, ast.Name) and \
                node.func.id == "filter" and isinstance(node.args[0], ast.Lambda):
            yield k, ("nofilter",), f"drop {ast.unparse(node)[:80]!r}", node.lineno
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not isinstance(node.func, ast.Name):
            for j in range(len(node.args) - 1):
                yield k, ("args", j), f"swap arguments {j},{j + 1} of {ast.unparse(node)[:80]!r}", node.lineno
        index += 1


def mutate(fn, k, how):
    node = list(ast.walk(fn))[k]
    kind = how[0]
    if kind == "delete":
        body = getattr(node, how[1])
        body[how[2]] = ast.copy_location(ast.Pass(), body[how[2]])
    elif kind == "swap":
        body = getattr(node, how[1])
        body[how[2]], body[how[3]] = body[how[3]], body[how[2]]
    elif kind == "break":
        node.body.append(ast.Break())
    elif kind == "test":
        node.test = ast.UnaryOp(ast.Not(), node.test) if how[1] == "not" else ast.Constant(how[1] == "True")
    elif kind == "op":
        node.ops[how[1]] = how[2]()
    elif kind == "boolop":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "operand":
        del node.values[how[1]]
        if len(node.values) == 1:
            node.values.append(node.values[0])
    elif kind == "left":
        node.right = {ast.Sub: ast.parse("(type(%s)())" % "None").body[0].value}.get(type(node.op), node.right)
        raise_if = replace_with(fn, node, node.left)
    elif kind == "right":
        replace_with(fn, node, node.right)
    elif kind == "const":
        node.value = how[1]
    elif kind == "if":
        del node.ifs[how[1]]
    elif kind == "except":
        del node.type.elts[how[1]]
    elif kind == "nofilter":
        node.args[0] = ast.parse("lambda _x: True", mode="eval").body
    elif kind == "args":
        j = how[1]
        node.args[j], node.args[j + 1] = node.args[j + 1], node.args[j]


def replace_with(fn, old, new):
    class R(ast.NodeTransformer):
        def visit(self, node):
            if node is old:
                return new
            return self.generic_visit(node)
    R().visit(fn)


def functions(tree):
    out = []

    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                walk(c, prefix + [c.name])
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((".".join(prefix + [c.name]), c))
    walk(tree, [])
    return out


def all_mutants(fn_re):
    for path, table in TARGETS.items():
        with open(os.path.join(REPO, path)) as f:
            src = f.read()
        tree = ast.parse(src)
        for name, fn in functions(tree):
            checks = next((c for r, c in table if re.search(r, name)), None)
            if checks is None or not re.search(fn_re, name):
                continue
            if any("abstractmethod" in ast.unparse(d) for d in fn.decorator_list):
                continue
            for k, how, what, line in list(sites(fn)):
                yield path, src, name, k, how, what, line, checks.split()


def build(path, src, name, k, how):
    tree = ast.parse(src)
    fn = next(f for n, f in functions(tree) if n == name)
    mutate(fn, k, how)
    return ast.unparse(ast.fix_missing_locations(tree))


local = threading.local()
pool_lock = threading.Lock()
counter = [0]


def scratch():
    if not hasattr(local, "dir"):
        with pool_lock:
            counter[0] += 1
            local.dir = f"/tmp/mutants/{counter[0]}"
        shutil.rmtree(local.dir, ignore_errors=True)
        os.makedirs("/tmp/mutants", exist_ok=True)
        subprocess.run(["git", "clone", "-q", REPO, local.dir], check=True)
    return local.dir


def run_one(m, procs):
    path, src, name, k, how, what, line, checks = m
    d = scratch()
    try:
        text = build(path, src, name, k, how)
        compile(text, path, "exec")
    except Exception as e:  # noqa
        return "invalid", str(e)
    try:
        if text == ast.unparse(ast.parse(src)):
            return "same", ""
        with open(os.path.join(d, path), "w") as f:
            f.write(text)
        t = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                           cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "2 passed" not in t.stdout:
            return "tests", ""
        weird = ""
        for c in checks:
            r = subprocess.run(["timeout", "600", "python3-vt", "check.py", c, "--procs", str(procs)], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return "caught", c
            if r.returncode != 0:
                weird += f" {c}: exit {r.returncode} {r.stdout[-200:]!r}"
            elif "WARNING" in r.stdout:
                weird += f" {c}: " + next(l for l in r.stdout.splitlines() if "WARNING" in l)[:200]
        return "SURVIVED", weird
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--fn", default="")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--procs", type=int, default=2)
    ap.add_argument("--out", default="/tmp/mutants.log")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--shuffle", type=int, default=0)
    a = ap.parse_args()
    ms = list(all_mutants(a.fn))
    if a.shuffle:
        random.Random(a.shuffle).shuffle(ms)
    if a.list:
        for m in ms:
            print(m[2], m[6], m[5])
        print(len(ms))
        return
    tally = {}
    with open(a.out, "a") as out, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        futs = {ex.submit(run_one, m, a.procs): m for m in ms}
        for f in concurrent.futures.as_completed(futs):
            m = futs[f]
            verdict, detail = f.result()
            tally[verdict] = tally.get(verdict, 0) + 1
            out.write(f"{verdict} {m[2]}:{m[6]} {m[5]} {detail}\n")
            out.flush()
    print(tally)
    shutil.rmtree("/tmp/mutants", ignore_errors=True)


if __name__ == "__main__":
    main()
