"""
Runs the scenarios of one property on all cores, writes the evidence file and prints the verdict.

Exit status: 0 held on everything explored; 1 violation (with a VIOLATION line); 2 no answer (solver unknown,
counterexample that does not reproduce, time limit, vacuous scenario).
"""

import argparse
import collections
import importlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback
from typing import Any, Callable, Dict, List, NamedTuple, Optional, Tuple

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")


class Job(NamedTuple):
    """One bounded exploration: a scenario function plus its configuration."""

    name: str
    fn: Callable[..., Any]
    params: Dict[str, Any]
    tier: str = "quick"            # "quick": both tiers, "thorough": only the thorough tier


class Check(NamedTuple):
    jobs: List[Job]
    reach: List[str]               # labels that have to be reached by some feasible path (vacuity guard)
    bounds: List[str]
    outside: List[str]
    budget_quick: int = 780        # seconds; exceeding it is "no answer", never success
    budget_thorough: int = 3600


# -- which functions of /repo were executed ------------------------------------------------------------------

FUNCTIONS: set = set()


def track_functions(repo: str) -> None:
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    prefix = os.path.realpath(repo) + "/"

    def started(code, _offset):
        fn = code.co_filename
        if fn.startswith(prefix):
            FUNCTIONS.add(f"{fn[len(prefix):]}:{code.co_qualname}")
        return mon.DISABLE
    mon.use_tool_id(tool, "symx")
    mon.register_callback(tool, mon.events.PY_START, started)
    mon.set_events(tool, mon.events.PY_START)


# -- workers ---------------------------------------------------------------------------------------------------

def known_matcher(known: List[Dict[str, str]], prop: str):
    entries = [e for e in known if e.get("status") == "known" and e["property"] == prop]

    def match(job: str, label: str, detail: str) -> Optional[Dict[str, str]]:
        for e in entries:
            if re.fullmatch(e["scenario"], job) and re.fullmatch(e["label"], label) and (
                re.search(e.get("detail", ""), detail)
            ):
                return e
        return None
    return match


def worker(conn, prop: str, jobs: List[Job], known: List[Dict[str, str]], validate_every: int) -> None:
    from . import engine
    explorers: Dict[int, engine.Explorer] = {}
    match = known_matcher(known, prop)
    while True:
        task = conn.recv()
        if task is None:
            break
        index, prefixes, max_paths, slice_s = task
        job = jobs[index]
        if index not in explorers:
            if len(explorers) > 6:
                explorers.clear()
            explorers[index] = engine.Explorer(
                (lambda j: lambda ctx: j.fn(ctx, **j.params))(job), prop, validate_every
            )
            explorers[index].is_known = (lambda j: lambda l, d: match(j.name, l, d))(job)
        ex = explorers[index]
        ex.stats = engine.Stats()
        ex.violations, ex.unreproduced, ex.inconclusive, ex.samples = [], [], [], []
        ex.known_hits = []
        ex.wants_eager = 0
        t0 = time.monotonic()
        try:
            left = ex.explore(prefixes, max_paths, t0 + slice_s)
            conn.send({
                "job": index,
                "left": left,
                "eager": ex.wants_eager,
                "stats": ex.stats,
                "violations": [(v.label, v.detail, v.values) for v in ex.violations],
                "unreproduced": ex.unreproduced,
                "inconclusive": ex.inconclusive,
                "known": ex.known_hits,
                "samples": ex.samples,
                "functions": sorted(FUNCTIONS),
                "cpu": time.monotonic() - t0,
            })
        except BaseException:  # pylint: disable=broad-except
            conn.send({"job": index, "error": traceback.format_exc()})
    conn.close()


class Outcome:
    def __init__(self) -> None:
        from . import engine
        self.stats = engine.Stats()
        self.per_job: Dict[str, Any] = {}
        self.violations: List[Tuple[int, str, str, Dict[str, Any]]] = []
        self.unreproduced: List[Any] = []
        self.inconclusive: List[str] = []
        self.known: List[Any] = []
        self.samples: List[Any] = []
        self.functions: set = set()
        self.errors: List[str] = []
        self.timeout = False
        self.eager: Dict[str, int] = {}


def explore_all(prop: str, jobs: List[Job], known, budget: float, procs: int, validate_every: int) -> Outcome:
    from . import engine
    out = Outcome()
    mp = multiprocessing.get_context("fork")
    queue = collections.deque((i, [([], {}, 0)]) for i in range(len(jobs)))
    eager = [0] * len(jobs)  # how many kinds of values of the scenario are plain representatives
    workers = []
    for _ in range(procs):
        parent, child = mp.Pipe()
        p = mp.Process(target=worker, args=(child, prop, jobs, known, validate_every), daemon=True)
        p.start()
        child.close()
        workers.append([p, parent, False])
    deadline = time.monotonic() + budget
    stop = False
    per = {i: {"paths": 0, "cpu_s": 0.0} for i in range(len(jobs))}
    try:
        while True:
            if time.monotonic() > deadline:
                out.timeout = True
                break
            idle = [w for w in workers if not w[2]]
            while queue and queue[0][1][0][2] < eager[queue[0][0]]:
                queue.popleft()
            for w in idle:
                if not queue or stop:
                    break
                index, prefixes = queue.popleft()
                hungry = len(queue) < 2 * procs
                w[1].send((index, prefixes, 100000, 0.25 if hungry else 1.5))
                w[2] = True
            busy = [w for w in workers if w[2]]
            if not busy:
                break
            ready = multiprocessing.connection.wait(
                [w[1] for w in busy], timeout=max(0.05, deadline - time.monotonic())
            )
            for w in busy:
                if w[1] not in ready:
                    continue
                try:
                    res = w[1].recv()
                except EOFError:
                    out.errors.append("a worker died")
                    w[2] = False
                    stop = True
                    continue
                w[2] = False
                if "error" in res:
                    out.errors.append(res["error"])
                    stop = True
                    continue
                i = res["job"]
                out.stats.merge(res["stats"])
                per[i]["paths"] += res["stats"].paths
                per[i]["cpu_s"] += res["cpu"]
                out.functions.update(res["functions"])
                out.inconclusive.extend(f"{jobs[i].name}: {x}" for x in res["inconclusive"])
                out.unreproduced.extend((i,) + tuple(x) for x in res["unreproduced"])
                out.known.extend((i,) + tuple(x) for x in res["known"])
                for s in res["samples"]:
                    if "fallback" in s and sum("fallback" in x for x in out.samples) < 5 or len(out.samples) < 8:
                        out.samples.append(dict(s, scenario=jobs[i].name))
                for label, detail, values in res["violations"]:
                    out.violations.append((i, label, detail, values))
                if out.violations:
                    stop = True
                left = res["left"]
                if res["eager"] > eager[i] and not stop:
                    # start over with plain values; what is under way with symbolic ones is dropped
                    eager[i] = res["eager"]
                    queue.append((i, [([], {}, eager[i])]))
                left = [x for x in left if x[2] == eager[i]]
                if left and not stop:
                    parts = min(len(left), procs if len(queue) < 2 * procs else 2)
                    size = (len(left) + parts - 1) // parts
                    for k in range(0, len(left), size):
                        queue.append((i, left[k:k + size]))
    finally:
        for w in workers:
            try:
                if w[2]:
                    w[0].terminate()
                else:
                    w[1].send(None)
            except OSError:
                pass
        for w in workers:
            w[0].join(timeout=2)
            if w[0].is_alive():
                w[0].kill()
    out.eager = {jobs[i].name: e for i, e in enumerate(eager) if e}
    for i, d in per.items():
        out.per_job[jobs[i].name] = {"paths": d["paths"], "cpu_s": round(d["cpu_s"], 2)}
    return out


# -- command line ------------------------------------------------------------------------------------------------

def load_known() -> List[Dict[str, str]]:
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return json.load(f)


def jsonable(x: Any) -> Any:
    return json.loads(json.dumps(x, default=str))


def main(argv: Optional[List[str]] = None) -> int:
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--job", help="regular expression: only these scenarios (development aid)")
    p.add_argument("--procs", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    p.add_argument("-v", action="store_true")
    args = p.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()

    from . import env
    track_functions(env.REPO)
    import props
    check = props.load(args.property)
    from . import engine

    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            data = json.load(f)
        job = next(j for j in check.jobs if j.name == data["scenario"])
        ex = engine.Explorer(lambda ctx: job.fn(ctx, **job.params), args.property)
        failed, outcome, err = ex.replay(data["values"])
        for _, label, detail in failed:
            print(f"failed: {label} {detail}")
        print(f"outcome: {outcome}; error: {err!r}")
        if failed:
            print(f"VIOLATION property={args.property} replay={args.replay}")
            return 1
        return 0

    jobs = [j for j in check.jobs if tier == "thorough" or j.tier == "quick"]
    partial = False
    if args.job:
        jobs = [j for j in check.jobs if re.search(args.job, j.name)]
        partial = True
    known = load_known()
    budget = check.budget_quick if tier == "quick" else check.budget_thorough
    out = explore_all(args.property, jobs, known, budget, args.procs, 7 if tier == "quick" else 23)
    wall = time.monotonic() - t0
    st = out.stats

    missing = [] if partial or out.violations else [
        l for l in check.reach if not st.reach.get(l) and not (st.unconfirmed + st.fallback_paths and st.replay_reach.get(l))
    ]
    verdict = 0
    reasons = []
    if out.violations:
        verdict = 1
    else:
        if out.errors:
            reasons.append("internal error: " + out.errors[0].strip())
        if out.timeout:
            reasons.append("time limit")
        if out.inconclusive:
            reasons.append(f"inconclusive: {out.inconclusive[0]} (and {len(out.inconclusive) - 1} more)")
        if missing:
            reasons.append(f"vacuity guard: never reached {missing}")
        if not st.assertions:
            reasons.append("no assertion was reached")
        if reasons:
            verdict = 2

    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    replay_path = None
    if out.violations:
        i, label, detail, values = out.violations[0]
        replay_path = os.path.join(EVIDENCE, "replays", f"{args.property}.json")
        with open(replay_path, "w", encoding="utf-8") as f:
            json.dump({"property": args.property, "scenario": jobs[i].name, "label": label, "detail": detail,
                       "values": jsonable(values)}, f, indent=1)

    evidence = {
        "property": args.property,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": st.paths,
            "transitions": st.decisions,
            "traces_validated_against_impl": st.validated,
            "samples": jsonable(out.samples),
            "exhaustive": verdict == 0 and not (st.fallback_paths or st.sampled or st.unconfirmed),
            "explanation": "states = feasible symbolic paths of the real code explored to their end; "
                           "transitions = branch decisions taken on symbolic terms; each path ends in one solver "
                           "query over all values that take it; traces_validated = paths replayed with plain "
                           "Python values",
            "queries_feasibility": st.feasibility_queries,
            "queries_assertion": st.assertion_queries,
            "assertions_discharged": st.assertions,
            "solver_s": round(st.solver_s, 2),
            "forks": st.forks,
            "longest_path_decisions": st.max_decisions,
            "infeasible_or_out_of_bounds_paths": st.aborted,
            "concretisations": st.concretisations,
            "concretisations_with_unexplored_values": st.sampled,
            "paths_whose_counterexample_no_concrete_run_reproduced": st.unconfirmed,
            "scenarios_repeated_with_plain_values": out.eager,
            "fallback_paths_decided_by_concrete_replay_only": st.fallback_paths,
            "functions_encoded": sorted(out.functions),
            "scenarios": out.per_job,
            "reach": dict(sorted(st.reach.items())),
            "outcomes": dict(sorted(st.outcomes.items())),
            "bounds": check.bounds,
            "outside_the_claim": check.outside,
            "known_findings_hit": len(out.known),
            "verdict": ["held", "violated", "no answer"][verdict],
            "reasons": reasons,
        },
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(out.violations),
    }
    with open(os.path.join(EVIDENCE, f"{args.property}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)

    for key in sorted({(jobs[k[0]].name, k[1], k[2]) for k in out.known}):
        print(f"KNOWN-FINDING: property={args.property} {key[0]}: {key[1]} {key[2]}")
    if args.v:
        print(json.dumps({k: v for k, v in evidence["coverage"].items() if k not in ("samples", "functions_encoded")},
                         indent=1))
    print(f"{args.property} {tier}: {st.paths} paths, {st.assertion_queries} assertion queries, "
          f"{st.feasibility_queries} feasibility queries, {st.solver_s:.1f} s solver, {st.validated} replays, "
          f"{st.fallback_paths} fallback, wall {wall:.1f} s")
    for k, label, what, values in out.unreproduced[:3]:
        print(f"WARNING: {jobs[k].name}: {label}: {what} on the real code; the path counts as decided by its concrete "
              f"runs only")
    if verdict == 1:
        i, label, detail, values = out.violations[0]
        print(f"violated in {jobs[i].name}: {label} {detail}")
        print(f"VIOLATION property={args.property} replay={replay_path}")
    elif verdict == 2:
        for r in reasons:
            print("NO ANSWER: " + r)
    return verdict
