"""Properties -> scenarios."""

import importlib
import pkgutil

ASSUMPTIONS = [
    "CPython 3.12 executes the code of /repo as it stands; z3 is trusted for the queries",
    "storage, XMPP server, trust callbacks and backends are nondeterministic stubs that follow the documented "
    "contracts of Storage, SessionManager and Backend",
    "stored data of earlier runs is given in the key layout that oldmemo's migrations write as well",
    "the text of a device id, bare JID or identity key inside a storage key is represented by one token per distinct "
    "value; bare JIDs contain no slash",
]


def merge(a, b):
    names = [j.name for j in a.jobs]
    assert not set(names) & {j.name for j in b.jobs}, "duplicate scenario"
    return a._replace(
        jobs=a.jobs + b.jobs,
        reach=a.reach + [r for r in b.reach if r not in a.reach],
        bounds=a.bounds + [x for x in b.bounds if x not in a.bounds],
        outside=a.outside + [x for x in b.outside if x not in a.outside],
        budget_quick=max(a.budget_quick, b.budget_quick),
        budget_thorough=max(a.budget_thorough, b.budget_thorough)
    )


def table():
    out = {}
    for m in sorted(m.name for m in pkgutil.iter_modules(__path__)):
        mod = importlib.import_module(f"props.{m}")
        for prop, check in getattr(mod, "CHECKS", {}).items():
            out[prop] = merge(out[prop], check) if prop in out else check
    return out


def load(prop: str):
    return table()[prop]
