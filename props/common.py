"""Shared vocabulary of the scenarios: devices with symbolic attributes, session/bundle states, matching helpers."""

from typing import Any, Dict, List, Optional

import z3

from symx import env
from symx.engine import FALSE, FALSE_AST, TRUE_AST, And, Ctx, as_term, Iff, Implies, Not, Or, SymBytes, SymInt, eq, num
from symx.runner import Check, Job
from symx.world import (
    ABSENT, BOB, CAROL, NS_A, NS_B, NS_C, OWN, OWN_IK, UNDECIDED_NAME, Crash, Lazy, PreKeys, Schedule, Sess, StubBundle,
    StubContent, StubEKM, StubKex, StubPKM, World
)

import omemo
from omemo.session import Initiation

DAVE = "dave@example.org"
NS_D, NS_E = "urn:test:d", "urn:test:e"


def ik_of(k: int) -> bytes:
    return bytes([0x40 + k]) * 32


def symbolic_keys(ctx: Ctx, name: str) -> List[Any]:
    """Two arbitrary, different identity keys."""
    keys = [ctx.bytes(f"{name}.ik", 32), ctx.bytes(f"{name}.other_ik", 32)]
    ctx.assume(Not(eq(keys[0], keys[1])))
    return keys


def same_key(a: Any, b: Any) -> Any:
    return z3.BoolVal(True) if a is b else as_term(eq(a, b))


def b64(x: Any) -> Any:
    return env.urlsafe_b64encode(x).decode("ASCII")


def unb64(x: Any) -> Any:
    return env.urlsafe_b64decode(x.encode("ASCII"))


def device_ids(ctx: Ctx, names: List[str], distinct: bool = True) -> List[Any]:
    ids = [ctx.int(n, omemo.SessionManager.DEVICE_ID_MIN, omemo.SessionManager.DEVICE_ID_MAX) for n in names]
    if distinct and len(ids) > 1 and not ctx.concrete:
        ctx.assume(z3.Distinct(*[num(i) for i in ids]))
    return ids


class Dev:
    """A device of some account as recorded in the local storage, plus what the server has on it."""

    def __init__(self, w: World, jid: Any, dev_id: Any, name: str, nss: List[str], ik: Optional[bytes] = None,
                 known: Any = True, fixed: Any = None, trust_absent: bool = False, level_name: Optional[str] = None,
                 label: Any = None, other_ik: Optional[bytes] = None) -> None:
        ctx = w.ctx
        self.w, self.jid, self.id, self.name, self.nss = w, jid, dev_id, name, nss
        self.ik = ik if ik is not None else ik_of(sum(name.encode()) % 0x80)
        self.other_ik = other_ik if other_ik is not None else bytes([0x39]) * 31 + self.ik[:1]
        self.label = label
        fixed = fixed or {}
        self.fixed = fixed
        self.sup = {ns: self._flag(f"{name}.sup.{ns}", fixed.get("sup")) for ns in nss}
        self.act = {ns: self._flag(f"{name}.act.{ns}", fixed.get("act")) for ns in nss}
        self.known = known if isinstance(known, z3.BoolRef) else z3.BoolVal(known)
        self.bundle_status = {ns: self._int(f"{name}.bundle.{ns}", fixed.get("bundle")) for ns in nss}
        self.bundle_ik_same = {ns: self._flag(f"{name}.bundleik.{ns}", fixed.get("bundleik")) for ns in nss}
        self.sess = {ns: self._int(f"{name}.sess.{ns}", fixed.get("sess")) for ns in nss}
        self.kexfail = {ns: self._flag(f"{name}.kexfail.{ns}", fixed.get("kexfail")) for ns in nss}
        base = f"/devices/{jid}/{dev_id}"
        self.base = base
        w.put(f"{base}/namespaces", Lazy(lambda: [ns for ns in nss if ctx.decide(self.sup[ns])]))
        w.put(f"{base}/active", Lazy(lambda: {
            ns: ctx.decide(self.act[ns]) for ns in nss if ctx.decide(self.sup[ns])
        }))
        w.put(f"{base}/label", label)
        w.put(f"{base}/identity_key", Lazy(lambda: b64(self.ik) if ctx.decide(self.known) else ABSENT))
        self.level_name: Dict[bytes, str] = {}
        for key, suffix in ((self.ik, ""), (self.other_ik, "'")):
            trust_key = f"/trust/{jid}/{b64(key)}"
            if level_name is not None:
                lname = level_name
            else:
                lname = f"lvl.{name}{suffix}"
            self.level_name[key] = lname
            if trust_key in w.disk:
                # two devices that share one identity key share its trust level
                continue
            if "level" in fixed and level_name is None:
                w.level_term_by_name[lname] = z3.IntVal(fixed["level"])
            if trust_absent:
                absent = ctx.flag(f"{name}.trust_absent{suffix}")
                w.put(trust_key, Lazy(lambda a=absent, n=lname: ABSENT if ctx.decide(a) else n))
            else:
                w.put(trust_key, lname)

    def _flag(self, name: str, fixed: Any):
        return self.w.ctx.flag(name) if fixed is None else z3.BoolVal(fixed)

    def _int(self, name: str, fixed: Any):
        return self.w.ctx.int_term(name) if fixed is None else z3.IntVal(fixed)

    def is_(self, jid: Any, dev: Any):
        same = eq(self.jid, jid)
        return FALSE if same.ast.value == FALSE_AST else And(same, eq(self.id, dev))

    def record(self) -> Any:
        """The identity key on record at the moment (None: none)."""
        v = self.w.disk.get(f"{self.base}/identity_key", ABSENT)
        if type(v) is Lazy:
            return "untouched"
        return None if v is ABSENT else unb64(v)

    def listed(self):
        return True


SESS_NONE, SESS_ACTIVE_UNCONFIRMED, SESS_ACTIVE_CONFIRMED, SESS_PASSIVE = range(4)


def stored_session(kind: int, tag: str, kex_ik: bytes, rcl: Any = 1, scl: Any = 5) -> Optional[Sess]:
    if kind == SESS_NONE:
        return None
    kex = StubKex(f"stored:{tag}", kex_ik)
    if kind == SESS_PASSIVE:
        return Sess(f"stored:{tag}", Initiation.PASSIVE, True, kex, rcl, scl, 0, 0)
    return Sess(f"stored:{tag}", Initiation.ACTIVE, kind == SESS_ACTIVE_CONFIRMED, kex, rcl, scl, 0, 0)


def attach(w: World, devs: List[Dev]) -> None:
    """Let the stubs answer for these devices according to their symbolic attributes."""
    ctx = w.ctx

    def find(jid: Any, dev: Any) -> Optional[Dev]:
        for d in devs:
            if d.jid is jid or d.jid == jid:
                if d.id is dev:
                    return d
        for d in devs:
            if ctx.decide(d.is_(jid, dev)):
                return d
        return None
    w.find = find

    def session_init(ns: str, jid: Any, dev: Any) -> Optional[Sess]:
        d = find(jid, dev)
        if d is None or ns not in d.nss:
            return None
        return stored_session(pick(ctx, d.sess[ns], 4), f"{d.name}:{ns}", d.ik)

    def bundle_init(ns: str, jid: Any, dev: Any) -> Any:
        d = find(jid, dev)
        if d is None or ns not in d.nss:
            return "notfound"
        status = pick(ctx, d.bundle_status[ns], 3)
        if status == 1:
            return "fail"
        if status == 2:
            return "notfound"
        same = ctx.decide(d.bundle_ik_same[ns])
        return StubBundle(ns, jid, dev, d.ik if same else d.other_ik, ("bundle", d.name, ns))

    def kex_fails(ns: str, jid: Any, dev: Any, how: str) -> bool:
        d = find(jid, dev)
        return d is not None and ns in d.nss and ctx.decide(d.kexfail[ns])
    w.session_init = session_init
    w.bundle_init = bundle_init
    w.kex_fails = kex_fails


class Earlier:
    """
    The same manager has been in use before, when trust levels, activity and bundles were others: whatever it
    remembers of that must not matter. What changed since then did so through the API or on the server.
    """

    def __init__(self, w: World, devs: List[Dev], loaded: List[str], own_id: Any, what: str) -> None:
        """
        To be called once the devices are attached. what: how the bundles were then ("fail", "notfound" or "ok"), and
        what else was different ("trust", "lists").
        """
        bundles, *self.different = what.split()
        self.obtained = bundles == "ok"
        self.w, self.devs, self.loaded, self.own_id = w, devs, loaded, own_id
        ctx = w.ctx
        for d in devs:
            for key in d.level_name if "trust" in self.different else ():
                trust_key = f"/trust/{d.jid}/{b64(key)}"
                now = w.disk[trust_key]
                if type(now) is Lazy:
                    w.put(trust_key, Lazy(lambda now=now, d=d: ABSENT if now.make() is ABSENT else f"was.{d.name}"))
                else:
                    w.put(trust_key, f"was.{d.name}")
            if f"{d.base}/active" in w.disk and "lists" in self.different:
                w.put(f"{d.base}/active", Lazy(lambda d=d: {ns: True for ns in d.nss if ctx.decide(d.sup[ns])}))
        self.after = w.bundle_init, w.kex_fails, w.decide_trust, w.device_list_init
        if bundles != "ok":
            w.bundle_init = lambda ns, jid, dev: bundles
        else:
            def good(ns, jid, dev):
                d = w.find(jid, dev)
                return StubBundle(ns, jid, dev, d.ik, ("earlier bundle", d.name, ns))
            w.bundle_init = good
        w.kex_fails = lambda ns, jid, dev, how: False
        w.decide_trust = None
        w.device_list_init = lambda ns, jid: {}
        self.bundles, self.lists = dict(w.bundles), dict(w.device_lists)

    async def over(self, sm: Any) -> None:
        w, ctx = self.w, self.w.ctx
        w.bundle_init, w.kex_fails, w.decide_trust, w.device_list_init = self.after
        for table, before in ((w.bundles, self.bundles), (w.device_lists, self.lists)):
            for key in [k for k in table if k not in before and not (k[0] in w.namespaces and k[1:] == (OWN, self.own_id))]:
                del table[key]
        for d in self.devs:
            for key, level in d.level_name.items() if "trust" in self.different else ():
                if w.stored(f"/trust/{d.jid}/{b64(key)}") is not ABSENT:
                    await sm.set_trust(d.jid, key, level)
            d.sent, d.received = {}, {}
            if self.obtained and w.stored(f"{d.base}/identity_key") is not ABSENT:
                d.known = z3.BoolVal(True)
            for ns in self.loaded:
                table = w.sessions[ns]
                if (d.jid, d.id) in table:
                    s = table[(d.jid, d.id)]
                    d.sess[ns] = z3.IntVal(
                        SESS_NONE if s is None else SESS_PASSIVE if s.initiation is Initiation.PASSIVE else
                        SESS_ACTIVE_CONFIRMED if s.confirmed else SESS_ACTIVE_UNCONFIRMED)
                    d.sent[ns] = 0 if s is None else s.sent
                    d.received[ns] = 0 if s is None else s.received
        for ns in self.loaded if "lists" in self.different else ():
            for jid in dict.fromkeys(d.jid for d in self.devs):
                await sm.update_device_list(ns, jid, ({self.own_id: None} if jid == OWN else {}) | {
                    d.id: None for d in self.devs
                    if d.jid == jid and ns in d.nss and ctx.decide(And(d.sup[ns], d.act[ns]))})
        w.log.clear()
        w.trust_queries.clear()
        w.evaluations.clear()
        ctx.reach("in use before")


def pick(ctx: Ctx, term: Any, n: int) -> int:
    """Fork on the value of an integer term that ranges over [0, n)."""
    if not ctx.concrete:
        ctx.assume(z3.And(term >= 0, term < n))
    for k in range(n - 1):
        if ctx.decide(term == k):
            return k
    return n - 1


CROWD = 10000


def apart(ctx: Ctx, ids: List[Any], n: int) -> None:
    """The ids CROWD, CROWD + 1, ... belong to a crowd of n devices with fixed attributes."""
    for i in ids if not ctx.concrete else []:
        if type(i) is not int:
            ctx.assume(Or(num(i) < CROWD, num(i) >= CROWD + n))


def crowd_entries(ctx: Ctx, ids: List[Any], n: int) -> Dict[int, Optional[str]]:
    """Device list entries of a crowd."""
    apart(ctx, ids, n)
    return {CROWD + k: f"crowd label {k}" if k % 2 else None for k in range(n)}


def put_list(w: World, jid: Any, ids: List[Any]) -> None:
    w.put(f"/devices/{jid}/list", list(ids))


def count(terms: List[Any]):
    terms = [as_term(t) for t in terms]
    sure = sum(1 for t in terms if t.ast.value == TRUE_AST)
    left = [z3.If(t, 1, 0) for t in terms if t.ast.value not in (TRUE_AST, FALSE_AST)]
    return z3.Sum(left + [sure]) if left else z3.IntVal(sure)
