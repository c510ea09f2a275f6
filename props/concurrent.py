"""Operations that concern different accounts, run at once: each has the outcome it has on its own."""

from .common import *  # noqa: F401,F403


QUIET = {"sup": True, "act": True, "bundleik": True, "kexfail": False, "bundle": 0}


def session_state(s: Any) -> Any:
    if s is None:
        return None
    lineage = s.lineage.split(":")[0] if s.lineage.startswith("active:") else s.lineage
    return (lineage, s.initiation, s.confirmed, s.received, s.sent, s.receiving_chain_length, s.sending_chain_length)


def lineage_of(ekm: Any) -> Any:
    return "active" if ekm.lineage.startswith("active:") else ekm.lineage


def message_of(m: Any) -> Any:
    return (m.namespace, m.bare_jid, m.device_id, m.content.empty, m.content.plaintext, frozenset(
        (k.bare_jid, k.device_id, lineage_of(k), kex is not None, kex is not None and kex.identity_key) for k, kex in m.keys
    ))


def device_of(d: Any) -> Any:
    return (d.bare_jid, d.device_id, d.identity_key, d.trust_level_name, d.label, frozenset(d.active), frozenset(d.namespaces))


class Setting:
    """One world per run, with the same symbolic attributes."""

    def __init__(self, ctx: Ctx, nss: List[str], ids: Dict[str, int], fixed: Any, other: Any, rcl: Any, more: int) -> None:
        self.ctx, self.nss, self.ids = ctx, nss, ids
        self.indecisive: Any = None
        w = self.w = World(ctx, nss)
        w.seed_own(5)
        self.devs = {}
        self.more: List[Dev] = []
        for jid, dev in ids.items():
            name = jid[:3]
            f = dict(fixed or {}, **(other if jid == CAROL else {}))
            self.devs[jid] = Dev(w, jid, dev, name, nss, known=f["known"] if "known" in f else ctx.flag(f"{name}.known"), fixed=f,
                                 label=f"label of {name}")
            put_list(w, jid, [5] * (jid == OWN) + [dev] + [21 + k for k in range(more)])
            for k in range(more):
                self.more.append(Dev(w, jid, 21 + k, f"{name}{k}", nss, known=True, fixed=dict(QUIET, level=0, sess=1)))
            for ns in nss:
                w.device_lists.setdefault((ns, OWN), {5: None})
                w.device_lists.setdefault((ns, jid), {})[dev] = f"label of {name}"
        attach(w, list(self.devs.values()) + self.more)
        w.next_chain_length = lambda s: rcl[s.jid]
        w.decrypt_fails = lambda ns, jid, dev, what: (
            "fails" if jid is not None and ctx.decide(ctx.flag(f"undecryptable.{jid[:3]}")) else None)

        async def decide(sm: Any, undecided: Any, identifier: Any) -> None:
            if self.indecisive is not None and ctx.decide(self.indecisive):
                return
            for d in undecided:
                await w.pause()
                level = f"decided.{d.bare_jid[:3]}"
                await sm.set_trust(d.bare_jid, d.identity_key, level)
        w.decide_trust = decide

    async def start(self, live: bool) -> Any:
        sm = await self.w.create(storage=self.w.storage(cache=False))
        if live:
            await sm.after_history_sync()
        self.w.log.clear()
        return sm

    def state(self, touched: Any) -> Any:
        """Everything durable or visible outside."""
        w = self.w
        disk = {}
        for key in touched:
            v = w.stored(key)
            disk[key] = "absent" if v is ABSENT else (
                tuple(sorted(v.items())) if type(v) is dict else tuple(sorted(v)) if type(v) is list else v)
        return {
            "stored data": disk,
            "sessions": {(ns, k): session_state(s) for ns in self.nss for k, s in w.sessions[ns].items() if s is not None},
            "published device lists": {k: dict(v) for k, v in w.device_lists.items()},
            "published bundles": {
                ns: getattr(w.bundles[(ns, OWN, 5)], "content", None) for ns in self.nss if (ns, OWN, 5) in w.bundles},
            "messages sent": sorted((repr(jid), repr(message_of(m))) for jid, m in w.outbox),
            "trust decisions asked for": sorted(
                (repr(identifier), repr(sorted(repr(device_of(d)) for d in ds))) for ds, identifier in w.trust_queries),
            "used pre keys": {ns: (w.prekeys[ns].hidden, sorted(w.prekeys[ns].deleted)) for ns in self.nss},
            "number of pre keys": {ns: w.prekeys[ns].visible for ns in self.nss},
        }

    def touched(self) -> Any:
        return {k for k, v in self.w.disk.items() if type(v) is not Lazy}


def operation(s: Setting, what: str, jid: str, tag: str = "") -> Any:
    """-> coroutine function: manager -> comparable outcome. tag: tells key exchanges and labels apart."""
    ctx, w = s.ctx, s.w
    dev = s.ids[jid]
    ns = s.nss[0]

    async def encrypt(sm: Any) -> Any:
        messages, errors = await sm.encrypt(frozenset({jid}), {n: b"to " + jid.encode() for n in s.nss}, None, "id of " + jid)
        return (
            frozenset(message_of(m) for m in messages),
            frozenset((e.namespace, e.bare_jid, e.device_id, type(e.exception).__name__) for e in errors)
        )

    async def decrypt(sm: Any) -> Any:
        kex = StubKex("received from " + jid + tag, s.devs[jid].ik) if what == "decrypt-kex" else None
        message = omemo.Message(ns, jid, dev, StubContent(w.uid(), False, b"from " + jid.encode()), frozenset({
            (StubEKM(w.uid(), OWN, 5, "received", None), kex)
        }))
        plaintext, device, _ = await sm.decrypt(message)
        return plaintext, device_of(device)

    async def update(sm: Any) -> Any:
        kind = ctx.choose(f"listed.{jid[:3]}", 3)
        await sm.update_device_list(ns, jid, [{dev: "new label of " + jid}, {}, {dev: None, 77: "new"}][kind])

    async def replace(sm: Any) -> Any:
        device = omemo.DeviceInformation(frozenset(s.nss), frozenset((n, True) for n in s.nss), jid, dev,
                                         s.devs[jid].ik, "whatever", None)
        return {n: type(e).__name__ for n, e in (await sm.replace_sessions(device)).items()}

    async def purge(sm: Any) -> Any:
        await sm.purge_bare_jid(jid)

    async def information(sm: Any) -> Any:
        return frozenset(device_of(d) for d in await sm.get_device_information(jid))

    async def trust(sm: Any) -> Any:
        await sm.set_trust(jid, s.devs[jid].ik, "set for " + jid)

    async def chain(sm: Any) -> Any:
        device = omemo.DeviceInformation(frozenset(s.nss), frozenset((n, True) for n in s.nss), jid, dev,
                                         s.devs[jid].ik, "whatever", None)
        return await sm.get_sending_chain_length(device)

    async def refresh(sm: Any) -> Any:
        await sm.refresh_device_lists(jid)

    async def label(sm: Any) -> Any:
        await sm.set_own_label("new own label" + tag)

    f = {
        "encrypt": encrypt, "decrypt": decrypt, "decrypt-kex": decrypt, "update": update, "replace": replace, "purge": purge,
        "information": information, "trust": trust, "chain": chain, "refresh": refresh, "label": label
    }[what]

    async def run(sm: Any) -> Any:
        try:
            return ("returned", await f(sm))
        except omemo.OMEMOException as e:
            named = sorted(getattr(e, "bare_jids", ()) or ())
            return ("raised", type(e).__name__, named)
        except StopIteration:
            return ("raised", "StopIteration", [])
        except RuntimeError as e:
            if "StopIteration" in str(e):
                return ("raised", "StopIteration", [])
            raise
    return run


def concurrent_scenario(ctx, props, ops=("encrypt", "encrypt"), nss=(NS_A,), same_ids=True, switches=1, live=True, fixed=None, other={}, ignore=(), more=0):
    nss = list(nss)
    ids = {BOB: 11, CAROL: 11 if same_ids else 12}
    rcl = {jid: ctx.int(f"rcl.{jid[:3]}", 0, 1000) for jid in ids}
    alone = Setting(ctx, nss, ids, fixed, other, rcl, more)
    both = Setting(ctx, nss, ids, fixed, other, rcl, more)

    async def run():
        sm = await alone.start(live)
        expected = [await operation(alone, what, jid)(sm) for what, jid in zip(ops, ids)]
        sm = await both.start(live)
        fs = [operation(both, what, jid) for what, jid in zip(ops, ids)]
        schedule = Schedule(ctx, switches)
        if ops[0] != ops[1]:
            schedule.turn = ctx.choose("first", 2)
        both.w.schedule = schedule
        outcome = await schedule.run([lambda f=f: f(sm) for f in fs])
        both.w.schedule = None
        ctx.outcome = f"{expected}"
        if schedule.switched:
            ctx.reach("interleaved")
        touched = alone.touched() | both.touched()
        states = alone.state(touched), both.state(touched)
        for prop in props:
            for k, what in enumerate(ops):
                ctx.check(prop, f"same outcome as on its own: {what}", outcome[k] == expected[k])
            for what in [x for x in states[0] if x not in ignore]:
                ctx.check(prop, f"same {what} as one after the other", states[0][what] == states[1][what])
    return run()




def jobs() -> Dict[str, List[Job]]:
    out: Dict[str, List[Job]] = {}

    def add(props: str, name: str, tier: str = "quick", **kw: Any) -> None:
        for p in props.split():
            out.setdefault(p, []).append(Job(f"at-once-{name}", concurrent_scenario, dict(props=props.split(), **kw), tier))
            out[p].append(Job(f"at-once-{name}-thrice", concurrent_scenario, dict(props=props.split(), switches=3, **kw), "thorough"))

    add("C01 C02 C03 C05 C06", "two-encryptions", ops=("encrypt", "encrypt"), fixed=dict(QUIET),
        other=dict(known=False, level=0, sess=0))
    add("C03 C06", "two-encryptions-for-several-devices", ops=("encrypt", "encrypt"), fixed=dict(QUIET, level=0, known=True),
        other=dict(sess=0), more=1)
    add("C02 C03 C05", "two-failing-encryptions", ops=("encrypt", "encrypt"),
        fixed=dict(QUIET, kexfail=None, sess=0, level=0), other=dict(known=False))
    add("C04", "two-trust-decisions", ops=("encrypt", "encrypt"), fixed=dict(QUIET, sess=3, known=True))
    add("C03 C09 C10 C11", "encryption-and-key-exchange", ops=("encrypt", "decrypt-kex"),
        fixed=dict(QUIET, level=0, sess=0), other=dict(sess=None, known=True))
    add("C02 C09", "two-key-exchanges", ops=("decrypt-kex", "decrypt-kex"), ignore=("published bundles", "number of pre keys"),
        fixed=dict(QUIET, level=0, sess=3, known=True), other=dict(known=False, sess=0))
    add("C07 C08 C09 C11", "two-decryptions", ops=("decrypt", "decrypt"), fixed=dict(QUIET, sess=3, known=True),
        other=dict(level=0))
    add("C13 C16", "two-list-updates", ops=("update", "update"), fixed=dict(QUIET, act=None))
    add("C13 C16", "information-and-refresh", ops=("information", "refresh"), fixed=dict(QUIET, bundle=None))
    add("C27", "two-replacements", ops=("replace", "replace"), fixed=dict(QUIET, kexfail=None, known=True, level=0),
        other=dict(sess=1))
    add("C27 C06", "replacement-and-encryption", ops=("replace", "encrypt"), fixed=dict(QUIET, level=0, kexfail=None, known=True),
        other=dict(kexfail=False))
    add("C22", "purge-and-encryption", ops=("purge", "encrypt"), fixed=dict(QUIET))
    add("C17", "trust-and-information", ops=("trust", "information"), fixed=dict(QUIET))
    add("C25", "label-and-encryption", ops=("label", "encrypt"), fixed=dict(QUIET, level=0))
    add("C34", "chain-and-decryption", ops=("chain", "decrypt"), fixed=dict(QUIET, level=0, known=True), other=dict(sess=3))
    return out


BOUNDS = ["two operations on different accounts at once, continued alternately, switching at any point (up to three times, at "
          "any points, in the thorough tier) where one of them waits"]
OUTSIDE = ["more than two operations at once", "concurrent operations on the same account or session, or that publish the "
           "same bundle or device list"]


def everything() -> List[Job]:
    seen: Dict[str, Job] = {}
    for js in jobs().values():
        for j in js:
            seen[j.name] = j._replace(params=dict(j.params, props=["C36"]))
    whats = ["encrypt", "decrypt", "decrypt-kex", "update", "replace", "purge", "information", "chain", "refresh"]
    for i, a in enumerate(whats):
        for b in whats[i + 1:]:
            known = a not in ("encrypt", "information") and b not in ("encrypt", "information")
            name = f"at-once-{a}-{b}"
            seen[name] = Job(name, concurrent_scenario, dict(
                props=["C36"], ops=(a, b), same_ids=True, fixed=dict(QUIET, level=0, sess=1),
                other=dict(known=known, sess=3)))
    return list(seen.values())


CHECKS = {p: Check(js, ["interleaved"], BOUNDS, OUTSIDE) for p, js in jobs().items()}
CHECKS["C36"] = Check(everything(), ["interleaved"], BOUNDS, OUTSIDE)
