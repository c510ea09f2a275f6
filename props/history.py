"""C12: history synchronization."""

from .common import *  # noqa: F401,F403


def history_scenario(ctx, steps=2, nss=(NS_A,), devices=((BOB, 1),), restarts=True, before=False, purge=False,
                     live_after=True, meanwhile=False, faults=0, replace=False, vanish=False,
                     cross_ids=False, crowd=0):
    """
    A sequence of ``steps`` messages decrypted in history synchronization mode, each from any device under any
    backend, with or without key exchange and with any chain length, interleaved with restarts, then the end of the
    synchronization. meanwhile: while the queued messages are processed, at any point, a key exchange of the last device
    arrives (which sent nothing before). faults: number of messages that can't be sent when the synchronization ends.
    vanish: the session with one of the devices may have disappeared when the synchronization ends.
    crowd: as many further devices, half of them of another account, which sent a message before.
    replace: sessions may be replaced before the synchronization ends.
    """
    w = World(ctx, list(nss))
    names = [f"{jid.split('@')[0]}{k}" for jid, n in devices for k in range(n)]
    jids = [jid for jid, n in devices for _ in range(n)]
    ids = device_ids(ctx, ["own_id"] + names, distinct=not cross_ids)
    if cross_ids:
        for k, jid in enumerate(jids):
            for other in [ids[0]] * (jid == OWN) + [ids[1 + i] for i in range(k) if jids[i] == jid]:
                ctx.assume(Not(eq(ids[1 + k], other)))
    own_id, ids = ids[0], ids[1:]
    apart(ctx, [own_id] + ids, crowd)
    for k in range(crowd):
        ids = ids + [CROWD + k]
        jids.append(CAROL if k % 2 else BOB)
        names.append(f"crowd{k}")
    w.seed_own(own_id)
    devs = [Dev(w, jids[k], ids[k], names[k], list(nss), ik=ik_of(k + 1), fixed={
        "sup": True, "act": True, "level": 2, "sess": 2, "kexfail": False, "bundle": 0, "bundleik": True
    }) for k in range(len(ids))]
    for jid in set(jids):
        put_list(w, jid, ([own_id] if jid == OWN else []) + [d.id for d in devs if d.jid == jid])
    attach(w, devs)
    w.device_list_init = lambda ns, jid: {own_id: None} if jid == OWN else {}
    step_rcl = {}
    w.next_chain_length = lambda session: step_rcl["now"]

    async def run():
        def start():
            return w.create()
        sm = await start()
        if before:
            # leave the initial synchronization, then enter it again explicitly
            await sm.after_history_sync()
            sm.before_history_sync()
            if ctx.decide(ctx.flag("before_twice")):
                sm.before_history_sync()
        for b in w.backends:
            w.bundles[(b.ns, OWN, own_id)] = b.local_bundle(OWN, own_id)
        w.log.clear()
        due = {(d, ns): [] for d in devs for ns in nss}
        hidden = {ns: [] for ns in nss}
        purged = set()
        for k, d in enumerate(devs[len(devs) - crowd:]):
            ns, step_rcl["now"] = nss[k % len(nss)], 60 if k % 3 == 0 else 2
            await sm.decrypt(omemo.Message(ns, d.jid, d.id, StubContent(1100 + k, True), frozenset({
                (StubEKM(1200 + k, OWN, own_id), StubKex(f"crowd{k}", d.ik) if k % 3 == 1 else None)})))
            due[(d, ns)].append(z3.BoolVal(k % 3 < 2))
            if k % 3 == 1:
                hidden[ns].append(f"passive:crowd{k}")
        for i in range(steps):
            d = devs[ctx.choose(f"step{i}.device", len(devs) - crowd - (1 if meanwhile else 0))]
            ns = nss[ctx.choose(f"step{i}.backend", len(nss))]
            with_kex = ctx.decide(ctx.flag(f"step{i}.kex"))
            chain = ctx.int(f"step{i}.rcl", 0)
            step_rcl["now"] = chain
            kex = StubKex(f"kex{i}", d.ik) if with_kex else None
            message = omemo.Message(ns, d.jid, d.id, StubContent(100 + i, True), frozenset({
                (StubEKM(200 + i, OWN, own_id), kex)
            }))
            try:
                await sm.decrypt(message)
            except omemo.NoSession:
                ctx.check("C12", "only a purged session is missing", (d.jid in purged) and kex is None)
                continue
            due[(d, ns)].append(Or(with_kex, num(chain) > 53))
            if with_kex:
                hidden[ns].append(f"passive:kex{i}")
            for lineage in hidden[ns]:
                ctx.check("C12", "used pre keys survive until the end of the synchronization",
                          lineage not in w.prekeys[ns].deleted)
            if restarts and ctx.decide(ctx.flag(f"step{i}.restart")):
                ctx.reach("restart")
                sm = await start()
            if purge and ctx.decide(ctx.flag(f"step{i}.purge")):
                ctx.reach("purge")
                await sm.purge_bare_jid(d.jid)
                purged.add(d.jid)
                for other in devs:
                    if other.jid == d.jid:
                        for n in nss:
                            due[(other, n)] = []
                # make the devices known again, otherwise no further message of them is accepted
                for n in nss:
                    for other in devs:
                        if other.jid == d.jid:
                            w.bundles[(n, other.jid, other.id)] = StubBundle(n, other.jid, other.id, other.ik, "content")
                    await sm.update_device_list(n, d.jid, {o.id: None for o in devs if o.jid == d.jid})
        ctx.check("C12", "nothing is sent while synchronizing", not w.outbox)
        if vanish:
            k = ctx.choose("vanished", len(devs))
            for ns in nss:
                w.sessions[ns][(devs[k].jid, devs[k].id)] = None
                due[(devs[k], ns)] = []
            ctx.reach("session vanished")
        if replace and ctx.decide(ctx.flag("replace")):
            info = [i for i in await sm.get_device_information(devs[0].jid) if ctx.decide(eq(i.device_id, devs[0].id))]
            await sm.replace_sessions(info[0])
            ctx.reach("session replaced")
            w.outbox.clear()
            w.log.clear()
        sessions_before = {ns: dict(w.sessions[ns]) for ns in nss}
        late = devs[-1]

        async def arrives():
            ctx.reach("arrived meanwhile")
            step_rcl["now"] = 1
            await sm.decrypt(omemo.Message(nss[0], late.jid, late.id, StubContent(800, True), frozenset({
                (StubEKM(801, OWN, own_id), StubKex("late", late.ik))
            })))
            due[(late, nss[0])].append(z3.BoolVal(True))
            hidden[nss[0]].append("passive:late")
            sessions_before[nss[0]][(late.jid, late.id)] = w.sessions[nss[0]][(late.jid, late.id)]._replace(sent=0)
        if meanwhile:
            when = ctx.int_term("meanwhile")
            if not ctx.concrete:
                ctx.assume(when >= 0)
            w.meanwhile = (when, arrives)
        w.fault_kinds = frozenset(["send_message"])
        w.fault_budget = faults
        error = None
        try:
            await sm.after_history_sync()
        except omemo.MessageSendingFailed as e:
            error = e
        w.meanwhile = None
        w.fault_budget = 0
        ctx.check("C12", "failures to send are reported", (error is not None) == (len(w.faults) > 0))
        if error is not None:
            ctx.reach("sending failed")
        for k, e in enumerate(w.log):
            if e[0] in ("send_message", "send_message_failed"):
                for ekm, _ in e[1].keys:
                    ctx.check("C06", "advanced session persisted before the empty message leaves", any(
                        x[0] == "store_session" and x[4].lineage == ekm.lineage
                        and x[4].sent == sessions_before[x[1]][(x[2], x[3])].sent + 1
                        for x in w.log[:k]))
        ctx.outcome = f"{len(w.outbox)} messages"
        ctx.reach(ctx.outcome)
        events = [e for e in w.log if e[0] == "send_message"]
        for d in devs:
            for ns in nss:
                mine = [m for _, m, to in events if m.namespace == ns and len(m.keys) == 1 and any(
                    ctx.decide(d.is_(e.bare_jid, e.device_id)) for e, _ in m.keys
                ) and to == d.jid]
                ctx.check("C12", "at most one empty message, for due sessions only", z3.IntVal(len(mine)) <= z3.If(
                    Or(*due[(d, ns)]), 1, 0
                ), f"{d.name} {ns}")
                if error is None:
                    ctx.check("C12", "exactly one empty message per due session", z3.IntVal(len(mine)) == z3.If(
                        Or(*due[(d, ns)]), 1, 0
                    ), f"{d.name} {ns}")
                for m in mine:
                    ctx.check("C12", "message header", And(eq(m.bare_jid, OWN), eq(m.device_id, own_id)))
                    ctx.check("C12", "empty message", m.content.empty)
                    ekm, kex = next(iter(m.keys))
                    was = sessions_before[ns].get((d.jid, d.id))
                    now = w.sessions[ns].get((d.jid, d.id))
                    ctx.check("C12", "encrypted with the stored session", was is not None and
                              ekm.lineage == was.lineage)
                    ctx.check("C12", "advanced session persisted", now is not None and was is not None and
                              now.lineage == was.lineage and now.sent == was.sent + 1)
                    unconfirmed = was is not None and was.initiation is Initiation.ACTIVE and not was.confirmed
                    ctx.check("C12", "key exchange attached iff active and unconfirmed",
                              (kex is not None) == unconfirmed)
        ctx.check("C12", "nothing else is sent", z3.IntVal(len(events)) + (1 if error else 0) <= count([
            Or(*terms) for terms in due.values()
        ]))
        for ns in nss:
            ctx.check("C12", "hidden pre keys are deleted at the end", not w.prekeys[ns].hidden_lineages and all(
                l in w.prekeys[ns].deleted for l in hidden[ns]
            ), ns)
        if error is None:
            ctx.check("C12", "nothing stays queued", not [k for k in w.disk if k.startswith("/queue")])
        # a second exit sends nothing again, also not after a restart
        before_count = len(w.outbox)
        sent_to = [(m.namespace, d) for _, m, _ in events for d in devs if any(
            ctx.decide(d.is_(e.bare_jid, e.device_id)) for e, _ in m.keys)]
        if ctx.decide(ctx.flag("restart_at_end")):
            sm = await start()
        await sm.after_history_sync()
        if error is None:
            ctx.check("C12", "nothing is sent twice", len(w.outbox) == before_count)
        for to, m in w.outbox[before_count:]:
            ctx.check("C12", "nothing is sent twice", not any(
                m.namespace == ns and ctx.decide(d.is_(e.bare_jid, e.device_id))
                for e, _ in m.keys for ns, d in sent_to))
            before_count = len(w.outbox)
        if live_after:
            d, ns = devs[0], nss[0]
            if d.jid not in purged:
                step_rcl["now"] = 1
                await sm.decrypt(omemo.Message(ns, d.jid, d.id, StubContent(900, True), frozenset({
                    (StubEKM(901, OWN, own_id), StubKex("live", d.ik))
                })))
                ctx.check("C12", "live behaviour after the synchronization", len(w.outbox) == before_count + 1 and
                          "passive:live" in w.prekeys[ns].deleted)
    return run()


JOBS = [
    Job("one-device-two-messages", history_scenario, dict(steps=2)),
    Job("one-device-three-messages", history_scenario, dict(steps=3, live_after=False), "thorough"),
    Job("two-devices", history_scenario, dict(steps=2, devices=((BOB, 2),))),
    Job("two-accounts", history_scenario, dict(steps=2, devices=((BOB, 1), (CAROL, 1)))),
    Job("many-devices-synchronizing", history_scenario, dict(steps=1, crowd=16, live_after=False)),
    Job("two-accounts-three-messages", history_scenario, dict(steps=3, devices=((BOB, 1), (CAROL, 1)),
                                                              live_after=False), "thorough"),
    Job("two-backends", history_scenario, dict(steps=2, nss=(NS_A, NS_B), devices=((BOB, 1),))),
    Job("own-account", history_scenario, dict(steps=2, devices=((OWN, 1), (BOB, 1)), live_after=False)),
    Job("explicit-synchronization", history_scenario, dict(steps=2, before=True)),
    Job("purged-meanwhile", history_scenario, dict(steps=2, devices=((BOB, 1), (CAROL, 1)), purge=True,
                                                   restarts=False)),
    Job("sessions-replaced", history_scenario, dict(steps=2, devices=((BOB, 2),), replace=True, restarts=False)),
    Job("message-arrives-meanwhile", history_scenario, dict(steps=1, devices=((BOB, 1), (CAROL, 1)), meanwhile=True,
                                                            restarts=False)),
    Job("messages-arrive-meanwhile", history_scenario, dict(steps=2, devices=((BOB, 2), (CAROL, 1)), meanwhile=True,
                                                            restarts=False, live_after=False)),
    Job("same-device-ids", history_scenario, dict(steps=2, devices=((BOB, 1), (CAROL, 1)), cross_ids=True, restarts=False)),
    Job("sending-fails", history_scenario, dict(steps=2, devices=((BOB, 1), (CAROL, 1)), faults=1, restarts=False)),
    Job("sending-fails-one-account", history_scenario, dict(steps=2, devices=((BOB, 2),), faults=2, restarts=False)),
    Job("session-vanishes", history_scenario, dict(steps=2, devices=((BOB, 2), (CAROL, 1)), vanish=True, restarts=False,
                                                   live_after=False)),
    Job("three-messages-one-account", history_scenario, dict(steps=3, devices=((BOB, 3),), restarts=False,
                                                             live_after=False)),
    Job("three-messages-three-devices", history_scenario, dict(steps=3, devices=((BOB, 2), (CAROL, 1)),
                                                               restarts=False, live_after=False)),
    Job("two-backends-two-accounts", history_scenario, dict(
        steps=3, nss=(NS_A, NS_B), devices=((BOB, 1), (CAROL, 1)), restarts=True, live_after=False), "thorough"),
]

CHECKS = {
    "C06": Check([j for j in JOBS if j.name in ("one-device-two-messages", "same-device-ids", "sending-fails", "sessions-replaced",
                                              "many-devices-synchronizing")], ["1 messages"],
                 ["sequences of up to 3 messages, or of one after 16 fixed ones"], ["other concurrent calls"]),
    "C12": Check(JOBS, ["0 messages", "1 messages", "2 messages", "restart", "purge", "sending failed", "session replaced", "arrived meanwhile", "session vanished"],
                 ["sequences of up to 3 messages of up to 3 devices under up to 2 backends, with restarts in between, or of one "
                  "message after those of 16 other devices"],
                 ["whether messages still queued when sending one failed are sent later", "other concurrent calls"])
}
