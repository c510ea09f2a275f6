"""C21 - C25, C27, C34: purging, rotation of signed pre keys, consistency with the server, labels, sessions."""

import asyncio

from .common import *  # noqa: F401,F403
from .setup import find_key, listed, published_bundle, EXPECTED_FAILURES
from .devices import label_choice, label_eq


def same_entries(ctx, server, entries, more):
    """The list has exactly these entries plus ``more`` others."""
    hits = [(find_key(ctx, server, d), l) for d, l in entries.items()]
    return And(len(server) == len(entries) + more, all(len(h) == 1 for h, _ in hits), *[
        label_eq(x, l) for h, l in hits for x in h])


# -- C21 ------------------------------------------------------------------------------------------------------------

def purge_backend_scenario(ctx, nss=(NS_A, NS_B), mode="plain", loaded=True, crowd=0):
    """
    purge_backend for a loaded backend, or for one that isn't loaded but recorded. mode: plain / crash / fault.
    """
    target = NS_A
    w = World(ctx, list(nss))
    own_id, other, bob = device_ids(ctx, ["own_id", "other", "bob"])
    w.seed_own(own_id, [other], label="own label")
    for jid, dev, ik in ((OWN, other, ik_of(1)), (BOB, bob, ik_of(2))):
        w.put(f"/devices/{jid}/{dev}/namespaces", list(nss))
        w.put(f"/devices/{jid}/{dev}/active", {ns: True for ns in nss})
        w.put(f"/devices/{jid}/{dev}/label", None)
        w.put(f"/devices/{jid}/{dev}/identity_key", b64(ik))
        w.put(f"/trust/{jid}/{b64(ik)}", "trusted")
    put_list(w, BOB, [bob])
    w.level_term_by_name["trusted"] = z3.IntVal(0)
    before = {}
    for ns in nss:
        before[ns] = {other: label_choice(ctx, f"other.label.{ns}")} if ctx.decide(
            ctx.flag(f"other.listed.{ns}")) else {}
        before[ns].update(crowd_entries(ctx, [own_id, other], crowd))
        lst = dict(before[ns])
        if ctx.decide(ctx.flag(f"own.listed.{ns}")):
            lst[own_id] = "own label"
        w.device_lists[(ns, OWN)] = lst
        w.bundles[(ns, OWN, own_id)] = StubBundle(ns, OWN, own_id, OWN_IK, ("published", ns))
    w.session_init = lambda ns, jid, dev: stored_session(SESS_PASSIVE, f"{ns}", ik_of(2))

    async def run():
        sm = await w.create()
        # the first half of the sessions is loaded (and thereby fixed) before
        for b in w.backends:
            await b.load_session(BOB, bob)
        if not loaded:
            # the namespace is recorded for this device, but no backend for it is loaded: purge it twice
            await sm.purge_backend(target)
            w.bundles[(target, OWN, own_id)] = StubBundle(target, OWN, own_id, OWN_IK, ("published", target))
            w.device_lists[(target, OWN)] = dict(before[target])
            if ctx.decide(ctx.flag("relisted")):
                w.device_lists[(target, OWN)][own_id] = "own label"
        infos_bob = await sm.get_device_information(BOB)
        info_before, others_before = await sm.get_own_device_information()
        lists0 = {ns: dict(w.device_lists[(ns, OWN)]) for ns in nss}
        bundles0 = dict(w.bundles)
        w.log.clear()

        def invariant():
            # listed implies usable: bundle online, private data there
            if listed(ctx, w, target, own_id):
                ctx.check("C21", "never listed without a bundle", published_bundle(
                    ctx, w, target, own_id) is not None)
                ctx.check("C21", "never listed without the private data", not [
                    e for e in w.log if e[0] == "purge"])
            for ns in nss:
                if ns != target:
                    ctx.check("C21", "other backends online data untouched", w.device_lists[(ns, OWN)] == lists0[ns]
                              and all(w.bundles.get(k) is b for k, b in bundles0.items() if k[0] == ns))

        if mode == "crash":
            w.crash_term = ctx.int_term("crash_point")
            if not ctx.concrete:
                ctx.assume(w.crash_term >= 0)
            try:
                await sm.purge_backend(target)
                w.crash_term = None
            except Crash:
                w.crash_term = None
                ctx.reach("crashed")
                invariant()
                ctx.outcome = "crashed"
                # the next run loads the other backend only: the purge is completed
                sm = await w.create(namespaces=[ns for ns in nss if ns != target])
                ctx.check("C21", "next run without the backend completes the removal from the list",
                          not listed(ctx, w, target, own_id))
                info, _ = await sm.get_own_device_information()
                ctx.check("C21", "next run without the backend completes the local removal", info.namespaces ==
                          frozenset(ns for ns in nss if ns != target))
                return
        elif mode == "fault":
            w.fault_kinds = frozenset(["download_device_list", "upload_device_list", "delete_bundle",
                                       "storage_store"])
            w.fault_budget = 1
            try:
                await sm.purge_backend(target)
            except EXPECTED_FAILURES:
                ctx.reach(f"failed: {w.faults[0]}")
                invariant()
                if w.faults[0] in ("download_device_list", "upload_device_list"):
                    now, _ = await sm.get_own_device_information()
                    ctx.check("C21", "failure before the removal has no effect", now == info_before and not [
                        e for e in w.log if e[0] in ("purge", "delete_bundle", "upload_device_list", "store",
                                                     "delete")])
                w.fault_budget = 0
                await sm.purge_backend(target)
            w.fault_budget = 0
        else:
            await sm.purge_backend(target)

        ctx.reach("purged")
        invariant()
        ctx.check("C21", "not listed", not listed(ctx, w, target, own_id))
        server = w.device_lists[(target, OWN)]
        ctx.check("C21", "entries of other devices kept", same_entries(ctx, server, before[target], 0))
        ctx.check("C21", "bundle deleted", published_bundle(ctx, w, target, own_id) is None)
        if mode == "plain":
            deletion = [k for k, e in enumerate(w.log) if e[0] == "delete_bundle"]
            upload = [k for k, e in enumerate(w.log) if e[0] == "upload_device_list"]
            ctx.check("C21", "list before bundle", all(u < d for u in upload for d in deletion))
        purges = [e for e in w.log if e[0] == "purge"]
        ctx.check("C21", "private data of exactly this backend purged", [e[1] for e in purges] == (
            [target] if loaded else []))
        info, others_after = await sm.get_own_device_information()
        rest = frozenset(ns for ns in nss if ns != target)
        ctx.check("C21", "own device information", info.namespaces == rest and dict(info.active) == {
            ns: True for ns in rest
        } and info.label == info_before.label and info.identity_key == OWN_IK)
        ctx.check("C21", "other devices unaffected", others_after == others_before and
                  await sm.get_device_information(BOB) == infos_bob)
        # the backend is gone, the others work
        try:
            await sm.update_device_list(target, BOB, {bob: None})
            ctx.fail("C21", "purged backend is unloaded (update)")
        except omemo.UnknownNamespace:
            pass
        try:
            await sm.decrypt(omemo.Message(target, BOB, bob, StubContent(1, True), frozenset({
                (StubEKM(2, OWN, own_id), StubKex("kex", ik_of(2)))})))
            ctx.fail("C21", "purged backend is unloaded (decrypt)")
        except omemo.UnknownNamespace:
            pass
        if rest:
            await sm.update_device_list(NS_B, BOB, {bob: None})
            for key in ((NS_B, BOB, bob), (NS_B, OWN, other)):
                w.bundles[key] = StubBundle(key[0], key[1], key[2], ik_of(2) if key[1] == BOB else ik_of(1), "x")
            messages, _ = await sm.encrypt(frozenset({BOB}), {NS_A: b"a", NS_B: b"b"})
            ctx.check("C21", "encryption uses the remaining backends", [m.namespace for m in messages] == [NS_B])
    return run()


def remove_two_scenario(ctx, again=(NS_B, NS_C)):
    """A start without two recorded versions (their online data is purged) fails somewhere; the next start loads one
    of them again (or both remaining removed)."""
    nss = (NS_A, NS_B, NS_C)
    w = World(ctx, list(nss))
    own_id, other = device_ids(ctx, ["own_id", "other"])
    w.seed_own(own_id, [other], label="own label")
    w.put(f"/devices/{OWN}/{other}/namespaces", list(nss))
    w.put(f"/devices/{OWN}/{other}/active", {ns: True for ns in nss})
    w.put(f"/devices/{OWN}/{other}/label", None)
    w.put(f"/devices/{OWN}/{other}/identity_key", b64(ik_of(1)))
    for ns in nss:
        w.device_lists[(ns, OWN)] = {own_id: "own label", other: "its label"}
        w.bundles[(ns, OWN, own_id)] = StubBundle(ns, OWN, own_id, OWN_IK, ("published", ns))
    w.fault_kinds = frozenset(["download_device_list", "upload_device_list", "delete_bundle"])
    w.fault_budget = 1

    async def run():
        try:
            await w.create(namespaces=[NS_C])
        except EXPECTED_FAILURES:
            ctx.reach("removal failed")
        w.fault_budget = 0
        sm = await w.create(namespaces=list(again))
        ctx.reach("purged")
        own, others = await sm.get_own_device_information()
        ctx.check("C21", "remaining versions are kept", own.namespaces == frozenset(again))
        ctx.check("C21", "activity of the remaining versions is kept", dict(own.active) == {ns: True for ns in again})
        ctx.check("C21", "label and identity key kept", own.label == "own label" and own.identity_key == OWN_IK)
        ctx.check("C21", "other devices unaffected", len(others) == 1 and all(
            o.namespaces == frozenset(nss) and dict(o.active) == {ns: True for ns in nss} for o in others))
        for ns in nss:
            ctx.check("C21", "exactly the removed versions are taken off the lists", listed(ctx, w, ns, own_id) == (
                ns in again), ns)
            ctx.check("C21", "entries of other devices kept", len(find_key(ctx, w.device_lists[(ns, OWN)], other)) == 1)
            if ns in again:
                ctx.check("C21", "bundle of remaining versions online", published_bundle(
                    ctx, w, ns, own_id) is not None, ns)
        ctx.check("C21", "no private data purged", not [e for e in w.log if e[0] == "purge"])
    return run()


# -- C22 ------------------------------------------------------------------------------------------------------------

def purge_jid_scenario(ctx, nss=(NS_A,), devices=1, queued=True, shared_key=False, restart=True,
                       extra_ns=(), own_key=False, crowd=0, used=False):
    """
    purge_bare_jid of an account with any recorded state, next to other accounts. used: the same manager encrypts for
    the account before that, and again when it has come back.
    """
    gone, stay = BOB, BOB + "x"
    w = World(ctx, list(nss))
    names = [f"gone{k}" for k in range(devices)]
    ids = device_ids(ctx, ["own_id"] + names, distinct=True)
    own_id, gone_ids = ids[0], ids[1:]
    devices += crowd
    apart(ctx, ids, crowd)
    gone_ids = gone_ids + [CROWD + k for k in range(crowd)]
    stay_id = ctx.int("stay", 1, 2 ** 31 - 1)       # may be the same number as a device id of the other account
    w.seed_own(own_id)
    keys = [OWN_IK if own_key and k == 0 else ik_of(1 if shared_key else k + 1) for k in range(devices)]
    known = [ctx.flag(f"{n}.known") for n in names] + [z3.BoolVal(True)] * crowd
    for k, dev in enumerate(gone_ids):
        recorded = list(nss) + list(extra_ns)
        supports = {ns: ctx.flag(f"gone{k}.sup.{ns}") if extra_ns else z3.BoolVal(True) for ns in recorded}
        is_active = {ns: ctx.flag(f"gone{k}.act.{ns}") if k < len(names) else z3.BoolVal(k % 2 == 0) for ns in recorded}
        w.put(f"/devices/{gone}/{dev}/namespaces", Lazy(
            lambda s=supports: [ns for ns in s if ctx.decide(s[ns])]))
        w.put(f"/devices/{gone}/{dev}/active", Lazy(
            lambda s=supports, a=is_active: {ns: ctx.decide(a[ns]) for ns in s if ctx.decide(s[ns])}))
        w.put(f"/devices/{gone}/{dev}/label", f"label{k}")
        w.put(f"/devices/{gone}/{dev}/identity_key", Lazy(
            lambda k=k: b64(keys[k]) if ctx.decide(known[k]) else ABSENT))
    for key in set(keys):
        w.put(f"/trust/{gone}/{b64(key)}", "verified")
        w.put(f"/trust/{stay}/{b64(key)}", "verified")
    w.level_term_by_name["verified"] = z3.IntVal(0)
    if ctx.decide(ctx.flag("listed")):
        put_list(w, gone, gone_ids)
    else:
        for k in range(devices):
            for key in ("namespaces", "active", "label", "identity_key"):
                w.disk.pop(f"/devices/{gone}/{gone_ids[k]}/{key}")
        for key in set(keys):
            w.disk.pop(f"/trust/{gone}/{b64(key)}")
        gone_ids = []
    w.put(f"/devices/{stay}/{stay_id}/namespaces", list(nss))
    w.put(f"/devices/{stay}/{stay_id}/active", {ns: True for ns in nss})
    w.put(f"/devices/{stay}/{stay_id}/label", "stays")
    w.put(f"/devices/{stay}/{stay_id}/identity_key", b64(keys[0]))
    put_list(w, stay, [stay_id])
    w.session_init = lambda ns, jid, dev: stored_session(SESS_PASSIVE, f"{jid}", keys[0], rcl=1)
    chain = {"n": 1}
    w.next_chain_length = lambda session: chain["n"]
    w.bundle_init = lambda ns, jid, dev: "notfound"

    async def run():
        sm = await w.create()
        w.device_lists.update({(ns, OWN): {own_id: None} for ns in nss})
        for b in w.backends:
            w.bundles[(b.ns, OWN, own_id)] = b.local_bundle(OWN, own_id)
        due = []
        if queued:
            # messages that want an answer at the end of the synchronization
            chain["n"] = 60
            todo = [(stay, stay_id)] + [(gone, dev) for k, dev in enumerate(gone_ids) if ctx.decide(And(
                known[k], ctx.flag(f"gone{k}.queued") if k < len(names) else k % 3 > 0))]
            for n, (jid, dev) in enumerate(todo):
                for ns in nss:
                    await sm.decrypt(omemo.Message(ns, jid, dev, StubContent(500 + n, True), frozenset({
                        (StubEKM(600 + n, OWN, own_id), None)})))
                if jid == gone:
                    ctx.reach("queued")
        for b in w.backends:
            await b.load_session(stay, stay_id)
        infos_stay = await sm.get_device_information(stay)
        infos_own = await sm.get_own_device_information()
        stay_sessions = {ns: w.sessions[ns].get((stay, stay_id)) for ns in nss}
        async def use():
            try:
                await sm.encrypt({gone}, {ns: b"text" for ns in nss})
            except omemo.NoEligibleDevices:
                pass
        if used:
            await sm.get_device_information(gone)
            await use()
        w.log.clear()
        await sm.purge_bare_jid(gone)
        if restart and ctx.decide(ctx.flag("restart")):
            sm = await w.create()
        ctx.reach("purged")
        infos = await sm.get_device_information(gone)
        ctx.check("C22", "no device is known any more", not infos)
        for ns in nss:
            ctx.check("C22", "sessions purged in every backend", len([
                e for e in w.log if e[0] == "purge_bare_jid" and e[1] == ns and e[2] == gone]) == 1, ns)
            ctx.check("C22", "no other account's sessions purged", not [
                e for e in w.log if e[0] == "purge_bare_jid" and e[2] != gone], ns)
        ctx.check("C22", "other account unaffected", await sm.get_device_information(stay) == infos_stay)
        ctx.check("C22", "own account unaffected", await sm.get_own_device_information() == infos_own)
        ctx.check("C22", "other account's sessions unaffected", all(
            w.sessions[ns].get((stay, stay_id)) is stay_sessions[ns] for ns in nss))
        ctx.check("C22", "nothing is published or sent", not [e for e in w.log if e[0].startswith(
            ("upload", "send", "delete_bundle"))])
        # end of the synchronization: nothing is sent to the purged account, everything due to the other one
        for key, value in w.disk.items():
            # (trust in a key that was never recorded for a device is not part of the claim)
            unrecorded = Or(*[And(key.endswith(b64(ik)), *[
                Not(known[j]) for j in range(devices) if keys[j] == ik]) for ik in set(keys)])
            ctx.check("C22", "nothing about the account is left in storage", Or(
                unrecorded, gone not in key.split("/") and not (type(value) in (list, dict) and gone in value)
                and value != gone), key)
        # (a new session with one of its devices may have been built since)
        fresh = ctx.decide(ctx.flag("new_session"))
        for ns in nss:
            for dev in gone_ids:
                w.sessions[ns][(gone, dev)] = stored_session(
                    SESS_ACTIVE_UNCONFIRMED, "new", keys[0]) if fresh else None
        await sm.after_history_sync()
        for ns in nss:
            sent = [e for e in w.log if e[0] == "send_message" and e[1].namespace == ns]
            ctx.check("C22", "nothing is sent to the purged account", not [e for e in sent if e[2] == gone], ns)
            ctx.check("C22", "what is due to others is sent", len([e for e in sent if e[2] == stay]) == (
                1 if queued else 0), ns)
        # the account comes back with the same device and key: no trust is left
        for k, dev in enumerate(gone_ids):
            for ns in nss:
                w.bundles[(ns, gone, dev)] = StubBundle(ns, gone, dev, keys[k], "new")
            await sm.update_device_list(nss[0], gone, {dev: None})
            back = await sm.get_device_information(gone)
            mine = [i for i in back if i.device_id is dev or ctx.decide(eq(i.device_id, dev))]
            ctx.check("C22", "the device starts over", len(mine) == 1 and mine[0].label is None and
                      mine[0].namespaces == frozenset([nss[0]]))
            for i in mine:
                # (the trust of a key that was never recorded for a device is not part of the claim)
                ctx.check("C22", "trust is forgotten", Implies(Or(*[
                    known[j] for j in range(len(gone_ids)) if keys[j] == keys[k]
                ]), i.trust_level_name == UNDECIDED_NAME))
                ctx.reach("came back")
        if used and gone_ids:
            for k in range(devices):
                await sm.set_trust(gone, keys[k], "verified")
            now = dict(w.sessions[nss[0]])
            w.log.clear()
            await use()
            for e in w.log:
                if e[0] == "encrypt_key":
                    s = next((x for (j, i), x in now.items() if j == gone and ctx.decide(eq(i, e[3]))), None)
                    ctx.check("C22", "no session from before is used", e[4] == s.lineage if s is not None else
                              e[4].startswith("active:"))
                    ctx.reach("used again")
    return run()


# -- C23 ------------------------------------------------------------------------------------------------------------

def rotation_scenario(ctx, nss=(NS_A,), sleeps=2, faults=1, twisted=False, jitter=True, default=False, purge=False,
                      changes=False):
    """
    The rotation loop from any ages of the signed pre keys, any rotation period and any failures of the upload, on a
    virtual clock; observed for a number of sleeps. default: the default rotation period, one week. purge: the last
    backend is purged during one of the sleeps. changes: pre keys are used during the sleeps.
    """
    w = World(ctx, list(nss))
    own_id, = device_ids(ctx, ["own_id"])
    w.seed_own(own_id)
    period = 7 * 24 * 3600 if default else ctx.int("period", 1)
    if not ctx.concrete:
        ctx.assume(num(period) <= 10 ** 9)
    for ns in nss:
        w.prekeys[ns] = PreKeys()
        w.prekeys[ns].age = ctx.int(f"age.{ns}", 0)
        if not ctx.concrete:
            ctx.assume(num(w.prekeys[ns].age) <= 10 ** 10)
    w.device_lists.update({(ns, OWN): {own_id: None} for ns in nss})
    slept = []
    passed = []
    done = []
    purged = []
    the = {}

    async def sleep(delay):
        slept.append((delay, len(w.log), {ns: w.prekeys[ns].age for ns in nss}))
        w.event("sleep", delay)
        k = len(slept)
        # never earlier than asked for; possibly a bit later
        late = ctx.int(f"late{k}", 0, 1000) if jitter else 0
        passed.append(delay + late)
        for ns in nss:
            w.prekeys[ns].age = w.prekeys[ns].age + delay + late
        if changes and ctx.decide(ctx.flag(f"changed{k}")):
            # a pre key has been used meanwhile, which publishes the bundle
            w.event("changed")
            for b in w.backends:
                b.pk.generation += 1
                w.bundles[(b.ns, OWN, own_id)] = b.local_bundle(OWN, own_id)
            ctx.reach("bundle changed meanwhile")
        if purge and not purged and ctx.decide(ctx.flag(f"purge{k}")):
            w.fault_kinds = frozenset()
            await the["sm"].purge_backend(nss[-1])
            w.fault_kinds = frozenset(["upload_bundle"])
            purged.append(len(w.log))
            w.event("purged", nss[-1])
            ctx.reach("purged meanwhile")
        if k >= sleeps:
            done.append(True)
            if twisted:
                from twisted.internet.defer import Deferred
                await Deferred()
            await asyncio.get_running_loop().create_future()
    ctx.sleep = sleep

    async def run():
        ages = []
        orig = type(w.backend(nss[0]))

        class Watched(orig):
            async def rotate_signed_pre_key(self):
                ages.append((self.ns, self.pk.age, len(slept)))
                await super().rotate_signed_pre_key()
        w.backend = lambda ns: Watched(w, ns)
        w.fault_kinds = frozenset(["upload_bundle"])
        w.fault_budget = faults
        args = {} if default else dict(signed_pre_key_rotation_period=period)
        if twisted:
            args["async_framework"] = omemo.AsyncFramework.TWISTED
        the["sm"] = await w.create(**args)
        for _ in range(50 * sleeps):
            if done:
                break
            await env.real_sleep(0)
        ctx.check("C23", "the loop keeps running", bool(done))
        for when in purged:
            ctx.check("C23", "purged backends are left alone", not [
                e for e in w.log[when:] if e[0] == "rotate" and e[1] == nss[-1] or
                e[0] == "upload_bundle" and e[2].namespace == nss[-1]])
        for ns, age, _ in ages:
            ctx.check("C23", "never rotated before the period is over", num(age) >= num(period), ns)
        # replay the observed events against the rules
        pending = None                   # backend whose new bundle couldn't be uploaded
        delay_due = 60
        log = [e for e in w.log if e[0] in ("sleep", "rotate", "upload_bundle", "upload_bundle_failed", "purged",
                                                "changed")]
        k = 0
        rotated_since_sleep = set()
        stalled = z3.IntVal(0)
        for pos, e in enumerate(log):
            if e[0] == "changed":
                pass
            elif e[0] == "purged":
                pending = None if pending == e[1] else pending
            elif e[0] == "rotate":
                ctx.reach("rotated")
                ctx.check("C23", "no rotation while an upload is pending", pending is None)
                ctx.check("C23", "not rotated twice at once", e[1] not in rotated_since_sleep)
                rotated_since_sleep.add(e[1])
                pending = e[1]
                delay_due = 60
            elif e[0] == "upload_bundle_failed":
                ctx.reach("upload failed")
                ctx.check("C23", "only pending bundles are uploaded", pending == e[1])
            elif e[0] == "upload_bundle":
                ctx.check("C23", "only pending bundles are uploaded", pending == e[1])
                ctx.check("C23", "the rotated key is published", And(
                    eq(e[2].dev, own_id), eq(e[2].jid, OWN), e[2].content[0] == len([
                        x for x in log[:pos] if x[0] == "rotate" and x[1] == e[1]])))
                ctx.check("C23", "the bundle is up to date", e[2].content[1] == len([
                    x for x in log[:pos] if x[0] == "changed"]))
                pending = None
            else:
                delay, _, at = slept[k]
                k += 1
                if pending is not None:
                    ctx.reach("retry")
                    ctx.check("C23", "retries back off from one minute, doubled up to one hour", eq(
                        delay, delay_due))
                    delay_due = min(2 * delay_due, 3600)
                    # further rotations are stalled meanwhile (documented)
                    stalled = stalled + num(passed[k - 1])
                else:
                    ctx.reach("idle")
                    for ns in nss[:-1] if purged and purged[0] <= slept[k - 1][1] else nss:
                        ctx.check("C23", "no overdue key is left", num(at[ns]) - stalled <= num(period), ns)
                        ctx.check("C23", "the next check is due at most a minute after the next rotation",
                                  num(at[ns]) - stalled + num(delay) <= num(period) + 60, ns)
                    ctx.check("C23", "no busy waiting", num(delay) > 0)
                    rotated_since_sleep = set()
                    stalled = z3.IntVal(0)
        ctx.outcome = f"{len(ages)} rotations, {len(w.faults)} failures"
    return run()


# -- C24 ------------------------------------------------------------------------------------------------------------

def consistency_scenario(ctx, nss=(NS_A, NS_B), faults=0, crowd=0, again=False):
    """ensure_data_consistency from any state of the server. again: everything had been made consistent before."""
    w = World(ctx, list(nss))
    own_id, other = device_ids(ctx, ["own_id", "other"])
    w.seed_own(own_id, label="own label")
    before = {}
    for ns in nss:
        before[ns] = {other: "other label"} if ctx.decide(ctx.flag(f"other.listed.{ns}")) else {}
        before[ns].update(crowd_entries(ctx, [own_id, other], crowd))
    w.bundle_init = lambda ns, jid, dev: StubBundle(ns, jid, dev, ik_of(7), "content")

    async def run():
        sm = await w.create()
        if again:
            for b in w.backends:
                w.bundles[(b.ns, OWN, own_id)] = [b.local_bundle(OWN, own_id), "notfound"][
                    ctx.choose(f"earlier_bundle.{b.ns}", 2)]
            await sm.ensure_data_consistency()
            ctx.reach("consistent before")
        state = {}
        for b in w.backends:
            ns = b.ns
            lst = dict(before[ns])
            if ctx.decide(ctx.flag(f"own.listed.{ns}")):
                lst[own_id] = "online label" if ctx.decide(ctx.flag(f"own.label.{ns}")) else "own label"
            w.device_lists[(ns, OWN)] = lst
            state[ns] = ctx.choose(f"bundle.{ns}", 5)
            local = b.local_bundle(OWN, own_id)
            w.bundles[(ns, OWN, own_id)] = [
                local, "notfound", "fail",
                StubBundle(ns, OWN, own_id, OWN_IK, ("outdated",)),
                StubBundle(ns, OWN, own_id, ik_of(9), local.content)
            ][state[ns]]
        w.log.clear()
        lists0 = {ns: dict(w.device_lists[(ns, OWN)]) for ns in nss}
        if faults:
            w.fault_kinds = frozenset(["upload_bundle", "upload_device_list", "download_device_list"])
            w.fault_budget = faults
            try:
                await sm.ensure_data_consistency()
                failed = False
            except EXPECTED_FAILURES:
                failed = True
            ctx.check("C24", "failures are reported", failed == bool(w.faults))
            w.fault_budget = 0
            if failed:
                ctx.reach("failed")
                await sm.ensure_data_consistency()
        else:
            await sm.ensure_data_consistency()
        for b in w.backends:
            ns = b.ns
            online = w.bundles[(ns, OWN, own_id)]
            ctx.check("C24", "online bundle is the local one", isinstance(online, StubBundle) and
                      online.same(b.local_bundle(OWN, own_id)), ns)
            server = w.device_lists[(ns, OWN)]
            ctx.check("C24", "listed", len(find_key(ctx, server, own_id)) == 1, ns)
            ctx.check("C24", "other entries kept", all(
                find_key(ctx, server, d) == [l] for d, l in before[ns].items()
            ) and len(server) == len(before[ns]) + 1, ns)
            uploads = [e for e in w.log if e[0] == "upload_bundle" and e[1] == ns]
            if state[ns] == 0:
                ctx.reach("up to date")
                ctx.check("C24", "nothing is uploaded if the bundle is up to date", not uploads, ns)
            else:
                ctx.reach("repaired")
            if find_key(ctx, lists0[ns], own_id):
                ctx.check("C24", "list untouched if this device is listed", server == lists0[ns] and not [
                    e for e in w.log if e[0] == "upload_device_list" and e[1] == ns], ns)
        # local data reflects the online lists
        own, others = await sm.get_own_device_information()
        ctx.check("C24", "own device active everywhere", own.namespaces == frozenset(nss) and dict(own.active) == {
            ns: True for ns in nss})
        for ns in nss:
            mine = [o for o in others if ns in o.namespaces and dict(o.active)[ns]]
            ctx.check("C24", "other devices as listed", len(mine) == len(before[ns]), ns)
    return run()


# -- C25 ------------------------------------------------------------------------------------------------------------

def own_label_scenario(ctx, nss=(NS_A, NS_B), mode="plain", crowd=0, others=True):
    """others: whether another device may be on the lists."""
    w = World(ctx, list(nss))
    own_id, other = device_ids(ctx, ["own_id", "other"])
    w.seed_own(own_id, [other], label="old label")
    w.put(f"/devices/{OWN}/{other}/namespaces", list(nss))
    w.put(f"/devices/{OWN}/{other}/active", {ns: True for ns in nss})
    w.put(f"/devices/{OWN}/{other}/label", "label of the other one")
    w.put(f"/devices/{OWN}/{other}/identity_key", b64(ik_of(1)))
    before = {}
    for ns in nss:
        before[ns] = {other: label_choice(ctx, f"other.label.{ns}")} if others and ctx.decide(
            ctx.flag(f"other.listed.{ns}")) else {}
        before[ns].update(crowd_entries(ctx, [own_id, other], crowd))
        lst = dict(before[ns])
        if ctx.decide(ctx.flag(f"own.listed.{ns}")):
            lst[own_id] = "old label"
        w.device_lists[(ns, OWN)] = lst
    label = label_choice(ctx, "new")

    async def run():
        sm = await w.create()
        _, others0 = await sm.get_own_device_information()
        w.log.clear()

        async def set_label():
            await sm.set_own_label(label)
        if mode == "fault":
            w.fault_kinds = frozenset(["download_device_list", "upload_device_list"])
            w.fault_budget = 1
            try:
                await set_label()
                ctx.check("C25", "failures are reported", not w.faults)
            except EXPECTED_FAILURES:
                ctx.reach("failed")
                for ns in nss:
                    ctx.check("C25", "other entries kept on failure", all(
                        len(find_key(ctx, w.device_lists[(ns, OWN)], d)) == 1 for d in before[ns]), ns)
                w.fault_budget = 0
                await set_label()
            w.fault_budget = 0
        else:
            await set_label()
        if ctx.decide(ctx.flag("restart")):
            sm = await w.create()
        own, others = await sm.get_own_device_information()
        ctx.reach("label removed" if label is None else "label set")
        ctx.check("C25", "new label recorded", label_eq(own.label, label))
        ctx.check("C25", "other devices unaffected", others == others0)
        ctx.check("C25", "own device otherwise unaffected", own.namespaces == frozenset(nss) and dict(own.active) == {
            ns: True for ns in nss})
        for ns in nss:
            server = w.device_lists[(ns, OWN)]
            mine = find_key(ctx, server, own_id)
            ctx.check("C25", "new label published for every backend", len(mine) == 1 and label_eq(mine[0], label), ns)
            ctx.check("C25", "other entries kept", same_entries(ctx, server, before[ns], 1), ns)
        # an update that lists the device without label (no label support) keeps the label
        await sm.update_device_list(nss[0], OWN, {own_id: None})
        own, _ = await sm.get_own_device_information()
        ctx.check("C25", "label kept when a list doesn't carry labels", label_eq(own.label, label))
        # and the label is the one that is published when the device has to be added again
        w.log.clear()
        await sm.update_device_list(nss[0], OWN, {})
        uploads = [e for e in w.log if e[0] == "upload_device_list"]
        ctx.check("C25", "label published when the device is added again", len(uploads) == 1 and And(*[
            label_eq(x, label) for x in find_key(ctx, uploads[0][2], own_id)]))
    return run()


# -- C27, C34 ---------------------------------------------------------------------------------------------------------

def replace_scenario(ctx, nss=(NS_A, NS_B), extra_ns=(), fixed=None, jid=BOB, faults=0, second_device=False,
                     kinds=("send_message", "store_session"), sym_ik=False, used=False):
    """
    replace_sessions for a device with any sessions, any bundles and any failures on the way. used: the same manager
    encrypts for the device before and after that.
    """
    w = World(ctx, list(nss))
    names = ["dev"] + (["dev2"] if second_device else [])
    ids = device_ids(ctx, ["own_id"] + names)
    own_id, ids = ids[0], ids[1:]
    w.seed_own(own_id)
    keys = [symbolic_keys(ctx, n) if sym_ik else (ik_of(k + 1), ik_of(0x30 + k)) for k, n in enumerate(names)]
    devs = [Dev(w, jid, ids[k], n, list(nss) + list(extra_ns), ik=keys[k][0], other_ik=keys[k][1],
                fixed=dict({"level": 0}, **(fixed or {}))) for k, n in enumerate(names)]
    d = devs[0]
    put_list(w, jid, ([own_id] if jid == OWN else []) + ids)
    attach(w, devs)
    stored = w.session_init

    def session_init(ns, j, dev):
        s = stored(ns, j, dev)
        return s if s is None else s._replace(sending_chain_length=ctx.int(f"length.{ns}.{s.lineage}", 0))
    w.session_init = session_init

    async def run():
        sm = await w.create()
        infos = await sm.get_device_information(jid)
        info = next(i for i in infos if i.device_id is d.id or ctx.decide(eq(i.device_id, d.id)))
        # the information that is passed in may be incomplete or outdated
        given = info

        async def use():
            try:
                await sm.encrypt({jid}, {ns: b"text" for ns in nss})
            except omemo.NoEligibleDevices:
                pass
        if used:
            await sm.get_sending_chain_length(info)
            await use()
            w.log.clear()
        if ctx.decide(ctx.flag("outdated")):
            given = info._replace(namespaces=frozenset(), active=frozenset(), identity_key=d.other_ik)
        old = {b.ns: b.persisted(jid, d.id) for b in w.backends}
        others_old = {(b.ns, x.id): b.persisted(jid, x.id) for b in w.backends for x in devs[1:]}
        lengths = await sm.get_sending_chain_length(info)
        ctx.check("C34", "one entry per loaded backend the device supports", And(*[
            Iff(d.sup[ns], ns in lengths) for ns in nss]))
        ctx.check("C34", "no entry for other namespaces", all(ns in nss for ns in lengths))
        for ns, n in lengths.items():
            ctx.check("C34", "length of the stored session, None without session", (n is None) if old[ns] is None
                      else And(n is not None, eq(n, old[ns].sending_chain_length) if n is not None else False), ns)
            ctx.reach("no session" if n is None else "length")
        ctx.check("C34", "nothing is changed", not [e for e in w.log if e[0] in ("store_session", "send_message")])
        w.log.clear()
        if faults:
            w.fault_kinds = frozenset(kinds)
            w.fault_budget = faults
        result = await sm.replace_sessions(given)
        w.fault_budget = 0
        ctx.outcome = f"{len(result)} failures"
        ctx.reach(ctx.outcome)
        ctx.check("C27", "failures are reported by namespace of loaded backends", all(ns in nss for ns in result))
        failures = {ns: [e for e in w.log if e[0] == "send_message_failed" and e[1].namespace == ns] for ns in nss}
        position = {id(e): k for k, e in enumerate(w.log)}
        for ns in nss:
            candidate = And(d.sup[ns], old[ns] is not None)
            sends = [e for e in w.log if e[0] == "send_message" and e[1].namespace == ns]
            stores = [e for e in w.log if e[0] == "store_session" and e[1] == ns]
            builds = [e for e in w.log if e[0] == "build_active" and e[1] == ns]
            usable = And(d.bundle_status[ns] == 0, d.bundle_ik_same[ns], Not(d.kexfail[ns]))
            now = w.sessions[ns].get((jid, d.id))
            now = w.backends[[b.ns for b in w.backends].index(ns)].persisted(jid, d.id) if now is None else now
            ctx.check("C27", "only existing sessions are replaced", Implies(Not(candidate), And(
                not builds, not sends, not stores, ns not in result, now is old[ns])), ns)
            ctx.check("C27", "failure reported iff the replacement failed", Implies(candidate, Iff(
                ns in result, now is old[ns])), ns)
            storage_failed = ns in result and isinstance(result[ns], omemo.StorageException)
            expect_ok = And(candidate, usable, not failures[ns], not storage_failed)
            ctx.check("C27", "replaced whenever nothing fails, regardless of other backends", Iff(
                expect_ok, And(candidate, ns not in result)), ns)
            ctx.check("C27", "notified at most once", len(sends) <= 1)
            if ns in result:
                ctx.reach("failure")
                ctx.check("C27", "failed replacement leaves the old session", not stores and now is old[ns], ns)
                if not storage_failed:
                    ctx.check("C27", "failed replacement notifies nobody", not sends, ns)
                ctx.check("C27", "reason", Or(
                    And(d.bundle_status[ns] == 1, isinstance(result[ns], omemo.BundleDownloadFailed)),
                    And(d.bundle_status[ns] == 2, isinstance(result[ns], omemo.BundleNotFound)),
                    And(d.bundle_status[ns] == 0, Or(d.kexfail[ns], Not(d.bundle_ik_same[ns])),
                        isinstance(result[ns], omemo.KeyExchangeFailed)),
                    And(usable, isinstance(result[ns], (omemo.MessageSendingFailed, omemo.StorageException)))
                ), ns)
            else:
                ctx.check("C27", "notified before the new session is stored", Implies(candidate, And(
                    len(sends) == 1, len(stores) == 1, bool(sends) and bool(stores) and
                    w.log.index(sends[0]) < w.log.index(stores[0]))), ns)
                if sends:
                    ctx.reach("replaced")
                    m, to = sends[0][1], sends[0][2]
                    ctx.check("C27", "notification", And(
                        eq(to, jid), eq(m.bare_jid, OWN), eq(m.device_id, own_id), m.content.empty, len(m.keys) == 1))
                    for ekm, kex in m.keys:
                        ctx.check("C27", "notification for this device with the new key exchange", And(
                            d.is_(ekm.bare_jid, ekm.device_id), now is not None and ekm.lineage == now.lineage and
                            kex is now.key_exchange and now.initiation is Initiation.ACTIVE))
            for e in builds:
                ctx.check("C02", "session built with the identity key on record", eq(e[4].identity_key, d.ik))
                ctx.check("C02", "bundle of the device", And(d.is_(e[4].bare_jid, e[4].device_id), eq(e[4].namespace, ns)))
                ctx.reach("session built")
            for x in devs[1:]:
                ctx.check("C27", "sessions of other devices untouched", (
                    w.sessions[ns].get((jid, x.id)) is others_old[(ns, x.id)]))
        if used:
            now = {b.ns: b.persisted(jid, d.id) for b in w.backends}
            w.log.clear()
            await use()
            for e in w.log:
                if e[0] == "encrypt_key" and now[e[1]] is not None:
                    ctx.reach("used again")
                    ctx.check("C27", "what is stored is used from now on", And(
                        d.is_(e[2], e[3]), e[4] == now[e[1]].lineage), e[1])
            for ns, n in (await sm.get_sending_chain_length(info)).items():
                s = w.backends[[b.ns for b in w.backends].index(ns)].persisted(jid, d.id)
                ctx.check("C34", "length of the session that is stored now", (n is None) if s is None else And(
                    n is not None, eq(n, s.sending_chain_length) if n is not None else False), ns)
    return run()


PB_JOBS = [
    Job("purge-many-devices-listed", purge_backend_scenario, dict(crowd=16)),
    Job("purge-loaded", purge_backend_scenario, dict()),
    Job("purge-only-backend", purge_backend_scenario, dict(nss=(NS_A,))),
    Job("purge-not-loaded", purge_backend_scenario, dict(loaded=False)),
    Job("purge-crash", purge_backend_scenario, dict(mode="crash")),
    Job("purge-fault", purge_backend_scenario, dict(mode="fault")),
    Job("remove-two-versions", remove_two_scenario, dict()),
    Job("remove-two-versions-for-good", remove_two_scenario, dict(again=(NS_C,))),
    Job("purge-three-backends", purge_backend_scenario, dict(nss=(NS_A, NS_B, NS_C)), "thorough"),
    Job("purge-three-backends-crash", purge_backend_scenario, dict(nss=(NS_A, NS_B, NS_C), mode="crash"), "thorough"),
    Job("purge-three-backends-fault", purge_backend_scenario, dict(nss=(NS_A, NS_B, NS_C), mode="fault"), "thorough"),
]
PJ_JOBS = [
    Job("purge-in-use", purge_jid_scenario, dict(used=True, queued=False)),
    Job("purge-many-devices", purge_jid_scenario, dict(crowd=12)),
    Job("purge-one-device", purge_jid_scenario, dict()),
    Job("purge-two-backends", purge_jid_scenario, dict(nss=(NS_A, NS_B))),
    Job("purge-two-devices", purge_jid_scenario, dict(devices=2)),
    Job("purge-shared-key", purge_jid_scenario, dict(devices=2, shared_key=True, queued=False)),
    Job("purge-own-key", purge_jid_scenario, dict(devices=2, own_key=True, queued=False)),
    Job("purge-not-loaded-version", purge_jid_scenario, dict(extra_ns=(NS_C,), queued=False)),
    Job("purge-three-devices", purge_jid_scenario, dict(devices=3), "thorough"),
]
ROT_JOBS = [
    Job("one-backend", rotation_scenario, dict(sleeps=3, faults=2)),
    Job("two-backends", rotation_scenario, dict(nss=(NS_A, NS_B), sleeps=2, faults=2)),
    Job("default-period", rotation_scenario, dict(sleeps=2, faults=1, default=True)),
    Job("purged-meanwhile", rotation_scenario, dict(nss=(NS_A, NS_B), sleeps=3, faults=1, purge=True, jitter=False)),
    Job("bundle-changes-meanwhile", rotation_scenario, dict(sleeps=3, faults=2, changes=True, jitter=False)),
    Job("long-outage", rotation_scenario, dict(sleeps=8, faults=8, jitter=False)),
    Job("two-backends-three-sleeps", rotation_scenario, dict(nss=(NS_A, NS_B), sleeps=3, faults=1), "thorough"),
    Job("twisted", rotation_scenario, dict(nss=(NS_A, NS_B), sleeps=2, faults=1, twisted=True)),
    Job("one-backend-longer", rotation_scenario, dict(sleeps=5, faults=3), "thorough"),
    Job("very-long-outage", rotation_scenario, dict(sleeps=10, faults=10, jitter=False), "thorough"),
    Job("three-backends", rotation_scenario, dict(nss=(NS_A, NS_B, NS_C), sleeps=2, faults=1), "thorough"),
]
CONS_JOBS = [
    Job("many-devices-listed", consistency_scenario, dict(nss=(NS_A,), crowd=16)),
    Job("two-backends-again", consistency_scenario, dict(again=True)),
    Job("two-backends", consistency_scenario, dict()),
    Job("fault", consistency_scenario, dict(nss=(NS_A,), faults=1)),
    Job("two-backends-fault", consistency_scenario, dict(faults=2), "thorough"),
    Job("three-backends", consistency_scenario, dict(nss=(NS_A, NS_B, NS_C)), "thorough"),
]
LABEL_JOBS = [
    Job("many-devices-listed", own_label_scenario, dict(nss=(NS_A,), crowd=16)),
    Job("five-backends", own_label_scenario, dict(nss=(NS_A, NS_B, NS_C, NS_D, NS_E), others=False)),
    Job("two-backends", own_label_scenario, dict()),
    Job("fault", own_label_scenario, dict(mode="fault", nss=(NS_A,))),
    Job("fault-two-backends", own_label_scenario, dict(mode="fault"), "thorough"),
]
REPL_JOBS = [
    Job("replace-five-backends", replace_scenario, dict(nss=(NS_A, NS_B, NS_C, NS_D, NS_E), fixed=dict(
        act=True, sup=True, bundle=0, bundleik=True, kexfail=False, sess=2), faults=1)),
    Job("replace-two-backends", replace_scenario, dict(fixed={"act": True})),
    Job("replace-send-and-store-failures", replace_scenario, dict(fixed={"act": True, "sup": True}, faults=2)),
    Job("replace-not-loaded-namespace", replace_scenario, dict(nss=(NS_A,), extra_ns=(NS_C,), faults=1)),
    Job("replace-other-device", replace_scenario, dict(nss=(NS_A,), second_device=True, fixed={"act": True,
                                                                                            "sup": True})),
    Job("replace-any-identity-key", replace_scenario, dict(nss=(NS_A,), sym_ik=True, fixed={"act": True, "sup": True})),
    Job("replace-in-use", replace_scenario, dict(nss=(NS_A,), used=True, fixed={"act": True, "sup": True}, faults=1)),
    Job("replace-in-use-two-backends", replace_scenario, dict(used=True, fixed={
        "act": True, "sup": True, "bundleik": True, "kexfail": False})),
    Job("replace-own-device", replace_scenario, dict(nss=(NS_A,), jid=OWN, faults=1)),
    Job("replace-three-backends", replace_scenario, dict(nss=(NS_A, NS_B, NS_C), fixed={
        "act": True, "sup": True, "bundleik": True}, faults=1), "thorough"),
]
CHECKS = {
    "C21": Check(PB_JOBS, ["purged", "crashed", "failed: delete_bundle", "failed: upload_device_list"],
                 ["up to 3 backends, one other device, or a crowd of 16 fixed ones on the list; one crash before any durable or remote effect, or one failing "
                  "operation"], ["the bundle of a purge that was interrupted between the removal from the list and the "
                                 "deletion of the bundle, once the process restarts"]),
    "C22": Check(PJ_JOBS, ["purged", "queued", "came back"], ["up to 3 devices of the purged account (or 12 more fixed ones), one other account"],
                 ["interruption of the purge itself", "purging the own account"]),
    "C23": Check(ROT_JOBS, ["rotated", "retry", "idle", "upload failed", "purged meanwhile",
                             "bundle changed meanwhile"],
                 ["the first 2 to 9 sleeps of the loop, up to 3 backends, up to 9 upload failures; ages and periods are "
                  "arbitrary integers up to 10^10 s and 10^9 s", "timers fire up to 1000 s late"],
                 ["exceptions other than BundleUploadFailed"]),
    "C24": Check(CONS_JOBS, ["up to date", "repaired", "failed"], ["up to 3 backends, one other device, or a crowd of 16 fixed ones on the list"], []),
    "C25": Check(LABEL_JOBS, ["label set", "label removed", "failed"],
                 ["up to 2 backends (or 5 with fixed lists), one other device (or a crowd of 16 fixed ones), labels of up to 3 characters"], []),
    "C27": Check(REPL_JOBS, ["replaced", "failure", "0 failures", "1 failures", "2 failures"],
                 ["one device with up to 3 backends (or 5 with fixed attributes), a second device next to it, up to 2 failing sends or stores"],
                 ["devices that aren't known"]),
    "C34": Check([j for j in REPL_JOBS if j.name in ("replace-two-backends", "replace-not-loaded-namespace", "replace-five-backends",
                                                      "replace-in-use", "replace-own-device", "replace-three-backends")],
                 ["no session", "length"], ["one device with up to 3 backends"], []),
    "C02": Check(REPL_JOBS, ["session built"], ["replacement: one device, up to 3 backends"], []),
}
