"""C07 - C11 (and the decryption half of C02): decrypting one message."""

from .common import *  # noqa: F401,F403

TRIED = ("build_passive", "try_decrypt_key", "decrypt_key", "decrypt_plaintext")


def decrypt_scenario(
    ctx, nss=(NS_A,), sender=BOB, mode="either", unloaded=False, keys="me", kex="either", sess=None, listed=True,
    known=True, level=None, fails=True, rcl=True, prekeys=False, cross_ids=False, sym_ik=False,
    default_threshold=False, others=(), faults=(), trust_absent=False, earlier=None
):
    """
    keys: "me" (key material for this device only), "some" (any subset of: this device, another device of this
    account, the same device id of another account). others: further known devices: "sender" (another device of the
    sending account), "elsewhere" (a device of another account, possibly with the same device id), "elsewhere-same-key"
    (with the sending device's identity key, too); with any trust levels and sessions. rcl: receiving chain length symbolic. prekeys: number of
    visible pre keys, refill threshold and status of the used pre key symbolic. earlier: the manager has been used before,
    including a message of the same device (see Earlier).
    """
    w = World(ctx, list(nss))
    own_id, dev_id, other_id = device_ids(ctx, ["own_id", "dev_id", "other_id"], distinct=not cross_ids)
    if cross_ids:
        ctx.assume(num(other_id) != num(own_id))
        if sender == OWN:
            ctx.assume(num(dev_id) != num(own_id))
    w.seed_own(own_id)
    fixed = {"sup": True, "act": None, "kexfail": None if fails else False, "bundleik": True, "sess": sess}
    if level is not None:
        fixed["level"] = level
    ik, other_ik = symbolic_keys(ctx, "dev") if sym_ik else (ik_of(1), ik_of(2))
    d = Dev(w, sender, dev_id, "dev", list(nss), ik=ik, known=known if type(known) is bool else ctx.flag("known"),
            fixed=fixed, other_ik=other_ik, label="some label", trust_absent=trust_absent)
    more = []
    for k, what in enumerate(others):
        oid = ctx.int(f"more{k}_id", 1, 2 ** 31 - 1)
        jid = sender if what == "sender" else CAROL
        if what == "sender":
            ctx.assume(And(num(oid) != num(dev_id), num(oid) != num(own_id)))
        more.append(Dev(w, jid, oid, f"more{k}", list(nss), ik=d.ik if what.endswith("same-key") else ik_of(5 + k),
                        fixed={"sup": True, "act": True, "kexfail": False, "bundleik": True, "bundle": 0} | (
                            {"sess": 0, "level": 0} if earlier else {}),
                        other_ik=ik_of(0x20 + k), label="another label"))
    attach(w, [d] + more)
    is_listed = z3.BoolVal(listed) if type(listed) is bool else ctx.flag("listed")
    served = z3.BoolVal(True) if listed is True else ctx.flag("served")
    listed_now = ctx.decide(is_listed)
    put_list(w, sender, ([own_id] if sender == OWN else []) + ([dev_id] if listed_now else []) +
             [m.id for m in more if m.jid == sender])
    put_list(w, CAROL, [m.id for m in more if m.jid == CAROL])
    if not listed_now:
        for suffix in ("namespaces", "active", "label", "identity_key"):
            w.disk.pop(f"{d.base}/{suffix}")
        d.known = z3.BoolVal(False)
    w.device_list_init = lambda ns, jid: (
        ({dev_id: "some label"} if jid == sender and ctx.decide(served) else {}) if jid != OWN or sender == OWN else
        {own_id: None}) | {m.id: "another label" for m in more if m.jid == jid}

    threshold = ctx.int("threshold", 25, 99) if prekeys and not default_threshold else 99
    # -- which stored session the sender has: none, active (un)confirmed, passive from this or another exchange
    kind = {}

    def session_init(ns, jid, dev):
        if not ctx.decide(d.is_(jid, dev)):
            for m in more:
                if ctx.decide(m.is_(jid, dev)):
                    return stored_session(pick(ctx, m.sess[ns], 4), m.name, m.ik)
            return None
        term = d.sess[ns]
        k = pick(ctx, term, 5)
        kind[ns] = k
        s = stored_session(min(k, 3), "same" if k != 4 else "elsewhere", d.ik)
        return s
    w.session_init = session_init

    key_fail = ctx.int_term("key_fail") if fails else z3.IntVal(0)
    passive_fail = ctx.flag("passive_fail") if fails else z3.BoolVal(False)
    content_fail = ctx.flag("content_fail") if fails else z3.BoolVal(False)

    def decrypt_fails(ns, jid, dev, what):
        if what == "key":
            return [None, "fail", "skipped"][pick(ctx, key_fail, 3)]
        if what == "passive":
            return "fail" if ctx.decide(passive_fail) else None
        return "fail" if ctx.decide(content_fail) else None
    w.decrypt_fails = decrypt_fails

    new_rcl = {}

    def next_chain_length(session):
        if not rcl:
            return 1
        if "v" not in new_rcl:
            new_rcl["v"] = None if ctx.decide(ctx.flag("no_chain_length")) else ctx.int("rcl", 0)
        return new_rcl["v"]
    w.next_chain_length = next_chain_length
    status_term = ctx.int_term("pre_key_status") if prekeys else None
    past = Earlier(w, [d] + more, list(nss), own_id, earlier) if earlier else None

    async def run():
        for ns in nss:
            w.prekeys.setdefault(ns, PreKeys())
        sm = await w.create(**({} if default_threshold else dict(pre_key_refill_threshold=threshold)))
        for b in w.backends:
            w.bundles[(b.ns, OWN, own_id)] = b.local_bundle(OWN, own_id)
        sync = {"sync": z3.BoolVal(True), "live": z3.BoolVal(False)}.get(mode)
        if sync is None:
            sync = ctx.flag("sync")
        syncing = ctx.decide(sync)
        if not syncing:
            await sm.after_history_sync()
        if past:
            w.decrypt_fails, w.next_chain_length = (lambda ns, jid, dev, what: None), (lambda session: 1)
            await sm.get_device_information(sender)
            try:
                await sm.decrypt(omemo.Message(NS_A, sender, dev_id, StubContent(9050, False, b"earlier"), frozenset({
                    (StubEKM(9051, OWN, own_id), None)})))
            except (omemo.NoSession, omemo.SenderNotFound, omemo.SenderDistrusted):
                pass
            for k, m in enumerate(more):
                # other devices have already built sessions
                try:
                    await sm.decrypt(omemo.Message(NS_A, m.jid, m.id, StubContent(9060 + k, False, b"earlier"), frozenset({
                        (StubEKM(9070 + k, OWN, own_id), StubKex(f"earlier:{k}", m.ik))})))
                except omemo.SenderDistrusted:
                    pass
            w.decrypt_fails, w.next_chain_length = decrypt_fails, next_chain_length
            await past.over(sm)
            if NS_A in kind:
                then = w.sessions[NS_A].get((sender, dev_id))
                d.sess[NS_A] = z3.IntVal(2 if kind[NS_A] == 1 and then.confirmed else kind[NS_A])
        deleted0, hidden0 = list(w.prekeys[NS_A].deleted), list(w.prekeys[NS_A].hidden_lineages)
        generation0 = w.prekeys[NS_A].generation
        base = d.received.get(NS_A, 0) if past else 0
        pk = w.prekeys[NS_A]
        if prekeys:
            pk.visible = ctx.int("visible", 1, 100)
            w.bundles[(NS_A, OWN, own_id)] = next(b for b in w.backends if b.ns == NS_A).local_bundle(OWN, own_id)

            def pre_key_status(ns, session):
                k = pick(ctx, status_term, 3)
                if k == 1 and not syncing:
                    return "visible"   # nothing is hidden outside of history synchronization
                return ["visible", "hidden", "gone"][k]
            w.pre_key_status = pre_key_status
        visible_before = pk.visible
        w.log.clear()
        disk_before = dict(w.disk)

        # -- the message ---------------------------------------------------------------------------------
        ns = NS_A
        if unloaded and ctx.decide(ctx.flag("other_namespace")):
            # sorts before or after the others, and is part of them or extends them
            ns = [NS_C, NS_A + ":z"][ctx.choose("unloaded_namespace", 2)]
        loaded = ns in nss
        for_me = z3.BoolVal(True) if keys == "me" else ctx.flag("for_me")
        key_set = []
        kex_kind = {"none": 0, "good": 1, "bad": 2}.get(kex)
        kk = kex_kind if kex_kind is not None else ctx.choose("kex", 3)
        my_kex = None if kk == 0 else StubKex("stored:same", d.ik if kk == 1 else d.other_ik)
        my_ekm = StubEKM(9001, OWN, own_id)
        if ctx.decide(for_me):
            key_set.append((my_ekm, my_kex))
        if keys == "some":
            if ctx.decide(ctx.flag("for_other_device")):
                key_set.append((StubEKM(9002, OWN, other_id), None if kk else StubKex("x", ik_of(9))))
            if ctx.decide(ctx.flag("for_other_account")):
                key_set.append((StubEKM(9003, CAROL, own_id), None if kk else StubKex("x", ik_of(9))))
        empty = ctx.flag("empty") if fails or kex == "either" else z3.BoolVal(False)
        is_empty = ctx.decide(empty)
        text = b"" if syncing else b"the plaintext"
        content = StubContent(9100, is_empty, None if is_empty else text)
        message = omemo.Message(ns, sender, dev_id, content, frozenset(key_set))
        keys_before = frozenset(key_set)

        error, result = None, None
        w.fault_kinds, w.fault_budget = frozenset(faults), 1 if faults else 0
        try:
            result = await sm.decrypt(message)
        except omemo.OMEMOException as e:
            error = e
        ctx.outcome = type(error).__name__ if error else "success"
        ctx.reach(ctx.outcome)
        events = list(w.log)
        tried = [e for e in events if e[0] in TRIED]
        stores = [e for e in events if e[0] == "store_session"]
        sent = [e for e in events if e[0] == "send_message"]
        ctx.check("C32", "message unmodified", message.keys == keys_before)
        done = [e for e in events if e[0] == "decrypt_plaintext"] or (
            [e for e in events if e[0] == "decrypt_key"] if is_empty else [])
        for k, e in enumerate(events):
            if e[0] in ("hide_pre_key", "delete_pre_key", "send_message"):
                for prop in ("C09", "C10"):
                    ctx.check(prop, "session persisted before anything else changes", any(
                        x[0] == "store_session" and x[1] == e[1] for x in events[:k]
                    ) if e[0] != "send_message" else len(stores) > 0 and events.index(stores[0]) < k)
        for k, e in enumerate(events):
            if e[0] in ("send_message", "send_message_failed"):
                ctx.reach("empty message")
                for ekm, _ in e[1].keys:
                    ctx.check("C06", "advanced session persisted before the empty message leaves", any(
                        x[0] == "store_session" and x[4].sent == 1 and x[4].lineage == ekm.lineage
                        for x in events[:k]))
        if w.faults:
            # the message has been decrypted, what follows failed
            ctx.reach("failed afterwards")
            ctx.check("C09", "failures are reported", isinstance(error, (
                omemo.BundleUploadFailed, omemo.MessageSendingFailed)))
            ctx.check("C09", "the session isn't lost", bool(done) and len(stores) > 0 and And(*[
                And(d.is_(x[2], x[3]), x[4].received == base + 1) for x in stores]))
            return

        # -- ground truth ---------------------------------------------------------------------------------
        present = Or(is_listed, served)
        usable = Or(*[And(d.sup[n], d.bundle_status[n] == 0) for n in d.nss if n == NS_A or listed_now])
        rec = d.record()
        untouched = rec == "untouched"
        if untouched:
            # never looked at: what it would have said
            rec = d.ik
        recorded = isinstance(rec, bytes) and Or(not untouched, And(is_listed, d.known))
        found = And(present, Or(And(is_listed, d.known), usable))
        lname = d.level_name[rec] if isinstance(rec, bytes) else None
        if trust_absent and lname and ctx.decide(ctx.flag("dev.trust_absent" + ("" if rec == d.ik else "'"))):
            lname = UNDECIDED_NAME
            ctx.reach("no trust on record")
        lvl = w.level_term(lname) if lname else z3.IntVal(-1)
        if untouched:
            lvl = z3.If(recorded, lvl, z3.IntVal(-1))
        distrusted = lvl == 1
        s_term = d.sess[NS_A]
        no_session = s_term == 0
        same_session = s_term == 3
        has_rec = my_kex is not None and isinstance(rec, bytes)
        kex_ok = Or(my_kex is None, same_key(my_kex.identity_key, rec) if has_rec else False)
        uses_stored = Not(no_session) if my_kex is None else same_session
        key_ok = z3.If(uses_stored, key_fail == 0, And(
            my_kex is not None, Not(d.kexfail[NS_A]), Not(passive_fail)
        )) if ns == NS_A else z3.BoolVal(False)
        content_ok = Or(empty, Not(content_fail))
        success = And(loaded, for_me, found, Not(distrusted), kex_ok, key_ok, content_ok)

        # -- C07 --------------------------------------------------------------------------------------------
        for e in tried:
            ctx.reach("key material processed")
            ctx.check("C07", "no key of a distrusted sender is processed", Not(distrusted), e[0])
            ctx.check("C07", "only keys of known senders are processed", And(found, recorded), e[0])
        ctx.check("C07", "distrusted senders are rejected", Implies(
            And(loaded, for_me, found, distrusted), isinstance(error, omemo.SenderDistrusted)
        ))
        ctx.check("C07", "rejected as distrusted only if distrusted", Implies(
            isinstance(error, omemo.SenderDistrusted), distrusted
        ))
        ctx.check("C07", "undecided senders are not rejected", Implies(
            And(success, lvl == 2), error is None
        ))
        if w.trust_queries:
            ctx.fail("C07", "no trust decision is requested while decrypting")

        # -- C02 --------------------------------------------------------------------------------------------
        for e in events:
            if e[0] == "build_passive":
                ctx.reach("session built passively")
                ctx.check("C02", "key exchange carries the identity key on record", And(
                    isinstance(rec, bytes), same_key(e[4].identity_key, rec) if isinstance(rec, bytes) else False
                ))
        ctx.check("C02", "a key exchange with another identity key is never accepted", Or(
            kex_ok, error is not None
        ))
        ctx.check("C02", "nothing is processed for another identity key", Or(kex_ok, not tried and not stores))
        if isinstance(rec, bytes):
            ctx.check("C02", "recorded identity key unchanged", Implies(And(is_listed, d.known), eq(rec, d.ik)))

        ctx.check("C09", "only the session with the sending device changes", And(
            len(stores) <= 2, *[d.is_(e[2], e[3]) for e in stores]))

        # -- C08 --------------------------------------------------------------------------------------------
        if error is not None:
            ctx.check("C08", "no session persisted", not stores)
            ctx.check("C08", "pre keys untouched", And(
                eq(pk.visible, visible_before), pk.generation == generation0, pk.deleted == deleted0,
                pk.hidden_lineages == hidden0
            ))
            ctx.check("C08", "nothing sent or published", not [
                e for e in events if e[0] in ("send_message", "upload_bundle", "generate_pre_keys", "hide_pre_key",
                                              "delete_pre_key", "delete_hidden_pre_keys")
            ])
            ctx.check("C08", "nothing queued", not [k for k in w.disk if k.startswith("/queue")])
            ctx.check("C08", "trust untouched", all(
                w.stored(k, disk_before) == w.stored(k) for k in disk_before if k.startswith("/trust")
            ) and not [k for k in w.disk if k.startswith("/trust") and k not in disk_before])

        # -- C09 --------------------------------------------------------------------------------------------
        ctx.check("C09", "success iff nothing is wrong", Iff(success, error is None))
        why = {
            omemo.UnknownNamespace: Not(loaded),
            omemo.MessageNotForUs: Not(for_me),
            omemo.SenderNotFound: Not(found),
            omemo.SenderDistrusted: distrusted,
            omemo.PublicDataInconsistency: Not(kex_ok),
            omemo.NoSession: And(no_session, my_kex is None),
            omemo.KeyExchangeFailed: And(my_kex is not None, Not(uses_stored), d.kexfail[NS_A]),
            omemo.TooManySkippedMessageKeys: And(uses_stored, key_fail == 2),
            omemo.DecryptionFailed: Or(And(uses_stored, key_fail == 1), And(Not(uses_stored), passive_fail),
                                       And(Not(empty), content_fail)),
        }
        if error is not None:
            ctx.check("C09", "documented error whose cause is present", Or(*[
                t for c, t in why.items() if isinstance(error, c)
            ]), type(error).__name__)
        else:
            plaintext, device, pkm = result
            ctx.check("C09", "plaintext", (plaintext is None) if is_empty else plaintext == text and plaintext is not None)
            ctx.check("C09", "sender", And(
                eq(device.bare_jid, sender), eq(device.device_id, dev_id), eq(device.identity_key, rec)
            ))
            made = [e for e in events if e[0] == "decrypt_key"]
            ctx.check("C09", "key material decrypted once", len(made) == 1)
            for e in made:
                ctx.check("C09", "key material returned", e[6] is pkm)
                ctx.check("C09", "the key material for this device is used", e[5] is my_ekm)
                lineage = e[4]
                ctx.check("C09", "stored session used iff it belongs to the exchange", Iff(
                    uses_stored, lineage.startswith("stored:")
                ))
                ctx.check("C09", "right session", And(e[1] == ns, d.is_(e[2], e[3])))
                ctx.reach("stored session used" if lineage.startswith("stored:") else "session replaced or built")
                s = w.sessions[ns].get((sender, dev_id))
                ctx.check("C09", "session persisted in its advanced state", s is not None and
                          s.lineage == lineage and s.received == 1 + (base if lineage.startswith("stored:") else 0))
            for e in events:
                if e[0] == "decrypt_plaintext":
                    ctx.check("C09", "content decrypted with the transported key", e[2] is content and e[3] is pkm)

        # -- C10 --------------------------------------------------------------------------------------------
        threshold_t = num(threshold)
        if error is None:
            lineage = [e for e in events if e[0] == "decrypt_key"][0][4]
            local = next(b for b in w.backends if b.ns == NS_A).local_content()
            published = w.bundles[(NS_A, OWN, own_id)].content
            ctx.check("C10", "published bundle equals the local bundle", eq(published, local))
            if my_kex is None:
                ctx.check("C10", "pre keys untouched without a key exchange", And(
                    eq(pk.visible, visible_before), pk.deleted == deleted0, pk.hidden_lineages == hidden0
                ))
            else:
                ctx.reach("key exchange while syncing" if syncing else "key exchange live")
                if prekeys:
                    st0 = status_term
                    was_visible = st0 == 0 if syncing else st0 != 2
                else:
                    was_visible = z3.BoolVal(lineage.startswith("passive:"))
                if syncing:
                    ctx.check("C10", "pre key kept while synchronizing", lineage not in pk.deleted)
                    ctx.check("C10", "pre key hidden while synchronizing", Iff(
                        was_visible, lineage in pk.hidden_lineages
                    ))
                else:
                    ctx.check("C10", "pre key deleted", Iff(was_visible, lineage in pk.deleted))
                left = num(visible_before) - 1
                ctx.check("C10", "refilled to 100 iff at or below the threshold", num(pk.visible) == z3.If(
                    was_visible, z3.If(left <= threshold_t, 100, left), num(visible_before)
                ))
                ctx.reach("refilled" if [e for e in events if e[0] == "generate_pre_keys"] else "not refilled")

        # -- C11 --------------------------------------------------------------------------------------------
        if error is None:
            chain = new_rcl.get("v", 1)
            due = Or(my_kex is not None, num(chain) > 53 if chain is not None else False)
            if syncing:
                ctx.check("C11", "nothing sent while synchronizing", not sent)
                ctx.check("C12", "nothing sent while synchronizing", not sent)
            else:
                ctx.check("C11", "one empty message iff due", Iff(due, len(sent) == 1))
                ctx.check("C11", "at most one empty message", len(sent) <= 1)
                ctx.reach("empty message" if sent else "no empty message")
                for _, m, to in sent:
                    ctx.check("C11", "sent to the sender", eq(to, sender))
                    ctx.check("C11", "message header", And(
                        m.namespace == ns, eq(m.bare_jid, OWN), eq(m.device_id, own_id)
                    ))
                    ctx.check("C11", "no content", m.content.empty)
                    ctx.check("C11", "one key, for the sending device", len(m.keys) == 1)
                    for ekm, k in m.keys:
                        ctx.check("C11", "key for the sending device", d.is_(ekm.bare_jid, ekm.device_id))
                        s = w.sessions[ns][(sender, dev_id)]
                        ctx.check("C11", "encrypted with the current session", s.lineage == ekm.lineage)
                        ctx.check("C11", "advanced session persisted", s.sent == 1 and
                                  s.received == 1 + (base if s.lineage.startswith("stored:") else 0))
                        ctx.check("C11", "no key exchange on confirmed sessions", k is None)
                    made = [e for e in events if e[0] == "encrypt_empty"]
                    ctx.check("C11", "key material belongs to the content", len(made) == 1 and all(
                        ekm.pkm is made[0][2] for ekm, _ in m.keys
                    ))
                ctx.check("C11", "nothing queued in live mode", not [k for k in w.disk if k.startswith("/queue")])
    return run()


JOBS = [
    Job("sessions-and-key-exchanges", decrypt_scenario, dict(mode="live")),
    Job("sessions-and-key-exchanges-syncing", decrypt_scenario, dict(mode="sync")),
    Job("addressing", decrypt_scenario, dict(keys="some", unloaded=True, mode="live", fails=False, level=0, rcl=False,
                                             cross_ids=True)),
    Job("sender-unknown", decrypt_scenario, dict(listed="either", known="either", mode="live", fails=False, rcl=False)),
    Job("sender-unknown-two-backends", decrypt_scenario, dict(
        nss=[NS_A, NS_B], listed="either", known="either", mode="live", fails=False, rcl=False, kex="good")),
    Job("similar-versions", decrypt_scenario, dict(
        nss=[NS_B, NS_C, NS_A], mode="live", fails=False, rcl=False, level=0)),
    Job("sender-any-identity-key", decrypt_scenario, dict(
        nss=[NS_A, NS_B], known="either", mode="live", fails=False, rcl=False, sym_ik=True, level=0)),
    Job("sender-any-trust", decrypt_scenario, dict(known="either", mode="live", fails=False, rcl=False,
                                                   trust_absent=True)),
    Job("sender-is-own-account", decrypt_scenario, dict(
        sender=OWN, listed="either", known="either", mode="either", fails=False)),
    Job("earlier-message", decrypt_scenario, dict(mode="live", earlier="ok trust", fails=False)),
    Job("earlier-message-syncing", decrypt_scenario, dict(mode="sync", earlier="ok trust", fails=False, rcl=False)),
    Job("earlier-exchanges", decrypt_scenario, dict(
        others=["sender", "elsewhere"], earlier="ok", fails=False, rcl=False, kex="good", level=0, sess=0)),
    Job("earlier-not-found", decrypt_scenario, dict(
        mode="live", earlier="fail", fails=False, rcl=False, listed="either", known="either", level=0)),
    Job("earlier-not-trusted", decrypt_scenario, dict(
        mode="live", earlier="notfound trust", fails=False, rcl=False, known="either", kex="none")),
    Job("several-devices", decrypt_scenario, dict(others=["sender", "elsewhere"], mode="live", rcl=False, fails=False,
                                                  listed="either")),
    Job("key-of-another-account", decrypt_scenario, dict(others=["elsewhere-same-key"], mode="live", rcl=False,
                                                         fails=False)),
    Job("failures-afterwards", decrypt_scenario, dict(fails=False, level=0, faults=("upload_bundle", "send_message"))),
    Job("pre-keys-default-threshold", decrypt_scenario, dict(
        prekeys=True, kex="good", level=0, fails=False, rcl=False, default_threshold=True)),
    Job("pre-keys-live", decrypt_scenario, dict(mode="live", prekeys=True, kex="good", level=0, fails=False, rcl=False)),
    Job("pre-keys-syncing", decrypt_scenario, dict(mode="sync", prekeys=True, kex="good", level=0, fails=False,
                                                   rcl=False)),
]

BOUNDS = ["one message of one sending device; up to 3 keys in the message; up to 2 loaded backends",
          "device ids range over [1, 2^31-1]; receiving chain length, number of visible pre keys (1..100) and refill "
          "threshold (25..99) are symbolic integers"]
OUTSIDE = ["storage failures"]

C32_JOBS = [j for j in JOBS if j.name in ("addressing", "pre-keys-live")]
CHECKS = {
    "C02": Check([j for j in JOBS if not j.name.startswith("pre-keys")], ["session built passively"], BOUNDS, OUTSIDE),
    "C06": Check([j for j in JOBS if j.name in ("sessions-and-key-exchanges", "failures-afterwards",
                                                "sender-is-own-account")], ["empty message"], BOUNDS, OUTSIDE),
    "C12": Check([j for j in JOBS if j.name.endswith("-syncing")], [], BOUNDS, OUTSIDE),
    "C07": Check([j for j in JOBS if not j.name.startswith("pre-keys")],
                 ["SenderDistrusted", "success", "key material processed"], BOUNDS, OUTSIDE),
    "C08": Check([j for j in JOBS if not j.name.startswith("pre-keys")],
                 ["SenderDistrusted", "NoSession", "PublicDataInconsistency", "DecryptionFailed", "KeyExchangeFailed",
                  "TooManySkippedMessageKeys", "MessageNotForUs", "UnknownNamespace", "SenderNotFound"],
                 BOUNDS, OUTSIDE),
    "C09": Check(JOBS, ["success", "stored session used", "session replaced or built", "MessageNotForUs",
                        "UnknownNamespace", "SenderNotFound", "NoSession", "failed afterwards"], BOUNDS, OUTSIDE),
    "C10": Check(JOBS, ["key exchange while syncing", "key exchange live", "refilled", "not refilled"], BOUNDS,
                 OUTSIDE),
    "C11": Check(JOBS, ["empty message", "no empty message"], BOUNDS, OUTSIDE),
}
