"""C01 - C06: encryption."""

from .common import *  # noqa: F401,F403


def encrypt_scenario(
    ctx, nss, people, recipients, extra_ns=(), others=(), order=None, cross_ids=False, known=True, fixed=None,
    share_ik=False, decide_all=False, trust_absent=False, decide_fails=False, unknown_levels=False,
    sym_ik=False, sparse=False, crowd=(), earlier=None
):
    """
    people: {jid: number of devices}; others: JIDs that are not recipients but have trusted devices on record.
    order: None, or a list of priority orders to choose from ("none" means: parameter not given).
    crowd: further devices whose ids and other attributes are fixed, as (JID, number, attributes).
    earlier: the manager has been used before (see Earlier).
    sparse: the application doesn't give a plaintext for each version; what comes of it is unspecified, and only the
    arguments are looked at.
    """
    w = World(ctx, list(nss))
    names, jids = [], []
    for jid, n in people.items():
        for k in range(n):
            names.append(f"{jid.split('@')[0]}{k}")
            jids.append(jid)
    ids = device_ids(ctx, ["own_id"] + names, distinct=not cross_ids)
    own_id, ids = ids[0], ids[1:]
    own_fixed = [fixed] * len(ids)
    for jid, n, attributes in crowd:
        for k in range(n):
            jids.append(jid)
            names.append(f"crowd.{jid.split('@')[0]}{k}")
            for i in ids if not ctx.concrete else []:
                if type(i) is not int:
                    ctx.assume(num(i) != 10000 + len(ids))
            if not ctx.concrete:
                ctx.assume(num(own_id) != 10000 + len(ids))
            ids = ids + [10000 + len(ids)]
            own_fixed.append(attributes)
    if cross_ids:
        for i in range(len(ids)):
            if jids[i] == OWN:
                ctx.assume(num(ids[i]) != num(own_id))
            for j in range(i):
                if jids[i] == jids[j]:
                    ctx.assume(num(ids[i]) != num(ids[j]))
    w.seed_own(own_id)
    all_ns = list(nss) + list(extra_ns)
    devs = []
    for k, name in enumerate(names):
        kn = known
        if kn == "either":
            kn = ctx.flag(f"{name}.known")
        ik = ik_of(1) if share_ik else ik_of(k + 1)
        other_ik = ik_of(0x30 + k)
        if sym_ik:
            ik, other_ik = symbolic_keys(ctx, name)
        devs.append(Dev(w, jids[k], ids[k], name, all_ns, ik=ik, known=kn, fixed=own_fixed[k], trust_absent=trust_absent,
                        other_ik=other_ik, level_name="lvl.shared" if share_ik is True else None,
                        label=f"label-{name}"))
    people = dict.fromkeys(jids)
    for jid in people:
        mine = [d.id for d in devs if d.jid == jid]
        put_list(w, jid, ([own_id] if jid == OWN else []) + mine)
    if OWN not in people:
        put_list(w, OWN, [own_id])
    attach(w, devs)
    loaded = list(nss)

    # the decision callback may assign any level (or none) to any device
    new_level = {}
    identifier = "chat-42" if len(loaded) == 1 else ""

    def text_for(ns):
        return b"" if len(loaded) > 1 and ns == loaded[0] else b"plain:" + ns.encode()

    async def decide_trust(manager, undecided, ident):
        if decide_fails and ctx.decide(ctx.flag("decision_fails_early")):
            raise omemo.TrustDecisionFailed("decision")
        for d in devs:
            if not decide_all and not any(ctx.decide(d.is_(u.bare_jid, u.device_id)) for u in undecided):
                continue
            ik = d.record()
            if not isinstance(ik, bytes) or (d.jid, ik) in new_level:
                continue
            if ctx.decide(d._flag(f"{d.name}.decided", d.fixed.get("decided"))):
                new = f"new.{d.name}"
                if "newlevel" in d.fixed:
                    w.level_term_by_name[new] = z3.IntVal(d.fixed["newlevel"])
                new_level[(d.jid, ik)] = new
                await manager.set_trust(d.jid, ik, new)
        if decide_fails and ctx.decide(ctx.flag("decision_fails_late")):
            raise omemo.TrustDecisionFailed("decision")
    w.decide_trust = decide_trust
    if unknown_levels:
        def evaluate(device):
            # the trust system doesn't know some of the recorded levels
            if device.trust_level_name != UNDECIDED_NAME and ctx.decide(
                    ctx.flag(f"unknown.{device.trust_level_name}")):
                raise omemo.UnknownTrustLevel(device.trust_level_name)
            return w.default_evaluate(device)
        w.evaluate = evaluate
    past = Earlier(w, devs, loaded, own_id, earlier) if earlier else None

    async def run():
        sm = await w.create()
        await sm.after_history_sync()
        if past:
            for jid in set(recipients) | {OWN} if "directly" not in earlier else ():
                await sm.get_device_information(jid)
            try:
                await sm.encrypt(set(recipients), {ns: b"earlier" for ns in loaded}, None, "earlier")
            except (omemo.NoEligibleDevices, omemo.StillUndecided):
                pass
            await past.over(sm)
        w.log.clear()
        w.evaluations.clear()

        priority = None
        if order is not None:
            choice = order[ctx.choose("order", len(order))]
            priority = None if choice == "none" else list(choice)
        effective = loaded if priority is None else priority
        unavailable = [ns for ns in effective if ns not in loaded]

        plaintext = {ns: text_for(ns) for ns in loaded
                     if not sparse or ctx.decide(ctx.flag(f"plaintext.{ns}"))}
        bare_jids = set(recipients)
        plaintext_before, priority_before = dict(plaintext), None if priority is None else list(priority)
        error, messages, errors = None, None, None
        try:
            messages, errors = await sm.encrypt(bare_jids, plaintext, priority, identifier)
        except omemo.OMEMOException as e:
            error = e
        except LookupError as e:
            if not sparse:
                raise
            error = e
        ctx.outcome = type(error).__name__ if error else "success"
        ctx.reach(ctx.outcome)
        events = list(w.log)
        ctx.check("C32", "recipients unmodified", bare_jids == set(recipients))
        ctx.check("C32", "plaintext unmodified", plaintext == plaintext_before)
        ctx.check("C32", "priority order unmodified", priority == priority_before)
        if sparse:
            return

        # -- ground truth -------------------------------------------------------------------------------
        targets = set(recipients) | {OWN}
        cand, chosen, level_before, level_after, has_key, rec, obtained = ({} for _ in range(7))
        for d in devs:
            rec[d] = d.record()
            untouched = rec[d] == "untouched"
            if untouched:
                rec[d] = d.ik
            usable = Or(*[And(d.sup[ns], d.bundle_status[ns] == 0) for ns in d.nss])
            has_key[d] = Or(d.known, usable)
            chosen[d] = {}
            higher = []
            for ns in effective:
                here = And(d.sup[ns], d.act[ns])
                chosen[d][ns] = And(here, *[Not(h) for h in higher])
                higher.append(here)
            cand[d] = And(d.jid in targets, has_key[d], Or(*higher))
            name = d.level_name[rec[d]] if isinstance(rec[d], bytes) else None
            before = w.level_term(name) if name else z3.IntVal(-1)
            if trust_absent and name:
                absent = ctx.flag(f"{d.name}.trust_absent" + ("" if rec[d] == d.ik else "'"))
                before = z3.If(absent, z3.IntVal(2), before)
            if untouched:
                before = z3.If(d.known, before, z3.IntVal(-1))
            level_before[d] = before
            obtained[d] = isinstance(rec[d], bytes) and Or(not untouched, d.known)
        asked = Or(*[And(cand[d], level_before[d] == 2) for d in devs])
        for d in devs:
            new = new_level.get((d.jid, rec[d])) if isinstance(rec[d], bytes) else None
            level_after[d] = level_before[d] if new is None else w.level_term(new)
        still = Or(*[And(cand[d], level_after[d] == 2) for d in devs])
        if unavailable:
            ctx.check("C09", "unavailable namespace rejected", isinstance(error, omemo.UnknownNamespace))
            ctx.check("C05", "unavailable namespace rejected", isinstance(error, omemo.UnknownNamespace))
            for prop in ("C01", "C03", "C04", "C06"):
                ctx.check(prop, "nothing encrypted for an unavailable namespace", not [
                    e for e in events if e[0] in ("encrypt_plaintext", "encrypt_key", "build_active")
                ])
            return
        if isinstance(error, (omemo.TrustDecisionFailed, omemo.UnknownTrustLevel)):
            used = [e for e in events if e[0] in ("encrypt_plaintext", "encrypt_key", "build_active", "store_session")]
            for prop in ("C01", "C04", "C05", "C06"):
                ctx.check(prop, "a failing decision encrypts and persists nothing", not used)
            ctx.check("C04", "failed because the trust system failed", decide_fails or unknown_levels)
            ctx.check("C04", "at most one decision request", len(w.trust_queries) <= 1)
            if isinstance(error, omemo.TrustDecisionFailed):
                ctx.check("C04", "failing decision only where one is needed", asked)
            else:
                ctx.check("C04", "unknown level only if a candidate has one", Or(*[
                    And(cand[d], z3.Or(*[ctx.flag(f"unknown.{n}") for n in (
                        list(d.level_name.values()) + [f"new.{d.name}"])])) for d in devs
                ]))
            return
        if decide_fails:
            ctx.check("C04", "a failing decision is passed on", Not(And(asked, Or(
                ctx.flag("decision_fails_early"), ctx.flag("decision_fails_late")))))
        if unknown_levels:
            for d in devs:
                if isinstance(rec[d], bytes):
                    unknown = ctx.flag(f"unknown.{d.level_name[rec[d]]}")
                    for prop in ("C01", "C04"):
                        ctx.check(prop, "unknown trust levels are refused", Not(And(cand[d], unknown)))
        proceeds = And(Not(still))

        def success(d, ns):
            ik = rec[d]
            matches = Or(
                And(d.bundle_ik_same[ns], same_key(ik, d.ik)), And(Not(d.bundle_ik_same[ns]), same_key(ik, d.other_ik))
            )
            return Or(d.sess[ns] != SESS_NONE, And(
                d.bundle_status[ns] == 0, matches, Not(d.kexfail[ns])
            ))
        wants = {d: {ns: And(cand[d], chosen[d][ns], level_after[d] == 0) for ns in effective} for d in devs}
        gets = {d: {ns: And(wants[d][ns], success(d, ns)) for ns in effective} for d in devs}

        # -- C01: nothing is ever encrypted for a device that isn't a trusted, active recipient ------------
        touched = [e for e in events if e[0] in ("encrypt_key", "build_active")]
        in_messages = []
        for m in (messages or {}):
            for ekm, kex in m.keys:
                in_messages.append((m.namespace, ekm.bare_jid, ekm.device_id))
        for ns, jid, dev in [(e[1], e[2], e[3]) for e in touched] + in_messages:
            ctx.reach("key encrypted")
            ctx.check("C01", "only for known devices of the recipients and the own account", Or(*[
                d.is_(jid, dev) for d in devs if d.jid in targets
            ]))
            ctx.check("C01", "not for the sending device", Not(And(eq(jid, OWN), eq(dev, own_id))))
            for d in devs:
                here = d.is_(jid, dev)
                ctx.check("C01", "only active for the message's namespace", Implies(here, And(
                    d.sup[ns], d.act[ns]
                )) if ns in d.sup else Not(here))
                ctx.check("C01", "only trusted after the decision", Implies(here, level_after[d] == 0))
        if touched:
            ctx.check("C01", "no encryption while undecided", proceeds)
        for e in events:
            if e[0] == "encrypt_key":
                ctx.check("C01", "loaded backends only", e[1] in effective)

        # -- C02: new sessions only with the identity key on record ------------------------------------------
        for e in events:
            if e[0] != "build_active":
                continue
            _, ns, jid, dev, bundle, _pkm = e
            ctx.reach("session built")
            ctx.check("C02", "bundle belongs to the device", And(
                eq(bundle.bare_jid, jid), eq(bundle.device_id, dev), bundle.namespace == ns
            ))
            for d in devs:
                here = d.is_(jid, dev)
                if isinstance(rec[d], bytes):
                    ctx.check("C02", "session built with the identity key on record", Implies(
                        here, eq(bundle.identity_key, rec[d])
                    ), f"{d.name}")
                else:
                    ctx.check("C02", "no session without an identity key on record", Not(here))
        for d in devs:
            if isinstance(rec[d], bytes):
                ctx.check("C02", "recorded identity key unchanged", Implies(d.known, eq(rec[d], d.ik)))

        # -- C03: every eligible device exactly once, errors reported exactly ------------------------------
        for d in devs:
            for prop in ("C03", "C05"):
                ctx.check(prop, "identity keys of the recipients' devices are obtained if possible", Implies(
                    cand[d], obtained[d]), d.name)
        for prop in ("C03", "C05"):
            ctx.check(prop, "a failing device fails nothing but itself", error is None or isinstance(
                error, (omemo.NoEligibleDevices, omemo.StillUndecided)), type(error).__name__)
        if error is None:
            used = set()
            for m in messages:
                ctx.check("C03", "one message per backend", m.namespace not in used)
                used.add(m.namespace)
                ctx.check("C03", "sender header", And(eq(m.bare_jid, OWN), eq(m.device_id, own_id)))
                ctx.check("C03", "known namespace", m.namespace in loaded)
                ctx.check("C03", "plaintext of this backend", And(
                    not m.content.empty, eq(m.content.plaintext, text_for(m.namespace))
                ))
                pkm = messages[m]
                made = [e for e in events if e[0] == "encrypt_plaintext" and e[3] is pkm and e[1] == m.namespace]
                ctx.check("C03", "key material belongs to the content", len(made) == 1 and made[0][4] is m.content)
                for ekm, _ in m.keys:
                    ctx.check("C03", "key material of this message is transported", ekm.pkm is pkm)
            for d in devs:
                for ns in loaded:
                    n = count([d.is_(jid, dev) for n_, jid, dev in in_messages if n_ == ns])
                    want = gets[d][ns] if ns in effective else z3.BoolVal(False)
                    ctx.check("C03", "each eligible device exactly once", n == z3.If(want, 1, 0), f"{d.name} {ns}")
                    n = count([And(d.is_(x.bare_jid, x.device_id)) for x in errors if x.namespace == ns])
                    miss = And(wants[d][ns], Not(success(d, ns))) if ns in effective else z3.BoolVal(False)
                    ctx.check("C03", "each failed device exactly once in the errors", n == z3.If(miss, 1, 0),
                              f"{d.name} {ns}")
            ctx.check("C03", "no other errors", z3.IntVal(len(errors)) == count(
                [And(wants[d][ns], Not(success(d, ns))) for d in devs for ns in effective]
            ))
            ctx.check("C03", "no other keys", z3.IntVal(len(in_messages)) == count(
                [gets[d][ns] for d in devs for ns in effective]
            ))
            for x in errors:
                ctx.reach("error reported")
                ctx.check("C03", "kind of error", isinstance(x.exception, (
                    omemo.BundleDownloadFailed, omemo.BundleNotFound, omemo.KeyExchangeFailed
                )))

        # -- C04: trust decisions --------------------------------------------------------------------------
        ctx.check("C04", "decision requested iff needed", Iff(asked, len(w.trust_queries) == 1))
        ctx.check("C04", "at most one decision request", len(w.trust_queries) <= 1)
        for undecided, ident in w.trust_queries:
            ctx.reach("trust decision requested")
            ctx.check("C04", "identifier unaltered", ident == identifier)
            for d in devs:
                n = count([d.is_(u.bare_jid, u.device_id) for u in undecided])
                ctx.check("C04", "exactly the undecided candidates", n == z3.If(
                    And(cand[d], level_before[d] == 2), 1, 0
                ), d.name)
            for u in undecided:
                ctx.check("C04", "identity key of the undecided device", Or(*[
                    And(d.is_(u.bare_jid, u.device_id), eq(u.identity_key, rec[d]))
                    for d in devs if isinstance(rec[d], bytes)
                ]))
        ctx.check("C04", "StillUndecided iff undecided devices remain", Iff(
            still, isinstance(error, omemo.StillUndecided)
        ))
        stores = [e for e in events if e[0] == "store_session"]
        if isinstance(error, omemo.StillUndecided):
            ctx.check("C04", "nothing encrypted or persisted", not touched and not stores and not [
                e for e in events if e[0] == "encrypt_plaintext"
            ])

        # -- C05: no silent loss of a recipient ---------------------------------------------------------------
        lost = {jid: And(*[Not(gets[d][ns]) for d in devs if d.jid == jid for ns in effective])
                for jid in recipients if jid != OWN}
        any_lost = And(proceeds, Or(*lost.values()))
        ctx.check("C05", "NoEligibleDevices iff a recipient gets nothing", Iff(
            any_lost, isinstance(error, omemo.NoEligibleDevices)
        ))
        if isinstance(error, omemo.NoEligibleDevices):
            for jid, term in lost.items():
                ctx.check("C05", "exactly the lost recipients are named", Iff(term, jid in error.bare_jids), jid)
            ctx.check("C05", "nobody else is named", all(j in lost for j in error.bare_jids))
        if error is not None:
            ctx.check("C05", "failure persists no session", not stores)
        ctx.check("C05", "documented failure", error is None or isinstance(
            error, (omemo.NoEligibleDevices, omemo.StillUndecided)
        ), type(error).__name__)

        # -- C06: sessions persisted in their advanced state ---------------------------------------------------
        if error is None:
            for m in messages:
                for ekm, kex in m.keys:
                    d = next((d for d in devs if ctx.decide(d.is_(ekm.bare_jid, ekm.device_id))), None)
                    if d is None:
                        continue
                    s = w.sessions[m.namespace].get((ekm.bare_jid, ekm.device_id))
                    mine = [e for e in stores if e[1] == m.namespace and ctx.decide(d.is_(e[2], e[3]))]
                    ctx.check("C06", "session persisted before the message is handed out", len(mine) >= 1 and (
                        s is not None and s.lineage == ekm.lineage
                    ), d.name)
                    if s is None:
                        continue
                    ctx.check("C06", "persisted state includes this message", eq(
                        s.sent, 1 + (d.sent.get(m.namespace, 0) if past else 0)), d.name)
                    unconfirmed = s.initiation is Initiation.ACTIVE and not s.confirmed
                    ctx.reach("unconfirmed active" if unconfirmed else "confirmed or passive")
                    ctx.check("C06", "key exchange attached iff active and unconfirmed",
                              (kex is s.key_exchange) if unconfirmed else (kex is None), d.name)
            for e in stores:
                ctx.check("C06", "only sessions of this operation are stored", Or(*[
                    And(e[1] == ns, eq(e[2], jid), eq(e[3], dev)) for ns, jid, dev in in_messages
                ]))
    return run()


PLAIN = {"sup": True, "kexfail": False, "bundleik": True}
SIMPLE = {"sup": True, "act": True, "kexfail": False, "bundleik": True, "bundle": 0}

SPARSE_JOBS = [
    Job("sparse-plaintext", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 1}, recipients=[BOB], sparse=True,
        order=["none", (NS_A, NS_B), (NS_B, NS_A)], fixed=dict(PLAIN))),
]
FINE = dict(SIMPLE, level=0, sess=SESS_ACTIVE_CONFIRMED)
FRESH = dict(FINE, sess=SESS_NONE)
BROKEN = dict(FRESH, bundle=1)
UNDECIDED = dict(FINE, level=2, decided=True, newlevel=0)
JOBS = [
    Job("many-devices", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB], fixed=dict(PLAIN, act=True),
        crowd=[(BOB, 18, FINE), (OWN, 12, FINE), (DAVE, 2, FINE)])),
    Job("many-new-sessions", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB, CAROL], fixed=dict(PLAIN, act=True, level=0),
        crowd=[(BOB, 10, BROKEN), (CAROL, 10, FRESH), (OWN, 10, BROKEN)])),
    Job("many-undecided", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB, CAROL], fixed=dict(PLAIN, act=True),
        crowd=[(BOB, 12, UNDECIDED), (CAROL, 12, UNDECIDED)])),
    Job("many-recipients", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB] + [f"r{k}@example.org" for k in range(14)],
        fixed=dict(PLAIN, act=True),
        crowd=[(f"r{k}@example.org", 1, FINE if k % 3 else BROKEN) for k in range(14)])),
    Job("many-reachable-recipients", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB] + [f"r{k}@example.org" for k in range(14)],
        fixed=dict(PLAIN, act=True), crowd=[(f"r{k}@example.org", 1, FINE) for k in range(14)])),
    Job("earlier-bundles-failed", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB], known="either", earlier="fail trust", fixed={
            "sup": True, "sess": 0})),
    Job("earlier-bundles-missing", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 1}, recipients=[BOB], known="either", earlier="notfound", fixed={
            "sup": True, "sess": 0, "kexfail": False, "bundleik": True})),
    Job("earlier-one-bundle-failed", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], earlier="fail", fixed={
            "sup": True, "act": True, "level": 0, "kexfail": False, "bundleik": True})),
    Job("earlier-success", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB], earlier="ok trust", fixed={"sup": True})),
    Job("earlier-bundles-obtained", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1}, recipients=[BOB], known="either", earlier="ok trust directly", fixed={"sup": True})),
    Job("earlier-other-lists", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 1}, recipients=[BOB], earlier="ok lists", fixed={
            "sup": True, "kexfail": False, "bundleik": True})),
    Job("earlier-success-own", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, OWN: 1}, recipients=[BOB], earlier="ok trust lists", fixed={
            "sup": True, "kexfail": False, "bundleik": True, "bundle": 0})),
    Job("one-recipient-two-devices", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], fixed={"sup": True})),
    Job("two-recipients", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, CAROL: 1}, recipients=[BOB, CAROL], fixed={"sup": True})),
    Job("own-other-device-and-bystander", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, OWN: 1, DAVE: 1}, recipients=[BOB], cross_ids=True,
        fixed=dict(PLAIN, act=True))),
    Job("two-backends-priorities", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 1}, recipients=[BOB], extra_ns=[NS_C],
        order=["none", (NS_A, NS_B), (NS_B, NS_A), (NS_A,), (NS_B,), (NS_B, NS_C), ()])),
    Job("two-backends-two-devices", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 2}, recipients=[BOB], order=["none", (NS_B, NS_A)],
        fixed=dict(SIMPLE, act=None, level=0))),
    Job("two-backends-failing-devices", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 2}, recipients=[BOB], order=["none", (NS_B, NS_A)],
        fixed=dict(act=True, level=0, kexfail=False, bundleik=True, sess=0))),
    Job("identity-key-unknown", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 1}, recipients=[BOB], known="either", fixed={"kexfail": False, "act": True})),
    Job("identity-key-unknown-two", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], known="either", fixed={"kexfail": False, "act": True, "sup": True})),
    Job("identity-key-unknown-same-ids", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, CAROL: 1}, recipients=[BOB, CAROL], known="either", cross_ids=True,
        fixed={"kexfail": False, "act": True, "sup": True, "level": 0})),
    Job("identity-key-unknown-same-ids-own", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, OWN: 1}, recipients=[BOB], known="either", cross_ids=True,
        fixed={"kexfail": False, "act": True, "sup": True, "level": 0})),
    Job("trust-system-fails", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], decide_fails=True, fixed=dict(SIMPLE, sess=0))),
    Job("trust-level-unknown", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, OWN: 1}, recipients=[BOB], unknown_levels=True, fixed=dict(SIMPLE, sess=0, act=None))),
    Job("any-identity-key", encrypt_scenario, dict(
        nss=[NS_A, NS_B], people={BOB: 1}, recipients=[BOB], known="either", sym_ik=True,
        fixed={"kexfail": False, "act": True, "sess": 0, "level": 0})),
    Job("own-device-id-elsewhere", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2, OWN: 1}, recipients=[BOB], cross_ids=True,
        fixed=dict(SIMPLE, sess=3))),
    Job("only-own-devices", encrypt_scenario, dict(
        nss=[NS_A], people={OWN: 2}, recipients=[],
        fixed={"sup": True, "kexfail": False, "act": True})),
    Job("own-jid-listed", encrypt_scenario, dict(
        nss=[NS_A], people={OWN: 1, BOB: 1}, recipients=[OWN, BOB], fixed=dict(PLAIN))),
    Job("shared-identity-key", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], share_ik=True, fixed=dict(PLAIN))),
    Job("identity-key-in-two-accounts", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 1, CAROL: 1}, recipients=[BOB, CAROL], share_ik="cross", cross_ids=True,
        fixed=dict(SIMPLE, sess=0))),
    Job("decision-changes-anyone", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], decide_all=True, fixed=dict(SIMPLE, sess=3))),
    Job("trust-never-recorded", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2}, recipients=[BOB], trust_absent=True, fixed=dict(SIMPLE, sess=0))),
    Job("backends-in-another-order", encrypt_scenario, dict(
        nss=[NS_B, NS_A], people={BOB: 1}, recipients=[BOB], fixed=dict(SIMPLE, sess=None))),
    Job("three-devices", encrypt_scenario, dict(
        nss=[NS_A], people={BOB: 2, OWN: 1}, recipients=[BOB], fixed=dict(PLAIN, act=True))),
]

BOUNDS = ["up to 3 recipient accounts incl. the own one, up to 3 devices in total, up to 2 loaded backends plus one "
          "namespace that is not loaded; crowds of up to 32 more devices or 14 more recipients with fixed attributes", "device ids range over [1, 2^31-1]"]
OUTSIDE = ["storage failures in the middle of an encryption"]

CHECKS = {
    p: Check([j for j in JOBS if names is None or j.name in names], reach, BOUNDS, OUTSIDE)
    for p, names, reach in [
        ("C01", None, ["key encrypted", "success", "StillUndecided"]),
        ("C02", None, ["session built"]),
        ("C03", None, ["success", "error reported"]),
        ("C04", None, ["trust decision requested", "StillUndecided"]),
        ("C05", None, ["NoEligibleDevices", "success"]),
        ("C06", None, ["unconfirmed active", "confirmed or passive"]),
    ]
}
