"""C13 - C16: device lists and device information."""

from .common import *  # noqa: F401,F403


class Known:
    """A device on record with symbolic namespaces/activity, and its place in the update that comes in."""

    def __init__(self, w, jid, dev_id, name, nss, ik, label, dangling=False, fixed=None):
        ctx = w.ctx
        fixed = fixed or {}
        self.jid, self.id, self.name, self.ik = jid, dev_id, name, ik
        self.sup = {ns: fixed["sup"][ns] if fixed else ctx.flag(f"{name}.sup.{ns}") for ns in nss}
        self.act = {ns: fixed["act"][ns] if fixed else ctx.flag(f"{name}.act.{ns}") for ns in nss}
        # a crash may have left activity information for a namespace that isn't listed (yet)
        self.dangling = {ns: ctx.flag(f"{name}.dangling.{ns}") if dangling else z3.BoolVal(False) for ns in nss}
        self.label = label
        self.base = f"/devices/{jid}/{dev_id}"
        w.put(f"{self.base}/namespaces", Lazy(lambda: [ns for ns in nss if ctx.decide(self.sup[ns])]))
        w.put(f"{self.base}/active", Lazy(lambda: {
            ns: ctx.decide(self.act[ns]) for ns in nss if ctx.decide(Or(self.sup[ns], self.dangling[ns]))
        }))
        w.put(f"{self.base}/label", label)
        if ik is not None:
            w.put(f"{self.base}/identity_key", b64(ik))
            w.put(f"/trust/{jid}/{b64(ik)}", f"level-of-{name}")
        self.own = False


def label_choice(ctx, name, symbolic=True):
    """An optional label: None, or an arbitrary short string (possibly empty)."""
    if ctx.decide(ctx.flag(f"{name}.none")):
        return None
    return ctx.str(name, 3) if symbolic else f"label:{name}"


def norm(x):
    return x


def label_eq(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return eq(a, b)


def snapshot(devices):
    return {id(d.device_id): d for d in devices}


def find_info(ctx, infos, dev_id):
    out = []
    for d in infos:
        if d.device_id is dev_id or ctx.decide(eq(d.device_id, dev_id)):
            out.append(d)
    return out


def update_scenario(ctx, nss=(NS_A, NS_B), jid=BOB, old=1, new=1, crash=False, via="update", label_strings=True,
                    dangling=False, fault=False, second=False, restart=False, crowd=0, earlier=False):
    """
    An update of the device list of ``jid`` for the first namespace, from any recorded state to any list.
    crowd: as many further devices, some of them listed, and as many new ones, all of them with fixed attributes.
    earlier: there has been an update for the same list before.
    crash: the process may die before any store or upload; the update is repeated after a restart.
    """
    w = World(ctx, list(nss))
    own_names = [f"old{k}" for k in range(old)]
    new_names = [f"new{k}" for k in range(new)]
    ids = device_ids(ctx, ["own_id"] + own_names + new_names + ["bystander"], distinct=True)
    own_id, bystander_id = ids[0], ids[-1]
    w.seed_own(own_id, label="own label")
    target = NS_A
    is_own = jid == OWN
    knowns = []
    for k, name in enumerate(own_names):
        knowns.append(Known(w, jid, ids[1 + k], name, nss, ik_of(k + 1),
                            label_choice(ctx, f"{name}.label", label_strings), dangling))
    for k in range(crowd):
        knowns.append(Known(w, jid, 10000 + k, f"crowd{k}", nss, ik_of(0x10 + k), f"crowd label {k}", fixed={
            "sup": {ns: z3.BoolVal(ns == NS_A or k % 4 == 0) for ns in nss},
            "act": {ns: z3.BoolVal(k % 3 == 0) for ns in nss},
        }))
    if crowd and not ctx.concrete:
        for i in ids:
            ctx.assume(Or(num(i) < 10000, num(i) >= 10000 + 2 * crowd))
    put_list(w, jid, ([own_id] if is_own else []) + [d.id for d in knowns])
    bystander = Known(w, CAROL, bystander_id, "bystander", nss, ik_of(9), "bystander label")
    put_list(w, CAROL, [bystander_id])
    w.bundle_init = lambda ns, j, dev: StubBundle(ns, j, dev, ik_of(7), "content")
    new_ids = ids[1 + old:1 + old + new] + [10000 + crowd + k for k in range(crowd)]

    async def run():
        sm = await w.create()
        before = {d.name: (await sm_info(sm, CAROL)) for d in [bystander]}
        if earlier:
            first = {own_id: None} if is_own and ctx.decide(ctx.flag("own_listed_earlier")) else {}
            for d in knowns:
                there = ctx.decide(ctx.flag(f"{d.name}.listed_earlier"))
                if there:
                    first[d.id] = label_choice(ctx, f"{d.name}.earlier_label", label_strings)
                    d.label = d.label if first[d.id] is None else first[d.id]
                    d.sup[target] = z3.BoolVal(True)
                d.act[target] = z3.BoolVal(there)
            w.device_lists[(target, jid)] = dict(first)
            if via == "update":
                await sm.update_device_list(target, jid, first)
            else:
                await sm.refresh_device_list(target, jid)
            await sm.get_device_information(jid)
            ctx.reach("updated before")
        # -- the incoming list ---------------------------------------------------------------------------
        incoming = {}
        present = {}
        own_present = is_own and ctx.decide(ctx.flag("own_listed"))
        if own_present:
            incoming[own_id] = label_choice(ctx, "own.newlabel", False)
        for d in knowns:
            if d.name.startswith("crowd"):
                if int(d.name[5:]) % 2:
                    incoming[d.id] = None
                    present[d.name] = True
                continue
            if ctx.decide(ctx.flag(f"{d.name}.listed")):
                incoming[d.id] = label_choice(ctx, f"{d.name}.newlabel", label_strings)
                present[d.name] = True
        for k, dev in enumerate(new_ids):
            if k >= new:
                incoming[dev] = f"new label {k}"
            elif ctx.decide(ctx.flag(f"new{k}.listed")):
                incoming[dev] = label_choice(ctx, f"new{k}.newlabel", label_strings)
        given = dict(incoming)
        # own list: nothing but the own entry, other accounts: as given
        w.device_lists[(target, jid)] = dict(incoming)
        w.log.clear()

        async def update(manager):
            if via == "update":
                await manager.update_device_list(target, jid, incoming)
            elif via == "refresh":
                await manager.refresh_device_list(target, jid)
            else:
                for n in nss[1:]:
                    w.device_lists[(n, jid)] = dict(w.device_lists.get((n, jid), {}))
                await manager.refresh_device_lists(jid)

        crashed = False
        if crash:
            w.crash_term = ctx.int_term("crash_point")
            ctx.assume(w.crash_term >= 0) if not ctx.concrete else None
            try:
                await update(sm)
            except Crash:
                crashed = True
                ctx.reach("crashed")
            w.crash_term = None
        elif fault:
            w.fault_kinds = frozenset(["upload_device_list", "storage_store"])
            w.fault_budget = 1
            try:
                await update(sm)
            except (omemo.DeviceListUploadFailed, omemo.StorageException):
                crashed = True
                ctx.reach("failed")
            w.fault_budget = 0
        else:
            await update(sm)
        ctx.check("C32", "device list parameter unmodified", list(incoming.items()) == list(given.items()))

        if crashed:
            if crash:
                sm = await w.create()
            # whatever is recorded now is readable, and no key or trust is lost
            infos = await sm.get_device_information(jid)
            for d in knowns:
                found = find_info(ctx, infos, d.id)
                ctx.check("C15", "known devices survive an interruption", len(found) == 1)
                for i in found:
                    ctx.check("C15", "identity key and trust survive an interruption",
                              i.identity_key == d.ik and i.trust_level_name == f"level-of-{d.name}")
                    for ns in nss:
                        if ns == target:
                            continue
                        ctx.check("C15", "other namespaces survive an interruption", Iff(
                            d.sup[ns], ns in i.namespaces
                        ))
                    for ns in i.namespaces:
                        ctx.check("C15", "activity is known for every namespace", ns in dict(i.active))
            await update(sm)

        # -- what has to be on record now -------------------------------------------------------------------
        prop_after = "C15" if crash or fault else "C13"
        if restart and ctx.decide(ctx.flag("restart")):
            # only what has been persisted counts
            sm = await w.create()
            ctx.reach("restart")
        infos = await sm.get_device_information(jid)
        ctx.outcome = f"{len(infos)} devices"
        ctx.reach(ctx.outcome)
        expected = len(knowns) + sum(1 for dev in new_ids if any(dev is k for k in incoming)) + (1 if is_own else 0)
        ctx.check(prop_after, "devices are never forgotten, new ones are added", len(infos) == expected)
        for d in knowns:
            listed = d.name in present
            found = find_info(ctx, infos, d.id)
            ctx.check(prop_after, "known device kept", len(found) == 1, d.name)
            for i in found:
                active = dict(i.active)
                for ns in nss:
                    if ns == target:
                        want_sup = Or(d.sup[ns], listed)
                        want_act = z3.BoolVal(listed)
                    else:
                        want_sup = d.sup[ns]
                        want_act = d.act[ns]
                    ctx.check(prop_after, "namespaces", Iff(want_sup, ns in i.namespaces), f"{d.name} {ns}")
                    if ns in i.namespaces:
                        ctx.check(prop_after, "activity", And(ns in active, Iff(want_act, active.get(ns, False))),
                                  f"{d.name} {ns}")
                        ctx.reach("active" if active.get(ns) else "inactive")
                want_label = incoming[d.id] if listed and incoming[d.id] is not None else d.label
                ctx.check(prop_after, "label", label_eq(i.label, want_label), d.name)
                ctx.check(prop_after, "identity key and trust unaffected", i.identity_key == d.ik and
                          i.trust_level_name == f"level-of-{d.name}", d.name)
        for k, dev in enumerate(new_ids):
            found = find_info(ctx, infos, dev)
            if any(dev is x for x in incoming):
                ctx.check(prop_after, "new device added", len(found) == 1)
                for i in found:
                    ctx.reach("new device")
                    ctx.check(prop_after, "new device under this namespace only", i.namespaces == {target} and
                              dict(i.active) == {target: True})
                    ctx.check(prop_after, "label of the new device", label_eq(i.label, incoming[dev]))
                    ctx.check(prop_after, "new device undecided", i.trust_level_name == UNDECIDED_NAME)
            else:
                ctx.check(prop_after, "no other device added", not found)
        after = await sm_info(sm, CAROL)
        ctx.check(prop_after, "other accounts unaffected", after == before["bystander"])

        # -- C14 ---------------------------------------------------------------------------------------------
        prop_own = "C15" if crash or fault else "C14"
        uploads = [e for e in w.log if e[0] == "upload_device_list"]
        if is_own:
            own, others = await sm.get_own_device_information()
            ctx.check(prop_own, "own device active", And(
                eq(own.device_id, own_id), target in own.namespaces and dict(own.active).get(target) is True
            ))
            server = w.device_lists[(target, OWN)]
            ctx.check(prop_own, "own device published", any(ctx.decide(eq(k, own_id)) for k in server))
            ctx.check(prop_own, "published list has nothing but the given entries and the own one", len(server) == len(
                given) + (0 if own_present else 1))
            for dev, label in given.items():
                hit = [v for k, v in server.items() if k is dev or ctx.decide(eq(k, dev))]
                ctx.check(prop_own, "published entries are preserved", len(hit) == 1 and And(
                    label_eq(hit[0], label)) if hit else False)
            if not own_present:
                ctx.reach("own device re-added")
                own_label = [v for k, v in server.items() if k is own_id or ctx.decide(eq(k, own_id))]
                ctx.check(prop_own, "own label published", own_label == ["own label"])
            else:
                ctx.reach("own device listed")
            for e in uploads:
                ctx.check(prop_own, "only this namespace is republished", e[1] == target)
        else:
            ctx.check("C14", "lists of other accounts are never published", not uploads)

        if second:
            # repeating the update changes nothing
            snap = infos
            await update(sm)
            again = await sm.get_device_information(jid)
            ctx.check("C13", "repeating an update changes nothing", again == snap)
    return run()


async def sm_info(sm, jid):
    return await sm.get_device_information(jid)


def unknown_namespace_scenario(ctx):
    w = World(ctx, [NS_A])
    own_id, dev = device_ids(ctx, ["own_id", "dev"])
    w.seed_own(own_id)
    jid = [BOB, OWN][ctx.choose("jid", 2)]

    async def run():
        sm = await w.create()
        w.log.clear()
        before = dict(w.disk)
        try:
            await sm.update_device_list(NS_C, jid, {dev: None})
            ctx.fail("C13", "update for a namespace that isn't loaded is rejected")
        except omemo.UnknownNamespace:
            ctx.outcome = "UnknownNamespace"
        ctx.check("C13", "rejected update has no effect", w.disk == before and not w.log)
        ctx.check("C14", "rejected update publishes nothing", not w.log)
        ctx.reach("unknown namespace")
    return run()


def refresh_all_scenario(ctx, nss=(NS_A, NS_B), jid=BOB):
    """refresh_device_lists: every loaded backend's list counts for its namespace."""
    w = World(ctx, list(nss))
    own_id, dev, new = device_ids(ctx, ["own_id", "dev", "new"], distinct=True)
    w.seed_own(own_id, label="own label")
    d = Known(w, jid, dev, "dev", list(nss) + [NS_C], ik_of(1), "label")
    put_list(w, jid, ([own_id] if jid == OWN else []) + [dev])
    w.bundle_init = lambda ns, j, i: StubBundle(ns, j, i, ik_of(7), "content")
    listed = {}
    for ns in nss:
        lst = {own_id: None} if jid == OWN and ctx.decide(ctx.flag(f"own.listed.{ns}")) else {}
        for x, name in ((dev, "dev"), (new, "new")):
            listed[(name, ns)] = ctx.decide(ctx.flag(f"{name}.listed.{ns}"))
            if listed[(name, ns)]:
                lst[x] = None
        w.device_lists[(ns, jid)] = lst

    async def run():
        sm = await w.create()
        w.log.clear()
        w.fault_kinds, w.fault_budget = frozenset(["download_device_list"]), 1
        error = None
        try:
            await sm.refresh_device_lists(jid)
        except omemo.DeviceListDownloadFailed as e:
            error = e
        w.fault_budget = 0
        ctx.check("C13", "failed downloads are reported", (error is not None) == bool(w.faults))
        if error is not None:
            ctx.reach("download failed")
            return
        infos = await sm.get_device_information(jid)
        ctx.reach("refreshed")
        ctx.outcome = f"{len(infos)} devices"
        for x, name in ((dev, "dev"), (new, "new")):
            found = find_info(ctx, infos, x)
            any_listed = any(listed[(name, ns)] for ns in nss)
            ctx.check("C13", "devices of all lists are known", len(found) == (1 if name == "dev" or any_listed else 0))
            for i in found:
                for ns in list(nss) + [NS_C]:
                    now = listed.get((name, ns), False)
                    was = d.sup[ns] if name == "dev" else z3.BoolVal(False)
                    ctx.check("C13", "namespaces after a refresh", Iff(Or(was, now), ns in i.namespaces), f"{name} {ns}")
                    if ns in i.namespaces:
                        ctx.check("C13", "activity after a refresh", Iff(
                            And(d.act[ns], d.sup[ns]) if ns == NS_C else now, dict(i.active).get(ns, False)), f"{name} {ns}")
        if jid == OWN:
            for ns in nss:
                server = w.device_lists[(ns, OWN)]
                ctx.check("C14", "own device published in every list", Or(*[eq(k, own_id) for k in server]))
                ctx.check("C14", "nothing else is published", len(server) == 1 + listed[("dev", ns)] + listed[("new", ns)])
    return run()


def information_scenario(ctx, nss=(NS_A, NS_B), devices=1, jid=BOB, unknown=True, loaded=1, inconsistent=False,
                         own_key=False, crowd=0, earlier=None):
    """get_device_information from any recorded state, any state of the server's bundles."""
    w = World(ctx, list(nss)[:loaded])
    names = [f"dev{k}" for k in range(devices)]
    ids = device_ids(ctx, ["own_id"] + names)
    own_id, ids = ids[0], ids[1:]
    w.seed_own(own_id)
    devs = []
    for k, name in enumerate(names):
        known = ctx.flag(f"{name}.known") if unknown else True
        d = Dev(w, jid, ids[k], name, list(nss), ik=OWN_IK if own_key else ik_of(k + 1), known=known, other_ik=ik_of(0x30 + k),
                trust_absent=True, label=label_choice(ctx, f"{name}.label"))
        d.missing = {ns: ctx.flag(f"{name}.missing.{ns}") if inconsistent else z3.BoolVal(False) for ns in nss}
        if inconsistent:
            w.put(f"{d.base}/active", Lazy(lambda d=d: {
                ns: ctx.decide(d.act[ns]) for ns in nss
                if ctx.decide(d.sup[ns]) and not ctx.decide(d.missing[ns])
            }))
        devs.append(d)
    for k in range(crowd):
        d = Dev(w, jid, 10000 + k, f"crowd{k}", list(nss), ik=ik_of(0x10 + k), known=k % 2 == 0,
                other_ik=ik_of(0x50 + k), label=f"crowd label {k}",
                fixed=dict(sup=True, act=k % 3 == 0, bundle=k % 4 // 2, bundleik=True))
        d.missing = {ns: z3.BoolVal(False) for ns in nss}
        for i in ids + [own_id] if not ctx.concrete else []:
            if type(i) is not int:
                ctx.assume(num(i) != 10000 + k)
        ids = ids + [d.id]
        names.append(d.name)
        devs.append(d)
    for d in devs:
        # trust in the same keys, set for other accounts
        for other in (OWN, CAROL, DAVE):
            for key in (d.ik, d.other_ik):
                if other != jid and f"/trust/{other}/{b64(key)}" not in w.disk:
                    w.put(f"/trust/{other}/{b64(key)}", "set for another account")
    put_list(w, jid, ([own_id] if jid == OWN else []) + ids)
    attach(w, devs)
    past = Earlier(w, devs, list(nss)[:loaded], own_id, earlier) if earlier else None

    async def run():
        sm = await w.create()
        w.log.clear()
        if past:
            await sm.get_device_information(jid)
            await past.over(sm)
        infos = await sm.get_device_information(jid)
        ctx.outcome = f"{len(infos)} devices"
        ctx.reach(ctx.outcome)
        extra = [i for i in infos if not any(
            i.device_id is d.id or ctx.decide(eq(i.device_id, d.id)) for d in devs)]
        ctx.check("C16", "own device reported", len(extra) == (1 if jid == OWN else 0))
        first_key = {}
        for d in devs:
            usable = Or(*[And(d.sup[ns], d.bundle_status[ns] == 0) for ns in nss])
            found = find_info(ctx, infos, d.id)
            ctx.check("C16", "device reported iff its identity key is known or can be fetched",
                      z3.IntVal(len(found)) == z3.If(Or(d.known, usable), 1, 0), d.name)
            for i in found:
                active = dict(i.active)
                ctx.check("C16", "account", i.bare_jid == jid)
                for ns in nss:
                    there = And(d.sup[ns], Not(d.missing[ns]))
                    ctx.check("C16", "namespaces", Iff(there, ns in i.namespaces), ns)
                    if ns in active:
                        ctx.check("C16", "activity", Implies(there, Iff(d.act[ns], active[ns])), ns)
                    if ns in i.namespaces:
                        ctx.check("C16", "activity present", ns in active)
                ctx.check("C16", "label", label_eq(i.label, d.label))
                ctx.check("C16", "recorded identity key", Implies(d.known, eq(i.identity_key, d.ik)))
                served = [Or(And(d.sup[ns], d.bundle_status[ns] == 0, z3.If(
                    d.bundle_ik_same[ns], eq(i.identity_key, d.ik), eq(i.identity_key, d.other_ik)
                ))) for ns in nss]
                ctx.check("C16", "identity key from a bundle of the device", Or(d.known, *served))
                if d.record() != i.identity_key:
                    ctx.fail("C16", "reported identity key is recorded")
                if i.identity_key == OWN_IK and jid == OWN:
                    ctx.check("C16", "trust of the own identity key",
                              i.trust_level_name == UNDECIDED_NAME)
                else:
                    absent = z3.BoolVal(False) if d.name.startswith("crowd") else ctx.flag(
                        f"{d.name}.trust_absent" + ("" if i.identity_key == d.ik else "'"))
                    ctx.check("C16", "trust of the reported identity key", z3.If(
                        absent, i.trust_level_name == UNDECIDED_NAME,
                        i.trust_level_name == d.level_name.get(i.identity_key)
                    ))
                first_key[d.name] = i.identity_key
                ctx.reach("key fetched" if not ctx.decide(d.known) else "key recorded")
        downloads = [e for e in w.log if e[0] == "download_bundle"]
        for e in downloads:
            for d in devs:
                ctx.check("C16", "no bundle is fetched for devices whose key is recorded", Implies(
                    d.is_(e[2], e[3]), Not(d.known)
                ))
        # the server changes its mind: the identity key stays
        for key in list(w.bundles):
            if key[1] == jid and key[2] is not own_id:
                w.bundles[key] = StubBundle(key[0], key[1], key[2], ik_of(0x3f), "changed")
        if ctx.decide(ctx.flag("restart")):
            sm = await w.create()
        again = await sm.get_device_information(jid)
        for d in devs:
            if d.name in first_key:
                found = find_info(ctx, again, d.id)
                ctx.check("C16", "identity key is pinned", len(found) == 1 and
                          found[0].identity_key == first_key[d.name])
        if jid == OWN:
            own, others = await sm.get_own_device_information()
            ctx.check("C16", "own device and others are told apart", And(
                eq(own.device_id, own_id), own.identity_key == OWN_IK, others == frozenset(
                    i for i in again if i.device_id is not own.device_id
                ), *[Not(eq(o.device_id, own_id)) for o in others]
            ))
    return run()


UPDATE_JOBS = [
    Job("update-one-known-one-new", update_scenario, dict(old=1, new=1)),
    Job("update-repeated", update_scenario, dict(old=1, new=1, label_strings=False, second=True)),
    Job("update-again", update_scenario, dict(old=1, new=1, label_strings=False, earlier=True)),
    Job("update-again-own-account", update_scenario, dict(
        jid=OWN, old=1, new=0, label_strings=False, earlier=True, nss=(NS_A,))),
    Job("update-again-labels", update_scenario, dict(old=1, new=0, earlier=True, nss=(NS_A,))),
    Job("refresh-again", update_scenario, dict(
        old=1, new=1, via="refresh", label_strings=False, earlier=True, nss=(NS_A,))),
    Job("refresh-again-own-account", update_scenario, dict(
        jid=OWN, old=1, new=1, via="refresh", label_strings=False, earlier=True, nss=(NS_A,))),
    Job("update-two-known", update_scenario, dict(nss=(NS_A,), old=2, new=0, label_strings=False)),
    Job("update-two-known-two-namespaces", update_scenario, dict(old=2, new=0, label_strings=False), "thorough"),
    Job("update-two-new", update_scenario, dict(nss=(NS_A,), old=0, new=2)),
    Job("update-after-interruption", update_scenario, dict(old=1, new=0, dangling=True, label_strings=False)),
    Job("update-own-account", update_scenario, dict(jid=OWN, old=1, new=1, label_strings=False)),
    Job("refresh", update_scenario, dict(old=1, new=1, via="refresh", nss=(NS_A,))),
    Job("refresh-own", update_scenario, dict(jid=OWN, old=1, new=1, via="refresh", nss=(NS_A,))),
    Job("refresh-all", update_scenario, dict(old=1, new=1, via="refresh_all", nss=(NS_A,))),
    Job("update-two-known-one-new", update_scenario, dict(old=2, new=1, label_strings=False), "thorough"),
    Job("update-two-known-labels", update_scenario, dict(old=2, new=1, nss=(NS_A,)), "thorough"),
    Job("update-own-two-known", update_scenario, dict(jid=OWN, old=2, new=1, label_strings=False, nss=(NS_A,)),
        "thorough"),
    Job("refresh-all-two-backends", refresh_all_scenario, dict()),
    Job("refresh-all-own-account", refresh_all_scenario, dict(jid=OWN)),
    Job("unknown-namespace", unknown_namespace_scenario, {}),
    Job("update-many-devices", update_scenario, dict(old=1, new=1, label_strings=False, crowd=16, nss=(NS_A,))),
    Job("refresh-many-own-devices", update_scenario, dict(
        jid=OWN, old=1, new=0, via="refresh", label_strings=False, crowd=16, nss=(NS_A,))),
]
CRASH_JOBS = [
    Job("crash-one-known-one-new", update_scenario, dict(old=1, new=1, crash=True, label_strings=False)),
    Job("fault-again", update_scenario, dict(
        old=1, new=1, fault=True, nss=(NS_A,), label_strings=False, restart=True, earlier=True)),
    Job("fault-again-own-account", update_scenario, dict(
        jid=OWN, old=1, new=0, fault=True, nss=(NS_A,), label_strings=False, earlier=True)),
    Job("crash-two-new", update_scenario, dict(old=0, new=2, crash=True, nss=(NS_A,), label_strings=False)),
    Job("crash-own-account", update_scenario, dict(jid=OWN, old=1, new=1, crash=True, nss=(NS_A,), label_strings=False)),
    Job("fault-one-known-one-new", update_scenario, dict(old=1, new=1, fault=True, nss=(NS_A,), label_strings=False,
                                                        restart=True)),
    Job("fault-one-known-two-namespaces", update_scenario, dict(old=1, new=0, fault=True, label_strings=False,
                                                               restart=True)),
    Job("fault-two-known", update_scenario, dict(old=2, new=0, fault=True, nss=(NS_A,), label_strings=False,
                                                 restart=True)),
    Job("fault-own-account", update_scenario, dict(jid=OWN, old=1, new=1, fault=True, nss=(NS_A,),
                                                   label_strings=False)),
    Job("crash-own-account-two-backends", update_scenario, dict(
        jid=OWN, old=1, new=1, crash=True, label_strings=False), "thorough"),
]
INFO_JOBS = [
    Job("information-one-device", information_scenario, dict()),
    Job("information-two-devices", information_scenario, dict(devices=2, nss=(NS_A,))),
    Job("information-own-account", information_scenario, dict(jid=OWN, nss=(NS_A,))),
    Job("information-shares-own-key", information_scenario, dict(jid=OWN, nss=(NS_A,), own_key=True)),
    Job("information-own-key-elsewhere", information_scenario, dict(nss=(NS_A,), own_key=True)),
    Job("information-inconsistent", information_scenario, dict(inconsistent=True, unknown=False, loaded=2)),
    Job("information-many-devices", information_scenario, dict(nss=(NS_A,), crowd=16)),
    Job("information-many-own-devices", information_scenario, dict(nss=(NS_A,), crowd=16, jid=OWN, unknown=False)),
    Job("information-again", information_scenario, dict(nss=(NS_A,), earlier="fail trust")),
    Job("information-again-lists", information_scenario, dict(nss=(NS_A,), earlier="ok lists", unknown=False)),
    Job("information-again-missing", information_scenario, dict(earlier="notfound", loaded=2)),
    Job("information-again-own-account", information_scenario, dict(nss=(NS_A,), jid=OWN, earlier="fail trust lists")),
    Job("information-two-devices-two-namespaces", information_scenario, dict(devices=2), "thorough"),
]

BOUNDS = ["up to 2 devices on record plus up to 2 unknown ones (plus this device, and crowds of 16 of either kind with fixed attributes), 2 namespaces, one update at a time "
          "from every recorded state", "labels are None or strings of up to 3 characters",
          "device ids range over [1, 2^31-1]"]
CHECKS = {
    "C13": Check(UPDATE_JOBS, ["active", "inactive", "new device", "unknown namespace", "refreshed",
                                 "download failed"], BOUNDS, []),
    "C14": Check(UPDATE_JOBS,
                 ["own device re-added", "own device listed"], BOUNDS, []),
    "C15": Check(CRASH_JOBS, ["crashed", "failed"], BOUNDS + ["one crash before any store/upload, or one failing "
                 "store/upload"], ["crashes inside a single storage operation"]),
    "C16": Check(INFO_JOBS, ["key fetched", "key recorded", "0 devices"], BOUNDS, []),
}
