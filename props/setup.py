"""C18 - C20, C26: first run, backends that come and go between runs, interruptions, the identity key."""

from .common import *  # noqa: F401,F403
from .devices import label_eq
from omemo.identity_key_pair import IdentityKeyPair

EXPECTED_FAILURES = (
    omemo.BundleUploadFailed, omemo.BundleDeletionFailed, omemo.DeviceListUploadFailed,
    omemo.DeviceListDownloadFailed, omemo.StorageException
)


def find_key(ctx, mapping, dev):
    """The values stored for a device id."""
    return [v for k, v in mapping.items() if k is dev or ctx.decide(eq(k, dev))]


def listed(ctx, w, ns, dev):
    return bool(find_key(ctx, w.device_lists.get((ns, OWN), {}), dev))


def published_bundle(ctx, w, ns, dev):
    for (n, j, d), b in w.bundles.items():
        if n == ns and j == OWN and isinstance(b, StubBundle) and (d is dev or ctx.decide(eq(d, dev))):
            return b
    return None


class FreshSetup:
    """Randomness of a first run: every random number is symbolic, seeds are pairwise different."""

    def __init__(self, ctx, w, draws):
        self.ctx, self.w, self.draws = ctx, w, draws
        self.count = 0
        self.seeds = 0
        ctx.randbelow = self.randbelow
        ctx.token_bytes = self.token_bytes
        w.own_ik = self.own_ik

    def randbelow(self, n):
        if self.count >= self.draws:
            from symx.engine import PathAbort
            raise PathAbort("more collisions than the bound allows")
        self.count += 1
        return self.ctx.int(f"random{self.count}", 0, n - 1)

    def token_bytes(self, n=None):
        self.seeds += 1
        return bytes([self.seeds]) * (32 if n is None else n)

    def own_ik(self):
        """What a backend gets from IdentityKeyPair.get: the public part of the stored key."""
        return env.xeddsa.bindings.seed_to_ed25519_pub(unb64(self.w.disk["/ikp/key"]))


def own_id_on_disk(w):
    return w.disk.get("/own_device_id")


def check_set_up(ctx, prop, w, sm, own, nss, label, before, threshold=None):
    """The state after a completed create(): published, listed, recorded."""
    own_id = own.device_id
    ctx.check(prop, "device id in the range of the specification", And(num(own_id) >= 1, num(own_id) <= 2 ** 31 - 1))
    ctx.check(prop, "own device information", own.namespaces == frozenset(nss) and dict(own.active) == {
        ns: True for ns in nss
    } and own.bare_jid == OWN)
    ctx.check(prop, "label", label_eq(own.label, label))
    for ns in nss:
        server = w.device_lists.get((ns, OWN), {})
        mine = find_key(ctx, server, own_id)
        ctx.check(prop, "listed", len(mine) == 1, ns)
        for dev, lab in before.get(ns, {}).items():
            ctx.check(prop, "entries of other devices are kept", find_key(ctx, server, dev) == [lab], ns)
        ctx.check(prop, "nothing else is listed", len(server) == len(before.get(ns, {})) + 1, ns)
        b = published_bundle(ctx, w, ns, own_id)
        ctx.check(prop, "bundle published", b is not None, ns)
        if b is not None:
            backend = next(x for x in w.backends if x.ns == ns)
            ctx.check(prop, "published bundle is the local one", b.same(backend.local_bundle(OWN, own_id)), ns)
            ctx.check(prop, "all backends share one identity key", eq(b.ik, own.identity_key), ns)
        if threshold is not None:
            ctx.check(prop, "enough pre keys", num(w.prekeys[ns].visible) > num(threshold), ns)


def unpublished_listing(ctx, prop, w, nss, before, label="never listed without a bundle"):
    """At any time: whatever this device added to a list has its bundle published."""
    for ns in nss:
        for dev in w.device_lists.get((ns, OWN), {}):
            if find_key(ctx, before.get(ns, {}), dev):
                continue
            ctx.check(prop, label, published_bundle(ctx, w, ns, dev) is not None, ns)


def first_run_scenario(ctx, nss=(NS_A, NS_B), existing=1, draws=2, restart=True, visible=True, crash=0, faults=0,
                       kinds=None, same_prekeys=True, crowd=0):
    """
    First run from empty storage. existing: number of other devices per account, listed per namespace or not.
    crash: number of crashes; faults: number of failing operations; create() is called again after each.
    """
    interrupted = crash or faults
    prop = "C20" if interrupted else "C18"
    w = World(ctx, list(nss))
    fresh = FreshSetup(ctx, w, draws)
    others = device_ids(ctx, [f"other{k}" for k in range(existing)]) if existing else []
    apart(ctx, others, crowd)
    # (symbolic constants: they are compared with random numbers)
    crowd_ids = [CROWD + k if ctx.concrete or ctx.eager > 1 else SymInt(z3.IntVal(CROWD + k)) for k in range(crowd)]
    before = {}
    for ns in nss:
        before[ns] = {
            dev: f"label{k}" for k, dev in enumerate(others) if ctx.decide(ctx.flag(f"other{k}.listed.{ns}"))
        }
        if ns == nss[-1]:
            before[ns].update({d: f"crowd label {k}" for k, d in enumerate(crowd_ids)})
        w.device_lists[(ns, OWN)] = dict(before[ns])
    others = others + crowd_ids
    w.bundle_init = lambda ns, jid, dev: StubBundle(ns, jid, dev, ik_of(7), "content")
    threshold = ctx.int("threshold", 25, 99) if visible else 99
    for ns in nss:
        w.prekeys[ns] = PreKeys(ctx.int(f"visible.{ns}", 0, 100) if visible else 0)
    label = None if ctx.decide(ctx.flag("label.none")) else ctx.str("label", 3) if not interrupted else "my label"

    async def run():
        # a list is never published before the bundle: watch every upload of a device list
        def start():
            return w.create(initial_own_label=label, pre_key_refill_threshold=threshold)
        sm = None
        if crash:
            for k in range(crash):
                w.crash_term = ctx.int_term(f"crash_point{k}")
                if not ctx.concrete:
                    ctx.assume(w.crash_term >= 0)
                w.crash_count = 0
                w.crashed = False
                try:
                    sm = await start()
                except Crash:
                    ctx.reach("crashed")
                    sm = None
                    unpublished_listing(ctx, prop, w, nss, before)
                w.crash_term = None
                if sm is not None:
                    break
        elif faults:
            w.fault_kinds = frozenset(kinds)
            w.fault_budget = faults
            for k in range(faults):
                try:
                    sm = await start()
                    break
                except EXPECTED_FAILURES:
                    ctx.reach("failed")
                    unpublished_listing(ctx, prop, w, nss, before)
            w.fault_budget = 0
        if sm is None:
            sm = await start()
        ctx.reach("set up")
        own, _ = await sm.get_own_device_information()
        own_id = own.device_id
        ctx.outcome = f"{fresh.count} random numbers"
        if fresh.count > 1:
            ctx.reach("several random numbers")
        for dev in others:
            ctx.check(prop, "device id not taken", Implies(
                Or(*[z3.BoolVal(bool(find_key(ctx, before[ns], dev))) for ns in nss]), Not(eq(own_id, dev))
            ))
        check_set_up(ctx, prop, w, sm, own, nss, label, before, threshold)
        if not interrupted:
            for ns in nss:
                order = [e for e in w.log if e[0] in ("upload_bundle", "upload_device_list") and e[1] == ns]
                ctx.check(prop, "bundle published before the list", len(order) >= 2 and
                          order[0][0] == "upload_bundle", ns)
                ctx.check(prop, "refilled to 100 if at or below the threshold", Or(
                    eq(w.prekeys[ns].visible, 100), num(w.prekeys[ns].visible) > num(threshold)), ns)
                entries = find_key(ctx, w.device_lists[(ns, OWN)], own_id)
                ctx.check(prop, "published label", len(entries) == 1 and label_eq(
                    entries[0], label), ns)
        ikp = await IdentityKeyPair.get(w.storage())
        ctx.check(prop, "identity key on record", own.identity_key == ikp.identity_key)
        infos = await sm.get_device_information(OWN)
        for dev in others:
            was = [ns for ns in nss if find_key(ctx, before[ns], dev)]
            found = [i for i in infos if i.device_id is dev or ctx.decide(eq(i.device_id, dev))]
            if was and not interrupted:
                ctx.check(prop, "other devices of the account are known afterwards", len(found) == 1 and
                          found[0].namespaces == frozenset(was))
        if restart:
            for again in range(2 if interrupted else 1):
                w.log.clear()
                sm2 = await start()
                own2, _ = await sm2.get_own_device_information()
                ctx.check(prop, "device id persists", eq(own2.device_id, own_id))
                ctx.check(prop, "identity key persists", own2.identity_key == own.identity_key)
                ctx.check(prop, "own information persists", own2 == own)
                ctx.check(prop, "nothing is published again", not [e for e in w.log if e[0] in (
                    "upload_bundle", "upload_device_list", "delete_bundle", "generate_pre_keys", "purge")])
    return run()


def restart_scenario(ctx, universe=(NS_A, NS_B), crash=0, faults=0, kinds=(), threshold=99, fixed_loaded=None,
                     label="stored label", crowd=0, others=True, prekeys=True):
    """
    A later run: any set of backends recorded by the last run, any set of backends loaded now, any state of the lists
    on the server that the last run can have left.
    """
    interrupted = crash or faults
    prop = "C20" if interrupted else "C19"
    w = World(ctx, list(universe))
    own_id, other = device_ids(ctx, ["own_id", "other"])
    recorded = [ns for ns in universe if ctx.decide(ctx.flag(f"recorded.{ns}"))]
    loaded = [ns for ns in universe if ctx.decide(ctx.flag(f"loaded.{ns}"))]
    if len(loaded) > 1 and ctx.decide(ctx.flag("reverse")):
        loaded.reverse()
    w.seed_own(own_id, namespaces=recorded, label=label)
    before = {}
    for ns in universe:
        before[ns] = {other: "other label"} if others and ctx.decide(ctx.flag(f"other.listed.{ns}")) else {}
        before[ns].update(crowd_entries(ctx, [own_id, other], crowd))
        lst = dict(before[ns])
        if ns in recorded:
            lst[own_id] = label
        w.device_lists[(ns, OWN)] = lst
    old_visible = {}
    for ns in universe:
        pk = PreKeys(ctx.int(f"visible.{ns}", 0, 100) if prekeys else 10)
        w.prekeys[ns] = pk
        old_visible[ns] = pk.visible
        if ns in recorded:
            w.bundles[(ns, OWN, own_id)] = StubBundle(ns, OWN, own_id, OWN_IK, ("published before", ns))
    w.bundle_init = lambda ns, jid, dev: "notfound" if (dev is own_id or ctx.decide(eq(dev, own_id))) else \
        StubBundle(ns, jid, dev, ik_of(7), "content")

    async def run():
        lists0 = {ns: dict(w.device_lists[(ns, OWN)]) for ns in universe}

        def start():
            return w.create(namespaces=loaded, pre_key_refill_threshold=threshold, initial_own_label="other label")

        def invariant():
            for ns in universe:
                if listed(ctx, w, ns, own_id):
                    ctx.check(prop, "never listed without a bundle", published_bundle(ctx, w, ns, own_id) is not None,
                              ns)
        sm = None
        if crash:
            for k in range(crash):
                w.crash_term = ctx.int_term(f"crash_point{k}")
                if not ctx.concrete:
                    ctx.assume(w.crash_term >= 0)
                w.crash_count = 0
                w.crashed = False
                try:
                    sm = await start()
                except Crash:
                    ctx.reach("crashed")
                    sm = None
                    invariant()
                w.crash_term = None
                if sm is not None:
                    break
        elif faults:
            w.fault_kinds = frozenset(kinds)
            w.fault_budget = faults
            for k in range(faults):
                try:
                    sm = await start()
                    break
                except EXPECTED_FAILURES:
                    ctx.reach("failed")
                    invariant()
            w.fault_budget = 0
        if sm is None:
            sm = await start()
        own, _ = await sm.get_own_device_information()
        added = [ns for ns in loaded if ns not in recorded]
        removed = [ns for ns in recorded if ns not in loaded]
        kept = [ns for ns in loaded if ns in recorded]
        ctx.outcome = f"+{len(added)} -{len(removed)} ={len(kept)}"
        ctx.reach(ctx.outcome)
        ctx.check(prop, "same device", And(eq(own.device_id, own_id), own.identity_key == OWN_IK))
        ctx.check(prop, "exactly the loaded backends are recorded", own.namespaces == frozenset(loaded) and
                  dict(own.active) == {ns: True for ns in loaded})
        ctx.check(prop, "label unaffected", own.label == label)
        for ns in added:
            server = w.device_lists[(ns, OWN)]
            ctx.check(prop, "added backend: listed with the stored label", find_key(ctx, server, own_id) == [label], ns)
            ctx.check(prop, "added backend: other entries kept", len(server) == len(before[ns]) + 1 and all(
                find_key(ctx, server, d) == [l] for d, l in before[ns].items()), ns)
            b = published_bundle(ctx, w, ns, own_id)
            backend = next(x for x in w.backends if x.ns == ns)
            ctx.check(prop, "added backend: local bundle published", b is not None and b.same(
                backend.local_bundle(OWN, own_id)), ns)
            ctx.check(prop, "added backend: enough pre keys", And(
                num(w.prekeys[ns].visible) > threshold,
                Or(eq(w.prekeys[ns].visible, 100), eq(w.prekeys[ns].visible, old_visible[ns]))
            ), ns)
            if not interrupted:
                order = [e for e in w.log if e[0] in ("upload_bundle", "upload_device_list") and e[1] == ns]
                ctx.check(prop, "added backend: bundle before list", bool(order) and order[0][0] == "upload_bundle")
        for ns in removed:
            server = w.device_lists[(ns, OWN)]
            ctx.check(prop, "removed backend: not listed", not find_key(ctx, server, own_id), ns)
            ctx.check(prop, "removed backend: other entries kept", len(server) == len(before[ns]) and all(
                find_key(ctx, server, d) == [l] for d, l in before[ns].items()), ns)
            if not interrupted:
                ctx.check(prop, "removed backend: bundle deleted", published_bundle(ctx, w, ns, own_id) is None, ns)
                order = [e for e in w.log if e[0] in ("delete_bundle", "upload_device_list") and e[1] == ns]
                ctx.check(prop, "removed backend: list before bundle", [e[0] for e in order] == [
                    "upload_device_list", "delete_bundle"], ns)
        for ns in [n for n in universe if n not in added and n not in removed]:
            ctx.check(prop, "other backends untouched", w.device_lists[(ns, OWN)] == lists0[ns] and not [
                e for e in w.log if e[0] in ("upload_bundle", "upload_device_list", "delete_bundle", "purge",
                                             "generate_pre_keys") and e[1] == ns
            ], ns)
        ctx.check(prop, "data of backends that aren't purged on purpose is kept", not [
            e for e in w.log if e[0] == "purge"])
        # a run with the same backends changes nothing
        w.log.clear()
        sm = await start()
        again, _ = await sm.get_own_device_information()
        ctx.check(prop, "second run with the same backends changes nothing", again == own and not [
            e for e in w.log if e[0] in ("upload_bundle", "upload_device_list", "delete_bundle", "purge",
                                         "generate_pre_keys")
        ])
    return run()


def arguments_scenario(ctx):
    """What create() refuses."""
    nss = [NS_A, NS_A] if ctx.decide(ctx.flag("duplicate")) else [NS_A, NS_B]
    w = World(ctx, [NS_A, NS_B])
    fresh = FreshSetup(ctx, w, 1)
    threshold = ctx.int("threshold", -1000, 1000)

    async def run():
        before = dict(w.disk)
        bad = Or(len(set(nss)) != len(nss), num(threshold) < 25, num(threshold) > 99)
        try:
            await w.create(namespaces=nss, pre_key_refill_threshold=threshold)
            ctx.check("C18", "duplicate backends and thresholds outside 25..99 are refused", Not(bad))
            ctx.reach("accepted")
        except ValueError:
            ctx.check("C18", "valid arguments are accepted", bad)
            ctx.check("C18", "refusal has no effect", w.disk == before and not w.log)
            ctx.reach("refused")
    return run()


# -- the identity key ---------------------------------------------------------------------------------------------

def identity_key_scenario(ctx, crashes=1, gets=2, cache=False, faults=0):
    """
    Repeated IdentityKeyPair.get from any stored state, with crashes: once a key pair was handed out (or stored
    completely), it is the key pair.
    """
    w = World(ctx, [])
    draws = []

    def token_bytes(n=None):
        draws.append(ctx.bytes(f"seed{len(draws)}", 32))
        return draws[-1]
    ctx.token_bytes = token_bytes
    has_kind = ctx.decide(ctx.flag("stored.kind"))
    has_key = ctx.decide(ctx.flag("stored.key"))
    stored_seed = ctx.decide(ctx.flag("stored.is_seed"))
    stored = ctx.bytes("stored", 32)
    if has_kind:
        w.put("/ikp/is_seed", stored_seed)
    if has_key:
        w.put("/ikp/key", b64(stored))

    def describe(pair):
        if pair.is_seed:
            return ("seed", pair.seed, pair.identity_key)
        return ("priv", pair.priv, pair.identity_key)

    async def run():
        storage = w.storage(cache)
        known = None
        if has_kind and has_key:
            ctx.reach("complete")
            known = ("seed" if stored_seed else "priv", stored, None)
        left = crashes
        for k in range(gets + crashes + faults):
            if left:
                w.crash_term = ctx.int_term(f"crash_point{k}")
                if not ctx.concrete:
                    ctx.assume(w.crash_term >= 0)
                w.crash_count = 0
                w.crashed = False
            if faults:
                w.fault_kinds = frozenset(["storage_store", "storage_load"])
                w.fault_budget = faults - len(w.faults)
            try:
                pair = await IdentityKeyPair.get(storage)
            except Crash:
                ctx.reach("crashed")
                left -= 1
                w.crash_term = None
                storage = w.storage(cache)
                continue
            except omemo.StorageException:
                ctx.reach("failed")
                continue
            w.crash_term = None
            kind, secret, public = describe(pair)
            ctx.check("C26", "kind", pair.is_seed != pair.is_priv and (kind == "seed") == pair.is_seed)
            if known is not None:
                ctx.check("C26", "the same key pair for ever", And(kind == known[0], eq(secret, known[1])))
                if known[2] is not None:
                    ctx.check("C26", "the same public key for ever", eq(public, known[2]))
            else:
                ctx.reach("generated")
                # (a key without its kind can be completed with the kind that a crashed run stored)
                candidates = draws + ([stored] if has_key else [])
                ctx.check("C26", "newly generated from fresh random bytes", And(kind == "seed", Or(
                    *[eq(secret, d) for d in candidates])))
            known = (kind, secret, public)
            priv = pair.as_priv()
            ctx.check("C26", "the private key has the same public key", eq(priv.identity_key, public))
            ctx.check("C26", "as_priv", And(priv.is_priv, eq(priv.as_priv().priv, priv.priv), eq(
                priv.priv, env.xeddsa.bindings.seed_to_priv(secret) if kind == "seed" else secret)))
            if ctx.decide(ctx.flag(f"restart{k}")):
                storage = w.storage(cache)
        ctx.outcome = "generated" if draws else "loaded"
    return run()


NET = ["upload_bundle", "upload_device_list", "download_device_list"]
FIRST_JOBS = [
    Job("first-run-one-backend", first_run_scenario, dict(nss=(NS_A,), existing=2, draws=3)),
    Job("first-run-many-devices", first_run_scenario, dict(
        nss=(NS_A,), existing=0, draws=2, visible=False, crowd=12)),
    Job("first-run-five-backends", first_run_scenario, dict(
        nss=(NS_A, NS_B, NS_C, NS_D, NS_E), existing=0, draws=1, visible=False)),
    Job("first-run-two-backends", first_run_scenario, dict(existing=1, draws=2)),
    Job("first-run-two-backends-two-others", first_run_scenario, dict(existing=2, draws=2, visible=False)),
    Job("arguments", arguments_scenario, {}),
    Job("first-run-three-backends", first_run_scenario, dict(nss=(NS_A, NS_B, NS_C), existing=1, draws=2,
                                                             visible=False), "thorough"),
    Job("first-run-many-collisions", first_run_scenario, dict(nss=(NS_A,), existing=3, draws=5, visible=False),
        "thorough"),
]
RESTART_JOBS = [
    Job("two-backends-come-and-go", restart_scenario, dict()),
    Job("many-devices-listed", restart_scenario, dict(crowd=16, universe=(NS_A,))),
    Job("five-backends-come-and-go", restart_scenario, dict(
        universe=(NS_A, NS_B, NS_C, NS_D, NS_E), others=False, prekeys=False)),
    Job("threshold-25", restart_scenario, dict(threshold=25)),
    Job("three-backends-come-and-go", restart_scenario, dict(universe=(NS_A, NS_B, NS_C)), "thorough"),
]
CRASH_JOBS = [
    Job("first-run-crash-one-backend", first_run_scenario, dict(nss=(NS_A,), existing=1, draws=3, crash=1,
                                                                visible=False)),
    Job("first-run-crash-two-backends", first_run_scenario, dict(existing=0, draws=2, crash=1, visible=False)),
    Job("first-run-crash-partial-pre-keys", first_run_scenario, dict(nss=(NS_A,), existing=0, draws=2, crash=1)),
    Job("first-run-fault-two-backends", first_run_scenario, dict(existing=1, draws=3, faults=1, visible=False,
                                                                 kinds=NET + ["storage_store"])),
    Job("restart-crash", restart_scenario, dict(crash=1)),
    Job("restart-fault", restart_scenario, dict(faults=1, kinds=NET + ["storage_store", "delete_bundle"])),
    Job("first-run-two-crashes", first_run_scenario, dict(existing=0, draws=3, crash=2, visible=False), "thorough"),
    Job("first-run-two-faults", first_run_scenario, dict(existing=1, draws=4, faults=2, visible=False,
                                                         kinds=NET + ["storage_store"]), "thorough"),
    Job("restart-two-crashes", restart_scenario, dict(crash=2), "thorough"),
]
KEY_JOBS = [
    Job("identity-key-crash", identity_key_scenario, dict()),
    Job("identity-key-crash-cache", identity_key_scenario, dict(cache=True)),
    Job("identity-key-fault", identity_key_scenario, dict(crashes=0, faults=1, gets=2)),
    Job("identity-key-two-crashes", identity_key_scenario, dict(crashes=2, gets=3)),
    Job("identity-key-fault-cache", identity_key_scenario, dict(crashes=0, faults=2, gets=2, cache=True)),
]
BOUNDS = ["up to 3 backends (5 with fixed attributes), up to 3 other devices of the account (or a crowd of 16 fixed ones), device ids and random numbers symbolic over their "
          "full range"]
CHECKS = {
    "C18": Check(FIRST_JOBS, ["set up", "several random numbers", "accepted", "refused"],
                 BOUNDS + ["up to 5 draws of the random device id"], []),
    "C19": Check(RESTART_JOBS, ["+0 -0 =2", "+1 -1 =0", "+2 -0 =0", "+0 -2 =0", "+1 -0 =1", "+0 -1 =1"], BOUNDS, []),
    "C20": Check(CRASH_JOBS, ["crashed", "failed", "set up"], BOUNDS + [
        "up to two crashes, each right before any store, upload, deletion or key generation; or up to two failing "
        "operations"], ["a bundle left online when its deletion fails or the process dies right before it"]),
    "C26": Check(KEY_JOBS, ["complete", "generated", "crashed", "failed"], [
        "up to 5 calls, up to 2 crashes before a store or up to 2 failing storage operations, from any stored state"],
        ["correctness of the curve arithmetic in libxeddsa (uninterpreted functions with the documented relation)"]),
}
