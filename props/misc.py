"""C17, C30 - C33: trust records, limits, fingerprints, untouched parameters, the BTBV example."""

import importlib.util
import os

from .common import *  # noqa: F401,F403
from . import decryption, devices, encryption


# -- C17 ------------------------------------------------------------------------------------------------------------

def trust_scenario(ctx, sets=2, queries=2, symbolic_jid=True, interleave=False, later=False, look=False):
    """
    Any sequence of set_trust calls for any accounts and identity keys; then the trust that is reported for devices of
    any accounts with any identity keys. later: nothing is known about the accounts while trust is set. look: the
    information about the devices is also read before and between those calls.
    """
    w = World(ctx, [NS_A])
    own_id, dev0, dev1 = device_ids(ctx, ["own_id", "dev0", "dev1"])
    w.seed_own(own_id)
    devs = []
    for k in range(queries):
        jid = ctx.text(f"jid{k}", 3) if symbolic_jid else [BOB, CAROL][k]
        key = ctx.bytes(f"key{k}", 32)
        dev = [dev0, dev1][k]
        if later:
            w.bundles[(NS_A, jid, dev)] = StubBundle(NS_A, jid, dev, key, "content")
            devs.append((jid, dev, key))
            continue
        w.put(f"/devices/{jid}/{dev}/namespaces", [NS_A])
        w.put(f"/devices/{jid}/{dev}/active", {NS_A: True})
        w.put(f"/devices/{jid}/{dev}/label", None)
        w.put(f"/devices/{jid}/{dev}/identity_key", b64(key))
        devs.append((jid, dev, key))
    for jid, _, _ in devs if not later else []:
        w.put(f"/devices/{jid}/list", [d for j, d, _ in devs if j is jid or ctx.decide(eq(j, jid))])

    async def read(sm, done):
        for jid, dev, key in devs:
            infos = await sm.get_device_information(jid)
            found = [i for i in infos if i.device_id is dev or ctx.decide(eq(i.device_id, dev))]
            ctx.check("C17", "device reported", len(found) == 1)
            for i in found:
                expected = z3.StringVal(UNDECIDED_NAME)
                for j, k2, level in done:
                    expected = z3.If(And(eq(j, jid), eq(k2, key)), z3.StringVal(level) if type(level) is str
                                     else level.term, expected)
                got = i.trust_level_name
                ctx.check("C17", "trust set last for exactly this account and identity key, undecided if never set",
                          (z3.StringVal(got) if type(got) is str else got.term) == expected)
                ctx.check("C17", "identity key reported", eq(i.identity_key, key))
                ctx.reach("default" if type(got) is str and got == UNDECIDED_NAME else "set")

    async def run():
        sm = await w.create()
        done = []
        if look:
            await read(sm, done)
        for i in range(sets):
            jid = ctx.text(f"set{i}.jid", 3) if symbolic_jid else [BOB, CAROL][ctx.choose(f"set{i}.jid", 2)]
            key = ctx.bytes(f"set{i}.key", 32)
            level = ctx.str(f"set{i}.level", len(UNDECIDED_NAME))
            await sm.set_trust(jid, key, level)
            done.append((jid, key, level))
            if interleave and ctx.decide(ctx.flag(f"restart{i}")):
                sm = await w.create()
            if look and i < sets - 1:
                await read(sm, done)
        for jid, dev, _ in devs if later else []:
            await sm.update_device_list(NS_A, jid, {dev: None})
        await read(sm, done)
        ctx.outcome = "done"
    return run()


# -- C30 ------------------------------------------------------------------------------------------------------------

def limits_scenario(ctx, default_session=False):
    from symx.world import StubBackend
    session = 1000 if default_session else ctx.int("per_session", 0)
    none = ctx.decide(ctx.flag("none"))
    message = None if none else ctx.int("per_message", 0)

    class Limited(StubBackend):
        def __init__(self):  # pylint: disable=super-init-not-called
            if default_session:
                omemo.Backend.__init__(self, max_num_per_message_skipped_keys=message)
            else:
                omemo.Backend.__init__(self, session, message)
    valid = z3.BoolVal(True) if none else Or(
        And(num(message) == 0, num(session) == 0), And(num(message) >= 1, num(message) <= num(session)))
    try:
        b = Limited()
    except ValueError:
        ctx.check("C30", "valid limits are accepted", Not(valid))
        ctx.reach("refused")
        ctx.outcome = "refused"
        return
    ctx.check("C30", "invalid limits are refused", valid)
    ctx.check("C30", "per-session limit as given", eq(b.max_num_per_session_skipped_keys, session))
    ctx.check("C30", "per-message limit as given, the per-session one by default", eq(
        b.max_num_per_message_skipped_keys, session if none else message))
    ctx.reach("accepted")
    ctx.outcome = "accepted"


# -- C31 ------------------------------------------------------------------------------------------------------------

def fingerprint_scenario(ctx):
    sign = ctx.flag("sign")
    curve = ctx.bytes("curve", 32)
    key = env.ed25519_of_curve25519(curve, z3.is_true(sign) if ctx.concrete or type(curve) is bytes else sign)
    groups = omemo.SessionManager.format_identity_key(key)
    ctx.check("C31", "eight groups of eight characters", len(groups) == 8 and all(len(g) == 8 for g in groups))
    curve = env.xeddsa.bindings.ed25519_pub_to_curve25519_pub(key)
    digits = curve.hex()
    position = 0
    for g in groups:
        for c in g:
            if position < 64:
                ctx.check("C31", "hex digits of the Curve25519 form, in order", eq(c, digits[position]),
                          f"digit {position}")
            position += 1
    ctx.check("C31", "complete", position == 64)
    ctx.reach("formatted")
    ctx.outcome = "formatted"


# -- C32 ------------------------------------------------------------------------------------------------------------

def create_parameters_scenario(ctx):
    """create() and purge_backend leave the list of backends alone, which the application keeps using."""
    universe = [NS_A, NS_B]
    w = World(ctx, universe)
    own_id, = device_ids(ctx, ["own_id"])
    recorded = [ns for ns in universe if ctx.decide(ctx.flag(f"recorded.{ns}"))]
    w.seed_own(own_id, namespaces=recorded)
    for ns in universe:
        w.device_lists[(ns, OWN)] = {own_id: None} if ns in recorded else {}

    async def run():
        sm = await w.create()
        given = w.backends
        ctx.check("C32", "backends of create unmodified", [b.ns for b in given] == universe)
        await sm.purge_backend(universe[ctx.choose("purged", 2)])
        ctx.check("C32", "backends of create unmodified by a purge", [b.ns for b in given] == universe)
        # and a later change of that list by the application doesn't change what is loaded
        del given[:]
        lists = await sm.get_own_device_information()
        ctx.check("C32", "one backend left", len(lists[0].namespaces) == 1)
        left = next(iter(lists[0].namespaces))
        await sm.update_device_list(left, OWN, {own_id: None})
        ctx.reach("purged")
        ctx.outcome = "done"
    return run()


# -- C33 ------------------------------------------------------------------------------------------------------------

_spec = importlib.util.spec_from_file_location("btbv_session_manager", os.path.join(
    env.REPO, "examples", "btbv_session_manager.py"))
btbv = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(btbv)

LEVELS = ["UNDECIDED", "BLINDLY_TRUSTED", "TRUSTED", "DISTRUSTED"]


def btbv_class(ctx, w, prompts, blind, settled=()):
    """settled: first bytes of the identity keys that are decided in a fixed way."""
    class Manager(btbv.BTBVSessionManager, w.manager_class()):
        async def _devices_blindly_trusted(self, blindly_trusted, identifier):
            blind.append((blindly_trusted, identifier))

        async def _prompt_manual_trust(self, manually_trusted, identifier):
            prompts.append((manually_trusted, identifier))
            for d in manually_trusted:
                key = d.identity_key[0]
                await self.set_trust(d.bare_jid, d.identity_key, LEVELS[2 + (
                    key % 2 if key in settled else ctx.choose(f"decision.{d.bare_jid}.{key}", 2))])
    return Manager


def btbv_scenario(ctx, people=((BOB, 2),), states=False, crowd=(), again=None):
    """
    crowd: levels of further devices, as (JID, level). states: devices with or without label, active or not. again: what
    happens before a second message is encrypted: "decision", any decision about the first device; "device", the last
    device appears.
    """
    w = World(ctx, [NS_A])
    names = [(jid, k) for jid, n in people for k in range(n)]
    ids = device_ids(ctx, ["own_id"] + [f"{j.split('@')[0]}{k}" for j, k in names])
    own_id = ids[0]
    w.seed_own(own_id)
    apart(ctx, ids, len(crowd))
    for k, (jid, _) in enumerate(crowd):
        names.append((jid, len(names)))
        ids = ids + [CROWD + k]
    prompts, blind = [], []
    settled = [ik_of(len(names) - k)[0] for k in range(len(crowd))]
    w.manager_class_ = btbv_class(ctx, w, prompts, blind, settled)
    devs = []
    usable = set()
    for n, (jid, k) in enumerate(names):
        fixed = n - (len(names) - len(crowd))
        level = crowd[fixed][1] if fixed >= 0 else LEVELS[ctx.choose(f"level{n}", 4)]
        dev, ik = ids[1 + n], ik_of(n + 1)
        base = f"/devices/{jid}/{dev}"
        if again == "device" and n == len(names) - 1:
            w.bundles[(NS_A, jid, dev)] = StubBundle(NS_A, jid, dev, ik, "content")
            devs.append((jid, dev, ik, "UNDECIDED"))
            usable.add(ik)
            continue
        w.put(f"{base}/namespaces", [NS_A])
        active = not states or ctx.decide(ctx.flag(f"active{n}"))
        w.put(f"{base}/active", {NS_A: active})
        w.put(f"{base}/label", "a label" if states and ctx.decide(ctx.flag(f"label{n}")) else None)
        w.put(f"{base}/identity_key", b64(ik))
        w.put(f"/trust/{jid}/{b64(ik)}", level)
        devs.append((jid, dev, ik, level))
        if active:
            usable.add(ik)
    for jid in dict.fromkeys(j for j, _ in names):
        put_list(w, jid, ([own_id] if jid == OWN else []) + [
            d for j, d, _, _ in (devs[:-1] if again == "device" else devs) if j == jid])
    w.put(f"/trust/{OWN}/{b64(OWN_IK)}", "UNDECIDED")
    w.session_init = lambda ns, jid, dev: stored_session(SESS_PASSIVE, f"{jid}", ik_of(1))

    async def run():
        manager_class = w.manager_class_
        w.manager_class = lambda: manager_class
        sm = await w.create(undecided_trust_level_name="UNDECIDED")
        if again is None:
            return await once(sm, devs)
        after = await once(sm, devs[:-1] if again == "device" else devs)
        jid, dev, ik, level = devs[0]
        if again == "decision":
            after[(jid, ik)] = level = LEVELS[ctx.choose("redecided", 4)]
            await sm.set_trust(jid, ik, level)
        else:
            jid = devs[-1][0]
            await sm.update_device_list(NS_A, jid, {d: None for j, d, _, _ in devs if j == jid})
        ctx.reach("again")
        del prompts[:], blind[:]
        return await once(sm, [(j, d, k, after.get((j, k), "UNDECIDED")) for j, d, k, _ in devs])

    async def once(sm, devs):
        recipients = frozenset(j for j, _ in names if j != OWN)
        error, messages = None, []
        try:
            messages, _ = await sm.encrypt(recipients, {NS_A: b"plaintext"}, None, "identifier")
        except omemo.OMEMOException as e:
            error = e
        after = {}
        for jid in {j for j, _, _, _ in devs}:
            for i in await sm.get_device_information(jid):
                after[(jid, i.identity_key)] = i.trust_level_name
        prompted = [d for p, _ in prompts for d in p]
        blinded = [d for b, _ in blind for d in b]
        ctx.check("C33", "identifier forwarded", all(x == "identifier" for _, x in prompts + blind))
        got_key = [(e.bare_jid, e.device_id) for m in messages for e, _ in m.keys]
        for jid, dev, ik, level in devs:
            peers = [l for j, _, _, l in devs if j == jid]
            is_blind = all(l in ("UNDECIDED", "BLINDLY_TRUSTED") for l in peers)
            new = after[(jid, ik)]
            asked = [d for d in prompted if d.bare_jid == jid and d.identity_key == ik]
            told = [d for d in blinded if d.bare_jid == jid and d.identity_key == ik]
            if level != "UNDECIDED":
                ctx.check("C33", "decisions are never changed", new == level and not asked and not told)
            elif ik not in usable:
                ctx.check("C33", "inactive devices are left alone", new == level and not asked and not told)
                ctx.reach("inactive")
            elif is_blind:
                ctx.reach("blind")
                ctx.check("C33", "blind trust while nothing was decided manually", new == "BLINDLY_TRUSTED" and
                          not asked and len(told) == 1)
            else:
                ctx.reach("manual")
                ctx.check("C33", "manual trust once something was decided manually", new in (
                    "TRUSTED", "DISTRUSTED") and len(asked) == 1 and not told)
            if error is None:
                mine = [1 for j, d in got_key if j == jid and (d is dev or ctx.decide(eq(d, dev)))]
                ctx.check("C33", "encrypted exactly for trusted and blindly trusted devices", (len(mine) == 1) == (
                    new in ("TRUSTED", "BLINDLY_TRUSTED") and ik in usable))
        ctx.outcome = type(error).__name__
        return after
    return run()


def btbv_unknown_scenario(ctx):
    w = World(ctx, [NS_A])
    own_id, dev = device_ids(ctx, ["own_id", "dev"])
    name = ["undecided", "", "TRUSTED ", "something else", "TrustLevel.TRUSTED"][ctx.choose("name", 5)]
    cls = btbv_class(ctx, w, [], [])

    async def run():
        sm = cls()
        try:
            await sm._evaluate_custom_trust_level(omemo.DeviceInformation(
                frozenset([NS_A]), frozenset(), BOB, dev, ik_of(1), name, None))
            ctx.fail("C33", "unknown levels are refused")
        except omemo.UnknownTrustLevel:
            ctx.reach("unknown")
        ctx.outcome = "unknown"
    return run()


def by_name(jobs, *names):
    out = [j for j in jobs if j.name in names]
    assert len(out) == len(names), names
    return out


CHECKS = {
    "C17": Check([
        Job("trust-any-accounts", trust_scenario, dict(sets=2, queries=2)),
        Job("trust-restart", trust_scenario, dict(sets=2, queries=2, symbolic_jid=False, interleave=True)),
        Job("trust-set-before-known", trust_scenario, dict(sets=2, queries=2, symbolic_jid=False, later=True)),
        Job("trust-read-between", trust_scenario, dict(sets=2, queries=2, symbolic_jid=False, look=True)),
        Job("trust-three-calls", trust_scenario, dict(sets=3, queries=1)),
        Job("trust-three-calls-two-devices", trust_scenario, dict(sets=3, queries=2), "thorough"),
    ], ["default", "set"], ["up to 3 calls of set_trust, up to 2 devices; identity keys are arbitrary 32 byte strings, "
                            "bare JIDs arbitrary strings of 3 printable characters without slash, levels arbitrary "
                            f"strings of up to {len(UNDECIDED_NAME)} characters"], []),
    "C30": Check([Job("limits", limits_scenario, {}), Job("limits-default", limits_scenario, dict(default_session=True))],
                 ["accepted", "refused"], ["all nonnegative integers"], ["negative limits"]),
    "C31": Check([Job("fingerprint", fingerprint_scenario, {})], ["formatted"], ["every 32 byte identity key"],
                 ["the birational map itself (libxeddsa)"]),
    "C32": Check([Job("create-parameters", create_parameters_scenario, {})] +
                 by_name(encryption.JOBS, "two-backends-priorities", "only-own-devices") + encryption.SPARSE_JOBS +
                 by_name(devices.UPDATE_JOBS, "update-own-account", "refresh") +
                 decryption.C32_JOBS,
                 ["purged"], ["the scenarios of C01, C07, C13 and C19"], []),
    "C33": Check([
        Job("btbv-two-devices", btbv_scenario, dict()),
        Job("btbv-two-accounts", btbv_scenario, dict(people=((BOB, 1), (CAROL, 2)))),
        Job("btbv-labels-and-activity", btbv_scenario, dict(states=True)),
        Job("btbv-own-device", btbv_scenario, dict(people=((BOB, 1), (OWN, 1)))),
        Job("btbv-many-devices", btbv_scenario, dict(people=((BOB, 1), (CAROL, 1)), crowd=[
            (BOB, "BLINDLY_TRUSTED")] * 10 + [(BOB, "UNDECIDED")] * 6 + [(CAROL, "UNDECIDED")] * 6)),
        Job("btbv-many-accounts", btbv_scenario, dict(people=((BOB, 1),), crowd=[
            (f"r{k}@example.org", ("UNDECIDED", "TRUSTED")[k % 2]) for k in range(8)] + [
            (f"r{k}@example.org", ("UNDECIDED", "BLINDLY_TRUSTED")[k % 3 // 2]) for k in range(8)])),
        Job("btbv-new-device", btbv_scenario, dict(people=((BOB, 2),), again="device")),
        Job("btbv-new-decision", btbv_scenario, dict(people=((BOB, 2),), again="decision")),
        Job("btbv-unknown", btbv_unknown_scenario, {}),
        Job("btbv-three-devices", btbv_scenario, dict(people=((BOB, 3), (CAROL, 1))), "thorough"),
    ], ["blind", "manual", "unknown", "inactive"], ["up to 4 devices of 2 accounts with any recorded levels"], []),
}
