SM, ST, IK, BE = "omemo/session_manager.py", "omemo/storage.py", "omemo/identity_key_pair.py", "omemo/backend.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-inactive-priority", "C01", [(SM,
"""                in device.namespaces
                if dict(device.active)[namespace] and namespace in backend_priority_order
""",
"""                in device.namespaces
                if namespace in backend_priority_order
""")],
"a device that supports two versions, and was removed from the list of the preferred one",
"the message is encrypted under the version the device is inactive for", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1)
w.lists[(A, BOB)] = {}
await sm.refresh_device_list(A, BOB)
messages, errors = await w.encrypt()
assert targets(messages) == [(B, BOB, 1)], targets(messages)
""")

bug("c01-stale-trust", "C01", [(SM,
"""            )).maybe(self.__undecided_trust_level_name)) for device in devices }

            logging""",
"""            )).maybe(self.__undecided_trust_level_name)) for device in undecided_devices } | (
                devices - undecided_devices
            )

            logging""")],
"the trust decision about one device makes the user distrust another one that was trusted so far",
"the message is still encrypted for the device that was just distrusted", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1, trust=None)
await w.add(BOB, 2)

def decide(d):
    w.disk.data[f"/trust/{BOB}/" + base64.urlsafe_b64encode(w.ik(BOB, 2)).decode()] = "distrusted"
    return "trusted"
w.decisions = decide
messages, errors = await w.encrypt()
assert targets(messages) == [(A, BOB, 1)], targets(messages)
""")

bug("c02-existing-session", "C02", [(SM,
"""            # Check whether the identity key matches the one we know
            if key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
""",
"""            # Check whether the identity key matches the one we know
            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is None and key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
""")],
"a key exchange with another identity key from a device with which a session exists already",
"the session is replaced by one built with an identity key that is not on record", """
w = World(A)
sm = await w.start()
d = await w.add(BOB, 1)
await w.encrypt()
w.log.clear()
try:
    await sm.decrypt(w.message(A, BOB, 1, Kex("evil", b"E" * 32)))
except omemo.PublicDataInconsistency:
    pass
assert not [e for e in w.log if e[0] == "build_passive"], w.log
""")

bug("c03-cached-bundle", "C03", [(SM,
"""                    bundle.namespace == backend.namespace
                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
""",
"""                    bundle.namespace == backend.namespace
                    and bundle.device_id == device.device_id
""")],
"two recipients whose devices happen to have the same id, both seen for the first time",
"a bundle of the wrong account is used, so that a reachable device doesn't get the message", """
w = World(A)
sm = await w.start()
w.decisions = lambda d: "trusted"
for jid in (BOB, CAROL):
    w.lists[(A, jid)] = {7: None}
    await sm.update_device_list(A, jid, {7: None})
try:
    messages, errors = await w.encrypt(BOB, CAROL)
except omemo.NoEligibleDevices as e:
    raise AssertionError(e)
assert targets(messages) == [(A, BOB, 7), (A, CAROL, 7)] and not errors, (targets(messages), errors)
""")

bug("c03-group-by-priority", "C03", [(SM,
"""            ), key=backend_priority_order.index)[0:1]))
""",
"""            ), key=available_namespaces.index)[0:1]))
""")],
"a priority order that differs from the order of the backends, and a device with both versions",
"the version of the message is not the one with the highest requested priority", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1)
messages, errors = await w.encrypt(order=[B, A])
assert targets(messages) == [(B, BOB, 1)], targets(messages)
""")

bug("c04-by-name", "C04", [(SM,
"""        # the remaining devices)
        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })
""",
"""        # the remaining devices)
        undecided_devices = frozenset({
            device for device in devices
            if device.trust_level_name == self.__undecided_trust_level_name
        })
""")],
"a custom trust level other than the initial one that evaluates to undecided",
"the user is never asked about such a device, encryption just fails", """
w = World(A)
sm = await w.start()
w.levels["postponed"] = "UNDECIDED"
await w.add(BOB, 1, trust="postponed")
try:
    await w.encrypt()
except omemo.StillUndecided:
    pass
assert len(w.asked) == 1
""")

bug("c05-early-check", "C05", [(SM,
"""        messages: Dict[Message, PlainKeyMaterial] = {}
        encryption_errors: Set[EncryptionError] = set()
""",
"""        no_eligible_devices = frozenset(filter(
            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - frozenset({ self.__own_bare_jid })

        messages: Dict[Message, PlainKeyMaterial] = {}
        encryption_errors: Set[EncryptionError] = set()
"""), (SM,
"""        # Check for recipients without a single remaining device, except for ourselves
        no_eligible_devices = frozenset(filter(
            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - frozenset({ self.__own_bare_jid })

""",
"""        # Check for recipients without a single remaining device, except for ourselves
""")],
"a recipient all of whose devices fail during session building",
"the encryption succeeds although a recipient can't read the message", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
await w.add(CAROL, 2)
w.kex_fails.add((A, CAROL, 2))
try:
    await w.encrypt(BOB, CAROL)
except omemo.NoEligibleDevices as e:
    assert e.bare_jids == {CAROL}
else:
    raise AssertionError("not reported")
""")

bug("c06-sessions-by-id", "C06", [(SM,
"""        sessions: Set[Tuple[Backend, Session]] = set()
""",
"""        sessions: Dict[Tuple[str, int], Tuple[Backend, Session]] = {}
"""), (SM,
"""                    sessions.add((backend, session))
""",
"""                    sessions[(backend.namespace, session.device_id)] = (backend, session)
"""), (SM,
"""        for backend, session in sessions:
""",
"""        for backend, session in sessions.values():
""")],
"two recipients whose devices happen to have the same id",
"only one of the two sessions is stored, the other one's keys are used twice", """
w = World(A)
sm = await w.start()
await w.add(BOB, 7)
await w.add(CAROL, 7)
for n in (1, 2):
    await w.encrypt(BOB, CAROL)
    assert w.sessions[(A, BOB, 7)].scl == n and w.sessions[(A, CAROL, 7)].scl == n
""")

bug("c07-late-distrust", "C07", [(SM,
"""        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(
                "The identity key corresponding to the sending device is explicitly distrusted."
            )

""", ""), (SM,
"""            # Once the device list has been refreshed, look for the device again
""",
"""            # Check the trust level of the sending device. Abort in case of explicit distrust.
            # Once the device list has been refreshed, look for the device again
"""), (SM,
"""        logging.getLogger(SessionManager.LOG_TAG).debug(f"Plain key material: {plain_key_material}")

""",
"""        logging.getLogger(SessionManager.LOG_TAG).debug(f"Plain key material: {plain_key_material}")

        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise SenderDistrusted(
                "The identity key corresponding to the sending device is explicitly distrusted."
            )

""")],
"a message of a distrusted device",
"key material of distrusted senders is processed before they are rejected", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1, trust="distrusted")
try:
    await sm.decrypt(w.message(A, BOB, 1, Kex("k", w.ik(BOB, 1))))
except omemo.SenderDistrusted:
    pass
assert not w.log, w.log
""")

bug("c07-new-sender", "C07", [(SM,
"""            logging.getLogger(SessionManager.LOG_TAG).warning(
                "Sender device found by the manual device list update. Make sure your PEP subscription is set"
                " up correctly."
            )

        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
""",
"""            logging.getLogger(SessionManager.LOG_TAG).warning(
                "Sender device found by the manual device list update. Make sure your PEP subscription is set"
                " up correctly."
            )

        # Check the trust level of the sending device. Abort in case of explicit distrust.
        elif (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
""")],
"a device that isn't known yet, but whose identity key was distrusted before (by a new device id, say)",
"its first message is accepted", """
w = World(A)
sm = await w.start()
await sm.set_trust(BOB, w.ik(BOB, 1), "distrusted")
w.lists[(A, BOB)] = {1: None}
try:
    await sm.decrypt(w.message(A, BOB, 1, Kex("k", w.ik(BOB, 1))))
except omemo.SenderDistrusted:
    pass
else:
    raise AssertionError("accepted")
""")

bug("c08-early-store", "C08", [(SM,
"""        # Decrypt the message
        plaintext = None""",
"""        # Persist the session following successful decryption
        await backend.store_session(session)

        # Decrypt the message
        plaintext = None"""), (SM,
"""        # Persist the session following successful decryption
        await backend.store_session(session)

        # If this message""",
"""        # If this message""")],
"a message whose key material is fine but whose content is not",
"a forged content advances the stored session", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("k", w.ik(BOB, 1)))
w.content_fails = True
try:
    await sm.decrypt(w.message(A, BOB, 1))
except omemo.DecryptionFailed:
    pass
assert not [e for e in w.log if e[0] == "store_session"], w.log
""")

bug("c09-active-session", "C09", [(SM,
"""                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):
""",
"""                if session.confirmed or session.key_exchange.builds_same_session(key_exchange):
""")],
"a new key exchange of a device with which a confirmed session exists (it lost its data, say)",
"the new session isn't built, all messages of the device are lost", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("own", w.own_ik), Initiation.ACTIVE, True, 3, 2)
await sm.decrypt(w.message(A, BOB, 1, Kex("new", w.ik(BOB, 1))))
assert w.sessions[(A, BOB, 1)].kex.name == "new"
""")

bug("c10-threshold", "C10", [(SM,
"""                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging""",
"""                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys < self.__pre_key_refill_threshold:
                    logging""")],
"exactly as many pre keys left as the threshold says",
"pre keys aren't refilled in time", """
w = World(A)
sm = await w.start(pre_key_refill_threshold=40)
await w.add(BOB, 1)
w.prekeys[A] = 41
await sm.decrypt(w.message(A, BOB, 1, Kex("k", w.ik(BOB, 1))))
assert w.prekeys[A] == 100, w.prekeys
""")

bug("c10-upload-on-refill", "C10", [(SM,
"""                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
""",
"""                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    await self._upload_bundle(bundle)
""")],
"a refill threshold below the default",
"the published bundle keeps offering a pre key that was used and deleted", """
w = World(A)
sm = await w.start(pre_key_refill_threshold=40)
await w.add(BOB, 1)
await sm.decrypt(w.message(A, BOB, 1, Kex("k", w.ik(BOB, 1))))
assert w.bundles[(A, OWN, w.own_id)].t[4] == w.prekeys[A]
""")

bug("c11-staleness", "C11", [(SM,
"""            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
""",
"""            key_exchange is not None
            or (session.receiving_chain_length or 0) % (self.__class__.STALENESS_MAGIC_NUMBER + 1) == 53
""")],
"a receiving chain of more than 53 messages, the 54th of which is not answered right away",
"empty messages are sent at the wrong time, and are not repeated", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
for n in (0, 51, 52, 53, 54, 60):
    w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("k", w.ik(BOB, 1)), rcl=n)
    w.sent.clear()
    await sm.decrypt(w.message(A, BOB, 1))
    assert len(w.sent) == (1 if n + 1 > 53 else 0), (n, len(w.sent))
""")

bug("c12-queue-per-account", "C12", [(SM,
"""                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""",
"""                queued_device_ids = (await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([])[-1:]

                queued_device_ids.append(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", queued_device_ids)
""")],
"key exchanges of three devices of one account during a history synchronisation",
"the session of the first one is never completed", """
w = World(A)
sm = await w.start()
sm.before_history_sync()
for dev in (1, 2, 3):
    await w.add(BOB, dev)
for dev in (1, 2, 3):
    await sm.decrypt(w.message(A, BOB, dev, Kex(f"k{dev}", w.ik(BOB, dev))))
await sm.after_history_sync()
assert sorted(e.device_id for m, _ in w.sent for e, _ in m.keys) == [1, 2, 3], w.sent
""")

bug("c12-queue-without-version", "C12", [(SM,
"""                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""",
"""                    f"/queue/devices/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/devices/{session.bare_jid}", list(queued_device_ids))
"""), (SM,
"""                    f"/queue/{backend.namespace}/{bare_jid}",
                    int
                )).maybe([]))
                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
""",
"""                    f"/queue/devices/{bare_jid}",
                    int
                )).maybe([]))
                await storage.delete(f"/queue/devices/{bare_jid}")
""")],
"messages of one account under two versions during a history synchronisation",
"the empty messages of the second version are lost", """
w = World(A, B)
sm = await w.start()
sm.before_history_sync()
await w.add(BOB, 1)
for ns in (A, B):
    await sm.decrypt(w.message(ns, BOB, 1, Kex(f"k{ns}", w.ik(BOB, 1))))
await sm.after_history_sync()
assert sorted(m.namespace for m, _ in w.sent) == [A, B], w.sent
""")


bug("c13-reactivate", "C13", [(SM,
"""                if namespace not in active or active[namespace] is False:
                    active[namespace] = True
""",
"""                if namespace not in active:
                    active[namespace] = True
""")],
"a device that disappears from its list and comes back",
"it stays inactive for ever", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
await sm.update_device_list(A, BOB, {})
await sm.update_device_list(A, BOB, {1: None})
assert dict((await w.info(BOB, 1)).active) == {A: True}
""")

bug("c13-label-none", "C13", [(SM,
"""                if device_list[device_id] is not None and device_list[device_id] != label:
""",
"""                if device_list[device_id] != label:
""")],
"a device with a label that is also on the list of a version without labels",
"the label is lost", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1, A, label="phone")
await w.add(BOB, 1, B)
assert (await w.info(BOB, 1)).label == "phone"
""")

bug("c14-other-labels", "C14", [(SM,
"""            await self._upload_device_list(namespace, device_list)

        # Add new device information""",
"""            await self._upload_device_list(namespace, {
                device_id: device_list[device_id] if device_id in old_device_list else None
                for device_id
                in device_list
            })

        # Add new device information""")],
"an own device list without the own device, on which a device with a label appears for the first time",
"the published list lacks the other device's label", """
w = World(A)
sm = await w.start()
w.lists[(A, OWN)] = {5: "laptop"}
await sm.update_device_list(A, OWN, {5: "laptop"})
assert w.lists[(A, OWN)] == {5: "laptop", w.own_id: None}, w.lists
""")

bug("c15-list-first", "C15", [(SM,
"""        # Add new device information entries for new devices
        for device_id in new_devices:
""",
"""        # If there are unknown devices in the new device list, update the list of known devices.
        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        # Add new device information entries for new devices
        for device_id in new_devices:
"""), (SM,
"""        # If there are unknown devices in the new device list, update the list of known devices. Do this as
        # the last step to ensure data consistency.
        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        logging""",
"""        logging""")],
"a crash between two writes of a device list update with a new device",
"the account's devices can't be used any more", """
for die_at in range(1, 8):
    w = World(A)
    sm = await w.start()
    await w.add(BOB, 1)
    w.disk.writes, w.disk.die_at = 0, die_at
    try:
        await sm.update_device_list(A, BOB, {1: None, 2: None})
    except Died:
        pass
    w.disk.die_at = None
    sm = await w.create()
    assert await w.info(BOB, 1)
    await sm.update_device_list(A, BOB, {1: None, 2: None})
    assert await w.info(BOB, 2)
""")

bug("c15-namespaces-first", "C15", [(SM,
"""            await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
            await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", [ namespace ])
""",
"""            namespaces = set((await storage.load_list(
                f"/devices/{bare_jid}/{device_id}/namespaces",
                str
            )).maybe([]))
            if namespace not in namespaces:
                await storage.store(
                    f"/devices/{bare_jid}/{device_id}/namespaces",
                    list(namespaces | { namespace })
                )
                await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
                await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
""")],
"a crash right after the first write for a new device, and the same list once more",
"the repeated update leaves the device incomplete, reading it fails for ever", """
for die_at in range(1, 6):
    w = World(A)
    sm = await w.start()
    w.disk.writes, w.disk.die_at = 0, die_at
    try:
        await sm.update_device_list(A, BOB, {2: "phone"})
    except Died:
        pass
    w.disk.die_at = None
    sm = await w.create()
    await sm.update_device_list(A, BOB, {2: "phone"})
    i = await w.info(BOB, 2)
    assert dict(i.active) == {A: True} and i.label == "phone" and i.namespaces == {A}
""")

bug("c16-trust-by-key", "C16", [(SM,
"""                        identity_key = bundle.identity_key

                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break
""",
"""                        identity_key = bundle.identity_key

                        if bundle.namespace == self.__backends[0].namespace:
                            await storage.store_bytes(
                                f"/devices/{bare_jid}/{device_id}/identity_key",
                                identity_key
                            )
                        break
""")],
"a device that only supports the second version, and whose bundle changes its identity key later",
"the identity key isn't pinned", """
w = World(A, B)
sm = await w.start()
w.keys[(BOB, 1)] = b"1" * 32
await w.add(BOB, 1, B)
w.keys[(BOB, 1)] = b"2" * 32
assert (await w.info(BOB, 1)).identity_key == b"1" * 32
""")

bug("c17-folded-account", "C17", [(SM,
"""        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )
""",
"""        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key.rstrip(bytes(1))).decode('ASCII')}",
            trust_level_name
        )
""")],
"an identity key that ends with a zero byte",
"the decision is stored for another key and never found", """
w = World(A)
sm = await w.start()
w.keys[(BOB, 1)] = b"k" * 31 + bytes(1)
i = await w.add(BOB, 1, trust="distrusted")
assert i.trust_level_name == "distrusted", i
""")

bug("c18-first-list", "C18", [(SM,
"""                frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())
                for backend
                in self.__backends
            ])
""",
"""                frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())
                for backend
                in self.__backends[:1]
            ])
""")],
"a random device id that is taken on the list of the second version only",
"the device shares its id with another one of the account", """
import secrets
w = World(A, B)
w.lists[(B, OWN)] = {5: None}
draws = [4, 8]
real = secrets.randbelow
secrets.randbelow = lambda n: draws.pop(0) if draws else real(n)
sm = await w.create()
assert w.own_id == 9, w.own_id
""")

bug("c19-only-added", "C19", [(SM,
"""            for namespace in active_namespaces - loaded_namespaces:
                await self.purge_backend(namespace)
""",
"""            if not loaded_namespaces - active_namespaces:
                for namespace in active_namespaces - loaded_namespaces:
                    await self.purge_backend(namespace)
""")],
"a start that replaces one version by another one",
"the online data of the removed version stays, other devices keep encrypting for it", """
w = World(A)
sm = await w.start()
await w.create(B)
assert w.own_id not in w.lists[(A, OWN)]
assert (await w.sm.get_own_device_information())[0].namespaces == {B}
""")

bug("c20-list-before-bundle", "C20", [(SM,
"""                    # Refill pre keys if necessary
                    num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)
""",
"""                    # Make sure the list can be reached and modified at all
                    device_list = await self._download_device_list(backend.namespace, self.__own_bare_jid)
                    if self.__own_device_id not in device_list:
                        await self._upload_device_list(backend.namespace, {
                            **device_list,
                            self.__own_device_id: device.label
                        })

                    # Refill pre keys if necessary
                    num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)
""")],
"a bundle upload that fails during the first start, or a look at the server in between",
"the device is listed without a bundle", """
w = World(A)
w.failing.add("upload_bundle")
try:
    await w.create()
except omemo.BundleUploadFailed:
    pass
assert not w.lists.get((A, OWN)), w.lists
""")

bug("c21-bundle-first", "C21", [(SM,
"""        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop(self.__own_device_id)
""",
"""        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        await self._delete_bundle(namespace, self.__own_device_id)
        try:
            device_list.pop(self.__own_device_id)
"""), (SM,
"""        # Second half of online data removal: delete the bundle of this device. This step has low priority,
        # thus done last.
        await self._delete_bundle(namespace, self.__own_device_id)

""", "")],
"a failing upload of the device list while a version is purged",
"the device is listed without a bundle", """
w = World(A, B)
sm = await w.start()
w.failing.add("upload_device_list")
try:
    await sm.purge_backend(A)
except omemo.DeviceListUploadFailed:
    pass
assert w.own_id not in w.lists[(A, OWN)] or (A, OWN, w.own_id) in w.bundles
""")

bug("c22-trust-left", "C22", [(SM,
"""        for device_id in device_list:
            try:
                identity_keys.add((await storage.load_bytes(
""",
"""        for device_id in device_list:
            if not any((await storage.load_dict(
                f"/devices/{bare_jid}/{device_id}/active",
                bool
            )).maybe({}).values()):
                continue

            try:
                identity_keys.add((await storage.load_bytes(
""")],
"a purged account with a device that was inactive for all versions",
"trust in its identity key survives the purge", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
await sm.update_device_list(A, BOB, {})
await sm.purge_bare_jid(BOB)
await sm.update_device_list(A, BOB, {1: None})
assert (await w.info(BOB, 1)).trust_level_name == "undecided"
""")

bug("c23-last-backend", "C23", [(SM,
"""                    next_check = min(next_check, next_rotation)
""",
"""                    next_check = next_rotation
""")],
"several versions whose signed pre keys have different ages",
"the next check comes too late for all but the last one", """
w = World(A, B)
w.ages = {A: 500, B: 100}
delays = []
async def sleep(delay, *_):
    delays.append(delay)
    await asyncio.Event().wait()
real, asyncio.sleep = asyncio.sleep, sleep
sm = await w.create(signed_pre_key_rotation_period=1000)
for _ in range(20):
    await real(0)
asyncio.sleep = real
assert delays and delays[0] <= 560, delays
""")

bug("c23-retry-other", "C23", [(SM,
"""                        except BundleUploadFailed:
""",
"""                        except BundleUploadFailed as e:
                            if retry_delay >= 60 * 60:
                                raise XMPPInteractionFailed() from e
""")],
"seven failing uploads in a row",
"rotation stops for good", """
w = World(A)
w.ages = {A: 5000}
delays = []
async def sleep(delay, *_):
    delays.append(delay)
    if len(delays) == 8:
        w.failing.clear()
    if len(delays) > 8:
        await asyncio.Event().wait()
real, asyncio.sleep = asyncio.sleep, sleep
sm = await w.create(signed_pre_key_rotation_period=1000)
w.failing.add("upload_bundle")
for _ in range(200):
    await real(0)
asyncio.sleep = real
assert len(delays) == 9 and not w.failing, delays
""")

bug("c24-missing-bundle", "C24", [(SM,
"""                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle
""",
"""                upload_bundle = len(self.__backends) == 1
            else:
                upload_bundle = remote_bundle != local_bundle
""")],
"a missing bundle with two versions loaded",
"the bundle isn't restored", """
w = World(A, B)
sm = await w.start()
w.bundles.pop((B, OWN, w.own_id))
await sm.ensure_data_consistency()
assert (B, OWN, w.own_id) in w.bundles
""")

bug("c25-remove-label", "C25", [(SM,
"""            device_list[self.__own_device_id] = own_label
            await""",
"""            device_list[self.__own_device_id] = own_label or device_list.get(self.__own_device_id)
            await""")],
"a label that is removed",
"the old label stays published", """
w = World(A)
sm = await w.start(initial_own_label="phone")
await sm.set_own_label(None)
assert w.lists[(A, OWN)][w.own_id] is None
""")

bug("c27-store-first", "C27", [(SM,
"""                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)

                    # Store the replacement
                    await backend.store_session(session)
""",
"""                    # Store the replacement
                    await backend.store_session(session)

                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)
""")],
"a notification that can't be sent while sessions are replaced",
"the stored session is replaced by one the other side never hears of", """
w = World(A)
sm = await w.start()
d = await w.add(BOB, 1)
await w.encrypt()
old = w.sessions[(A, BOB, 1)]
w.failing.add("send")
errors = await sm.replace_sessions(d)
assert list(errors) == [A] and w.sessions[(A, BOB, 1)] is old
""")


bug("c12-hidden-if-queued", "C12", [(SM,
"""        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""",
"""        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            if (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]):
                await backend.delete_hidden_pre_keys()
""")],
"an account purged during the history synchronisation in which it sent a key exchange",
"the hidden pre key of its key exchange is kept for ever", """
w = World(A)
sm = await w.start()
sm.before_history_sync()
await w.add(BOB, 1)
await sm.decrypt(w.message(A, BOB, 1, Kex("k", w.ik(BOB, 1))))
await sm.purge_bare_jid(BOB)
w.log.clear()
await sm.after_history_sync()
assert ("delete_hidden", A) in w.log
""")

bug("c26-unstored", "C26", [(IK,
"""            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
""",
"""            try:
                await storage.store("/ikp/is_seed", is_seed)
                await storage.store_bytes("/ikp/key", key)
            except StorageException:
                logging.getLogger(IdentityKeyPair.LOG_TAG).error("Couldn't store the key.", exc_info=True)
"""), (IK, "from .storage import NothingException, Storage\n",
"from .storage import NothingException, Storage, StorageException\n")],
"a storage failure when the identity key is stored",
"a key is handed out that isn't stored, the next start has another one", """
from omemo.identity_key_pair import IdentityKeyPair
for fail_at in (1, 2):
    disk = Disk()
    disk.fail_at = fail_at
    seen = set()
    for _ in range(3):
        try:
            seen.add((await IdentityKeyPair.get(disk)).identity_key)
        except StorageException:
            pass
    assert len(seen) == 1
""")

bug("c26-half-stored", "C26", [(IK,
"""            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
            key = (await storage.load_bytes("/ikp/key")).from_just()
""",
"""            key = (await storage.load_bytes("/ikp/key")).from_just()
            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).maybe(False)
"""), (IK,
"""            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
""",
"""            await storage.store_bytes("/ikp/key", key)
            await storage.store("/ikp/is_seed", is_seed)
""")],
"a crash between the two writes of the first start",
"the fresh seed is taken for a private key", """
from omemo.identity_key_pair import IdentityKeyPair
for die_at in (1, 2, 3):
    disk = Disk()
    disk.die_at = die_at
    try:
        await IdentityKeyPair.get(disk)
    except Died:
        pass
    assert (await IdentityKeyPair.get(disk)).is_seed
""")

bug("c28-cache-first", "C28", [(ST,
"""        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""",
"""        if self.__cache is not None:
            self.__cache[key] = Just(value)

        await self._store(key, value)
""")],
"a store operation that fails",
"the value that was never stored is returned from the cache", """
disk = Disk(cache=True)
await disk.store("/a", 1)
disk.fail_at = 2
try:
    await disk.store("/a", 2)
except StorageException:
    pass
assert (await disk.load("/a")).from_just() == 1
""")

bug("c28-delete-race", "C28", [(ST,
"""        await self._delete(key)

        if self.__cache is not None:
            self.__cache[key] = Nothing()
""",
"""        await self._delete(key)

        if self.__cache is not None:
            self.__cache.pop(key, None)
""")],
"a deletion that completes while a load of the same key is running",
"the load puts the deleted value into the cache, it never disappears", """
class Slow(Disk):
    async def _load(self, key):
        value = await super()._load(key)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        return value
disk = Slow({"/a": 1}, cache=True)
t = asyncio.ensure_future(disk.load("/a"))
await asyncio.sleep(0)
await disk.delete("/a")
await t
assert (await disk.load("/a")).is_nothing
""")

bug("c29-first-element", "C29", [(ST,
"""            if isinstance(value, dict) and all(isinstance(v, primitive) for v in value.values()):
""",
"""            if isinstance(value, dict) and isinstance(next(iter(value.values()), primitive()), primitive):
""")],
"a dictionary whose second value has another type",
"it is returned instead of refused", """
disk = Disk({"/a": {"x": True, "y": "no"}})
try:
    await disk.load_dict("/a", bool)
except TypeError:
    pass
else:
    raise AssertionError("returned")
""")

bug("c30-default", "C30", [(BE,
"""        self.__max_num_per_message_skipped_keys = max_num_per_session_skipped_keys if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
""",
"""        self.__max_num_per_message_skipped_keys = min(max_num_per_session_skipped_keys, 1000) if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
""")],
"a limit per session above the default, without a limit per message",
"the limit per message isn't the one per session", """
class Limits(Backend):
    def __init__(self, *limits):
        omemo.Backend.__init__(self, *limits)
for n in (0, 1, 1000, 5000):
    assert Limits(n).max_num_per_message_skipped_keys == n
""")

bug("c31-leading-zero", "C31", [(SM,
"""        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string), group_size) ]
""",
"""        return [
            format(int(ik_hex_string[i:i + group_size], 16), "0x")
            for i in range(0, len(ik_hex_string), group_size)
        ]
""")],
"an identity key with a group that starts with zero",
"the fingerprint lacks digits", """
for n in range(64):
    import xeddsa
    key = xeddsa.bindings.seed_to_ed25519_pub(bytes([n]) * 32)
    groups = omemo.SessionManager.format_identity_key(key)
    assert len(groups) == 8 and all(len(g) == 8 for g in groups), groups
    assert "".join(groups) == xeddsa.bindings.ed25519_pub_to_curve25519_pub(key).hex()
""")

bug("c32-device-list", "C32", [(SM,
"""        # Copy to make sure the original is not modified
        device_list = dict(device_list)

""", "")],
"a device list of the own account that lacks the own device",
"the dictionary of the caller is modified", """
w = World(A)
sm = await w.start()
mine = {5: None}
await sm.update_device_list(A, OWN, mine)
assert mine == {5: None}
""")

bug("c34-active", "C34", [(SM,
"""            if backend.namespace in device.namespaces
        }
""",
"""            if backend.namespace in device.namespaces and dict(device.active)[backend.namespace]
        }
""")],
"a device that is inactive for one version",
"its session isn't reported", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1)
await sm.update_device_list(B, BOB, {})
assert await sm.get_sending_chain_length(await w.info(BOB, 1)) == {A: None, B: None}
""")

bug("c27-stop", "C27", [(SM,
"""                    unsuccessful[backend.namespace] = e

        logging""",
"""                    unsuccessful[backend.namespace] = e
                    if isinstance(e, MessageSendingFailed):
                        break

        logging""")],
"a notification that can't be sent for the first of two versions",
"the session of the second one isn't replaced", """
w = World(A, B)
sm = await w.start()
d = await w.add(BOB, 1)
for ns in (A, B):
    w.sessions[(ns, BOB, 1)] = Sess(ns, BOB, 1, Kex("old", w.ik(BOB, 1)))
w.failing.add(f"send {A}")
assert list(await sm.replace_sessions(d)) == [A]
assert w.sessions[(B, BOB, 1)].kex.name != "old"
""")

bug("c21-others", "C21", [(SM,
"""        active = dict(device.active)
        active.pop(namespace, None)
""",
"""        active = { ns: flag for ns, flag in device.active if ns in {
            backend.namespace for backend in self.__backends
        } }
        active.pop(namespace, None)
""")],
"purging two versions one after the other, of which one isn't loaded (two versions removed at once)",
"activity information of a version that is still supported is dropped", """
w = World(A, B, C)
sm = await w.start()
w.failing.add("delete_bundle")
try:
    await w.create(C)
except omemo.BundleDeletionFailed:
    pass
w.failing.clear()
import json
d = json.loads(json.dumps({k: v for k, v in w.disk.data.items() if k.startswith(f"/devices/{OWN}/{w.own_id}/")}))
nss = next(v for k, v in d.items() if k.endswith("/namespaces"))
active = next(v for k, v in d.items() if k.endswith("/active"))
assert set(nss) == set(active) and len(nss) == 2, d
""")

bug("c36-shared-sessions", "C36", [(SM,
"        sessions: Set[Tuple[Backend, Session]] = set()\n",
"        self.__sessions: Set[Tuple[Backend, Session]] = set()\n"), (SM,
"                    sessions.add((backend, session))\n",
"                    self.__sessions.add((backend, session))\n"), (SM,
"        for backend, session in sessions:\n",
"        while len(self.__sessions) > 0:\n            backend, session = self.__sessions.pop()\n")],
"a second encryption that starts while a bundle is downloaded for the first one",
"the session state of the first one may never be stored", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
await w.add(BOB, 2)
await w.add(CAROL, 3)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("b1", w.ik(BOB, 1)))
w.sessions[(A, BOB, 2)] = Sess(A, BOB, 2, Kex("b2", w.ik(BOB, 2)))
w.sessions[(A, CAROL, 3)] = Sess(A, CAROL, 3, Kex("c3", w.ik(CAROL, 3)))
real = Backend.encrypt_key_material
waiting, go, count = asyncio.Event(), asyncio.Event(), [0]

async def encrypt(self, session, pkm):
    if session.jid == BOB:
        count[0] += 1
        if count[0] == 2:
            waiting.set()
            await go.wait()
    return await real(self, session, pkm)
Backend.encrypt_key_material = encrypt
first = asyncio.ensure_future(w.encrypt(BOB))
await waiting.wait()
await w.encrypt(CAROL)
go.set()
await first
assert all(s.scl == 1 for s in w.sessions.values()), {k: s.scl for k, s in w.sessions.items()}
""")

bug("c12-flag-late", "C12", [(SM,
"""        storage = self.__storage

        self.__synchronizing = False

""",
"""        storage = self.__storage

"""), (SM,
"""                        await self.__send_empty_message(backend, session)

        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
""",
"""                        await self.__send_empty_message(backend, session)

        self.__synchronizing = False

        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
""")],
"a key exchange that arrives while the queued messages are being sent, or a queued message that can't be sent",
"the new session isn't completed, the library stays in synchronization mode", """
w = World(A)
sm = await w.start()
sm.before_history_sync()
await w.add(BOB, 1)
await w.add(CAROL, 2)
await sm.decrypt(w.message(A, BOB, 1, Kex("b", w.ik(BOB, 1))))
real = type(sm)._send_message

async def send(message, bare_jid):
    if bare_jid == BOB:
        await sm.decrypt(w.message(A, CAROL, 2, Kex("c", w.ik(CAROL, 2))))
    await real(message, bare_jid)
type(sm)._send_message = staticmethod(send)
await sm.after_history_sync()
assert sorted(jid for _, jid in w.sent) == [BOB, CAROL], w.sent
""")

bug("c16-own-by-key", "C16", [(SM,
"""            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
""",
"""            lambda dev: dev.identity_key != self.__identity_key_pair.identity_key,
            all_own_devices
""")],
"another device of the own account that was set up from a backup, with the same identity key",
"it isn't told apart from the own device", """
w = World(A)
sm = await w.start()
w.keys[(OWN, 7)] = w.own_ik
w.keys[(OWN, 8)] = w.own_ik
await w.add(OWN, 7)
await w.add(OWN, 8)
own, others = await sm.get_own_device_information()
assert own.device_id == w.own_id and {d.device_id for d in others} == {7, 8}, (own, others)
""")

bug("c23-bundle-once", "C23", [(SM,
"""                    retry_delay = 60  # Start with one minute of retry delay
""",
"""                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    retry_delay = 60  # Start with one minute of retry delay
"""), (SM,
"""                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except BundleUploadFailed:
""",
"""                            await self._upload_bundle(bundle)
                        except BundleUploadFailed:
""")],
"a failing upload after a rotation, and a key exchange that uses up a pre key before the upload is repeated",
"an outdated bundle is published that offers a pre key which is gone", """
w = World(A)
w.ages = {A: 5000}
delays = []
sm = None

async def sleep(delay, *_):
    delays.append(delay)
    if len(delays) == 2:
        await asyncio.Event().wait()
    if len(delays) == 1:
        w.failing.clear()
        w.prekeys[A] = 120
        await type(sm)._upload_bundle(await Backend(w, A).get_bundle(OWN, w.own_id))
real, asyncio.sleep = asyncio.sleep, sleep
sm = await w.create(signed_pre_key_rotation_period=1000)
w.failing.add("upload_bundle")
for _ in range(100):
    await real(0)
asyncio.sleep = real
assert len(delays) == 2 and w.bundles[(A, OWN, w.own_id)].t[4] == 120, w.bundles
""")

bug("c17-default-skipped", "C17", [(SM,
"""        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )

    ####""",
"""        if trust_level_name != self.__undecided_trust_level_name:
            await self.__storage.store(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                trust_level_name
            )

    ####""")],
"trust that is reset to the configured undecided level after it was set to another one",
"the former level stays in force", """
w = World(A)
sm = await w.start()
d = await w.add(BOB, 1)
await sm.set_trust(BOB, d.identity_key, "undecided")
assert (await w.info(BOB, 1)).trust_level_name == "undecided"
""")

bug("c14-label-lost", "C14", [(SM,
"""            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
            await""",
"""            device_list[self.__own_device_id] = None if len(device_list) == 0 else (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
            await""")],
"an emptied device list of the own account, and an own label",
"the own device is published without its label", """
w = World(A)
sm = await w.start()
await sm.set_own_label("mine")
await sm.update_device_list(A, OWN, {})
assert w.lists[(A, OWN)] == {w.own_id: "mine"}, w.lists
""")

bug("c25-unchanged", "C25", [(SM,
"""        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
""",
"""        own_device, _ = await self.get_own_device_information()
        if own_device.label == own_label:
            return

        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
""")],
"a label change whose upload failed, repeated by the application",
"the label is never published", """
w = World(A)
sm = await w.start()
w.failing.add("upload_device_list")
try:
    await sm.set_own_label("mine")
except omemo.DeviceListUploadFailed:
    pass
w.failing.clear()
await sm.set_own_label("mine")
assert w.lists[(A, OWN)] == {w.own_id: "mine"}, w.lists
""")

bug("c20-id-first", "C20", [(SM,
"""            # Store the device information for this device. The backends are added one after the other below,
""",
"""            await self.__storage.store("/own_device_id", self.__own_device_id)

            # Store the device information for this device. The backends are added one after the other below,
"""), (SM,
"""            # Finally store the device id once the other setup is done
            await self.__storage.store("/own_device_id", self.__own_device_id)

""", "")],
"a crash during the first start, between two writes",
"no later start succeeds", """
w = World(A)
real = Disk._store
async def store(self, key, value):
    if key.endswith("/label"):
        raise StorageException()
    await real(self, key, value)
Disk._store = store
try:
    await w.create()
except StorageException:
    pass
Disk._store = real
await w.create()
""")

bug("c11-stale-length", "C11", [(SM,
"""            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is None:
                raise NoSession(""",
"""            session = await backend.load_session(device.bare_jid, device.device_id)
            nonlocal chain_length
            chain_length = 0 if session is None else session.receiving_chain_length or 0
            if session is None:
                raise NoSession("""), (SM,
"""        async def decrypt_key_material(
            backend: Backend,
""",
"""        chain_length = 0

        async def decrypt_key_material(
            backend: Backend,
"""), (SM,
"""            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
""",
"""            or chain_length > self.__class__.STALENESS_MAGIC_NUMBER
""")],
"exactly the 54th message in a row, or a chain that starts anew",
"the empty message comes one message late, or after the chain has been advanced already", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("b", w.ik(BOB, 1)), rcl=53)
await sm.decrypt(w.message(A, BOB, 1))
assert len(w.sent) == 1
""")

bug("c09-key-by-id", "C09", [(SM,
"""                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
                message.keys
            ))
""",
"""                lambda k: k[0].device_id == self.__own_device_id,
                sorted(message.keys, key=lambda k: k[0].bare_jid)
            ))
            if encrypted_key_material.bare_jid != self.__own_bare_jid:
                raise StopIteration
""")],
"a message to several accounts, one of which has a device with the same id as the own one",
"the message is reported as not encrypted for this device", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("b", w.ik(BOB, 1)))
m = w.message(A, BOB, 1)
m = m._replace(keys=m.keys | {(EKM("alice@example.org", w.own_id, PKM()), None)})
assert (await sm.decrypt(m))[0] == b"hello"
""")

bug("c05-first-only", "C05", [(SM,
"""            raise NoEligibleDevices(
                no_eligible_devices,
""",
"""            raise NoEligibleDevices(
                no_eligible_devices & (frozenset(
                    error.bare_jid for error in encryption_errors
                ) or no_eligible_devices),
""")],
"several recipients without a copy, some because encrypting failed, some without any eligible device",
"the ones without eligible devices aren't named", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.kex_fails.add((A, BOB, 1))
try:
    await w.encrypt(BOB, CAROL)
    assert False
except omemo.NoEligibleDevices as e:
    assert e.bare_jids == {BOB, CAROL}, e.bare_jids
""")

bug("c08-early-hide", "C08", [(SM,
"""        # Decrypt the message
        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
""",
"""        # The pre key must not be used again
        bundle_changed = False
        if key_exchange is not None:
            bundle_changed = await (
                backend.hide_pre_key(session) if self.__synchronizing else backend.delete_pre_key(session)
            )

        # Decrypt the message
        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
"""), (SM,
"""            bundle_changed: bool
            if self.__synchronizing:
                # If the library is currently in history synchronization mode, hide the pre key but defer the
                # deletion.
                logging.getLogger(SessionManager.LOG_TAG).debug("Hiding pre key.")
                bundle_changed = await backend.hide_pre_key(session)
            else:
                # Otherwise, delete the pre key right away
                logging.getLogger(SessionManager.LOG_TAG).debug("Deleting pre key.")
                bundle_changed = await backend.delete_pre_key(session)

""", "")],
"a key exchange whose message content can't be decrypted",
"the pre key is gone though the session was never stored", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.content_fails = True
before = dict(w.prekeys)
try:
    await sm.decrypt(w.message(A, BOB, 1, Kex("b", w.ik(BOB, 1))))
    assert False
except omemo.DecryptionFailed:
    pass
assert w.prekeys == before
""")

bug("c10-upload-skipped", "C10", [(SM,
"""                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)

        # Send an empty""",
"""                if not self.__synchronizing or num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    await self._upload_bundle(bundle)

        # Send an empty""")],
"a key exchange during the history synchronization that leaves more pre keys than the threshold",
"the published bundle still offers the used pre key", """
w = World(A)
sm = await w.start(pre_key_refill_threshold=50)
sm.before_history_sync()
await w.add(BOB, 1)
await sm.decrypt(w.message(A, BOB, 1, Kex("b", w.ik(BOB, 1))))
assert w.bundles[(A, OWN, w.own_id)].t[4] == w.prekeys[A] == 99, w.bundles
""")

bug("c32-priority", "C32", [(SM,
"""        effective_backend_priority_order = \\
            available_namespaces if backend_priority_order is None else backend_priority_order
""",
"""        effective_backend_priority_order = \\
            available_namespaces if backend_priority_order is None else backend_priority_order
        for namespace in list(effective_backend_priority_order):
            if namespace not in plaintext:
                effective_backend_priority_order.remove(namespace)
""")],
"a priority order with a version for which no plaintext is given",
"the list of the caller is modified", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1)
order = [A, B]
await sm.encrypt(frozenset({BOB}), {A: b"a"}, order)
assert order == [A, B]
""")

bug("c04-ask-again", "C04", [(SM,
"""            logging.getLogger(SessionManager.LOG_TAG).debug(f"Updated trust: {devices}")
""",
"""            logging.getLogger(SessionManager.LOG_TAG).debug(f"Updated trust: {devices}")

            # Decisions may be made one by one
            remaining = frozenset({
                device for device in devices
                if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
            })
            if 0 < len(remaining) < len(undecided_devices):
                await self._make_trust_decision(remaining, identifier)
                devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                    f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                    str
                )).maybe(self.__undecided_trust_level_name)) for device in devices }
""")],
"several undecided devices of which only some are decided",
"the application is asked a second time for the same message", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1, trust=None)
await w.add(BOB, 2, trust=None)
w.decisions = lambda d: "trusted" if d.device_id == 1 else None
try:
    await w.encrypt(BOB)
    assert False
except omemo.StillUndecided:
    pass
assert len(w.asked) == 1
""")

bug("c24-swallowed", "C24", [(SM,
"""            upload_bundle = False
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle
""",
"""            upload_bundle = False
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            else:
                upload_bundle = (
                    remote_bundle != local_bundle
                    and remote_bundle.identity_key == local_bundle.identity_key
                )
""")],
"a published bundle with another identity key than the own one, for example of another installation with the same id",
"it isn't replaced", """
w = World(A)
sm = await w.start()
w.bundles[(A, OWN, w.own_id)] = Bundle(A, OWN, w.own_id, b"other" * 6 + b"!!", 100)
await sm.ensure_data_consistency()
assert w.bundles[(A, OWN, w.own_id)].identity_key == w.own_ik
""")

bug("c22-shared-trust", "C22", [(SM,
"""        # Delete information about the identity keys
        for identity_key in identity_keys:
""",
"""        # Keep the trust in identity keys that are used by this account's owner elsewhere
        own_devices = await self.get_device_information(self.__own_bare_jid)
        identity_keys -= { device.identity_key for device in own_devices }

        # Delete information about the identity keys
        for identity_key in identity_keys:
""")],
"an account with an identity key that the own account uses, too",
"its trust survives the purge", """
w = World(A)
sm = await w.start()
w.keys[(OWN, 7)] = w.keys[(BOB, 1)] = b"shared" * 5 + b"!!"
await w.add(OWN, 7)
await w.add(BOB, 1)
await sm.purge_bare_jid(BOB)
assert not [k for k in w.disk.data if BOB in k], w.disk.data
""")

bug("c13-refresh-all", "C13", [(SM,
"""        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, bare_jid)

    ####""",
"""        device_lists = {
            backend.namespace: await self._download_device_list(backend.namespace, bare_jid)
            for backend in self.__backends
        }
        for namespace, device_list in device_lists.items():
            if len(device_list) > 0:
                await self.update_device_list(namespace, bare_jid, device_list)

    ####""")],
"a refresh after an account has removed all devices from the list of one version",
"its devices stay active", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1)
w.lists[(B, BOB)] = {}
await sm.refresh_device_lists(BOB)
assert dict((await w.info(BOB, 1)).active) == {A: True, B: False}
""")

bug("c19-purge-known", "C19", [(SM,
"""        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)
""",
"""        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            known, _ = await self.__get_device_information(self.__own_bare_jid)
            await self._upload_device_list(namespace, {
                device_id: label for device_id, label in device_list.items()
                if any(device.device_id == device_id for device in known)
            })
""")],
"another own device that isn't known locally (its bundle can't be downloaded, or it is new) when a version is removed",
"it is removed from the list", """
w = World(A, B)
sm = await w.start()
w.lists[(B, OWN)][99] = "other"
await w.create(A)
assert w.lists[(B, OWN)] == {99: "other"}, w.lists
""")

# -- what the process remembers between operations
INIT = ("        self.__synchronizing: bool\n\n    @classmethod", "        self.__synchronizing: bool\n{}\n    @classmethod")


def remembered(line):
    return SM, INIT[0], INIT[1].format(f"        {line}\n")


bug("c07-known-senders", "C07", [remembered("self.__known_senders: Set[Tuple[str, bytes]] = set()"), (SM,
"""        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise""",
"""        sender = (device.bare_jid, device.identity_key)
        if (
            sender not in self.__known_senders
            and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED
        ):
            raise"""), (SM,
"""        await backend.store_session(session)

        # If this message was a key exchange, take""",
"""        await backend.store_session(session)
        self.__known_senders.add(sender)

        # If this message was a key exchange, take""")],
"a sender that is distrusted after a message of it was decrypted by the same process",
"its messages are still decrypted", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("first", w.ik(BOB, 1)))

def message():
    return omemo.Message(A, BOB, 1, Content(b"hello"), frozenset([(EKM(OWN, w.own_id, PKM()), None)]))
assert (await sm.decrypt(message()))[0] == b"hello"
await sm.set_trust(BOB, w.ik(BOB, 1), "distrusted")
try:
    await sm.decrypt(message())
    assert False
except omemo.SenderDistrusted:
    pass
""")

bug("c03-broken-devices", "C03", [remembered("self.__broken_devices: Set[Tuple[str, int]] = set()"), (SM,
"""                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    # Those""",
"""                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    # Don't try again with each message
                    self.__broken_devices.add((device.bare_jid, device.device_id))

                    # Those"""), (SM,
"""            # Remove the own device
""",
"""            # Remove devices that are known to be broken
            if (device.bare_jid, device.device_id) in self.__broken_devices:
                return False

            # Remove the own device
""")],
"a second message after the first one found the bundle of a device unavailable",
"the device never gets a message again", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
await w.add(BOB, 2)
w.no_bundle.add((A, BOB, 2))
messages, errors = await w.encrypt()
assert len(errors) == 1
w.no_bundle.clear()
messages, errors = await w.encrypt()
assert targets(messages) == [(A, BOB, 1), (A, BOB, 2)], targets(messages)
""")

bug("c14-same-list", "C14", [remembered("self.__processed: Dict[Tuple[str, str], Dict[int, Optional[str]]] = {}"), (SM,
"""        # Copy to make sure the original is not modified
        device_list = dict(device_list)
""",
"""        # Copy to make sure the original is not modified
        device_list = dict(device_list)

        # The same list is often delivered again
        if self.__processed.get((namespace, bare_jid)) == device_list:
            return

        self.__processed[(namespace, bare_jid)] = dict(device_list)
""")],
"a list without the own device that arrives again, after the device has added itself",
"the device doesn't add itself a second time", """
w = World(A)
sm = await w.start()
for _ in range(2):
    w.lists[(A, OWN)] = {7: "other"}
    await sm.update_device_list(A, OWN, {7: "other"})
    assert w.own_id in w.lists[(A, OWN)] and 7 in w.lists[(A, OWN)], w.lists
""")

bug("c17-information-cache", "C17", [remembered("self.__information: Dict[str, FrozenSet[DeviceInformation]] = {}"), (SM,
"        return (await self.__get_device_information(bare_jid))[0]\n",
"""        if bare_jid not in self.__information:
            self.__information[bare_jid] = (await self.__get_device_information(bare_jid))[0]

        return self.__information[bare_jid]
"""), (SM,
"        new_devices = new_device_list - old_device_list\n",
"        new_devices = new_device_list - old_device_list\n        self.__information.pop(bare_jid, None)\n"), (SM,
"        bundle_cache: Set[Bundle] = set()\n",
"        self.__information.pop(bare_jid, None)\n        bundle_cache: Set[Bundle] = set()\n")],
"trust that is set after the information about the account was read",
"the level from before is reported", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
assert (await w.info(BOB, 1)).trust_level_name == "trusted"
await sm.set_trust(BOB, w.ik(BOB, 1), "distrusted")
assert (await w.info(BOB, 1)).trust_level_name == "distrusted"
""")

bug("c27-session-cache", "C27", [remembered(
    "self.__sessions: Dict[Tuple[str, str, int], Session] = {}"), (SM,
"                session = await backend.load_session(device.bare_jid, device.device_id)\n                logging",
"""                session_id = (backend.namespace, device.bare_jid, device.device_id)
                session = self.__sessions.get(session_id)
                if session is None:
                    session = await backend.load_session(device.bare_jid, device.device_id)
                logging"""), (SM,
"                    sessions.add((backend, session))\n",
"                    sessions.add((backend, session))\n                    self.__sessions[session_id] = session\n")],
"a message, then sessions are replaced, then another message",
"the second message still uses the old session", """
w = World(A)
sm = await w.start()
device = await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("broken", w.ik(BOB, 1)))
await w.encrypt()
await sm.replace_sessions(device)
new = w.sessions[(A, BOB, 1)].kex.name
assert new != "broken"
messages, errors = await w.encrypt()
((ekm, _),) = next(iter(messages)).keys
assert w.sessions[(A, BOB, 1)].kex.name == new == ekm.session.kex.name, w.sessions[(A, BOB, 1)].kex.name
""")

bug("c13-refresh-once", "C13", [remembered("self.__refreshed: Set[Tuple[str, str]] = set()"), (SM,
"""        await self.update_device_list(
            namespace,
            bare_jid,
            await""",
"""        # One refresh is enough, changes are pushed from then on
        if (namespace, bare_jid) in self.__refreshed:
            return

        self.__refreshed.add((namespace, bare_jid))
        await self.update_device_list(
            namespace,
            bare_jid,
            await""")],
"a refresh after an earlier one by the same process",
"the devices that appeared since are missing", """
w = World(A)
sm = await w.start()
w.lists[(A, BOB)] = {1: None}
await sm.refresh_device_list(A, BOB)
w.lists[(A, BOB)] = {1: None, 2: None}
await sm.refresh_device_list(A, BOB)
assert {d.device_id for d in await sm.get_device_information(BOB)} == {1, 2}
""")

bug("c04-asked-before", "C04", [remembered("self.__asked: Set[DeviceInformation] = set()"), (SM,
"            await self._make_trust_decision(undecided_devices, identifier)\n",
"""            # Don't bother the user again with devices they left undecided before
            if not undecided_devices <= self.__asked:
                await self._make_trust_decision(undecided_devices, identifier)
                self.__asked |= undecided_devices
""")],
"a second message to devices the user didn't decide about the first time",
"no decision is requested, the message can't be sent", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1, trust=None)
w.decisions = lambda d: None
try:
    await w.encrypt()
    assert False
except omemo.StillUndecided:
    pass
w.decisions = lambda d: "trusted"
messages, errors = await w.encrypt()
assert targets(messages) == [(A, BOB, 1)] and len(w.asked) == 2
""")

bug("c16-bundle-lost", "C16", [remembered("self.__no_bundle: Set[Tuple[str, str, int]] = set()"), (SM,
"                    try:\n                        bundle = await self._download_bundle(namespace, bare_jid, device_id)",
"""                    if (namespace, bare_jid, device_id) in self.__no_bundle:
                        continue

                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)"""), (SM,
"""                    except BundleNotFound:
                        logging""",
"""                    except BundleNotFound:
                        self.__no_bundle.add((namespace, bare_jid, device_id))
                        logging""")],
"a device whose bundle is published after the information about it was asked for once",
"it stays invisible until the next restart", """
w = World(A)
sm = await w.start()
w.no_bundle.add((A, BOB, 1))
w.lists[(A, BOB)] = {1: None}
await sm.refresh_device_list(A, BOB)
assert await sm.get_device_information(BOB) == frozenset()
w.no_bundle.clear()
assert len(await sm.get_device_information(BOB)) == 1
""")

# -- limits that only show with many
bug("c03-limit", "C03", [(SM,
"""        devices = cast(Set[DeviceInformation], set()).union(*(devices for devices, _ in tmp))
""",
"""        # Keep messages at a reasonable size
        devices = cast(Set[DeviceInformation], set()).union(*(
            sorted(devices, key=lambda device: device.device_id)[-16:] for devices, _ in tmp
        ))
""")],
"an account with more than sixteen devices",
"the ones with the lowest ids get no key", """
w = World(A)
sm = await w.start()
for k in range(1, 19):
    await w.add(BOB, k)
messages, errors = await w.encrypt()
assert targets(messages) == [(A, BOB, k) for k in range(1, 19)], targets(messages)
""")

bug("c37-bundles-kept", "C37", [remembered("self.__bundles: Set[Bundle] = set()"), (SM,
"        bundle_cache = cast(FrozenSet[Bundle], frozenset()).union(*(bundle_cache for _, bundle_cache in tmp))\n",
"""        # Bundles are expensive to download
        self.__bundles.update(*(bundle_cache for _, bundle_cache in tmp))
        bundle_cache = frozenset(self.__bundles)
""")],
"a first message that was given up after it downloaded the bundle of an unknown device, which then publishes a new one",
"the session is built with the outdated bundle, unlike after a restart", """
w = World(A)
sm = await w.start()
w.lists[(A, BOB)] = {1: None}
await sm.refresh_device_list(A, BOB)
w.decisions = lambda d: None
w.bundles[(A, BOB, 1)] = Bundle(A, BOB, 1, w.ik(BOB, 1), "old")
try:
    await w.encrypt()
    assert False
except omemo.StillUndecided:
    pass
w.decisions = lambda d: "trusted"
w.no_bundle.add((A, BOB, 1))
try:
    await w.encrypt()
    assert False, "no bundle"
except omemo.NoEligibleDevices:
    pass
""")

bug("c37-level-kept", "C37", [remembered("self.__levels: Dict[Tuple[str, bytes], TrustLevel] = {}"), (SM,
"""        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise""",
"""        sender = (device.bare_jid, device.identity_key)
        if sender not in self.__levels:
            self.__levels[sender] = await self._evaluate_custom_trust_level(device)

        if self.__levels[sender] is TrustLevel.DISTRUSTED:
            raise""")],
"a distrusted sender that becomes trusted between two messages",
"its messages are refused until the process is restarted", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1, trust="distrusted")
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("first", w.ik(BOB, 1)))

def message():
    return omemo.Message(A, BOB, 1, Content(b"hello"), frozenset([(EKM(OWN, w.own_id, PKM()), None)]))
try:
    await sm.decrypt(message())
    assert False
except omemo.SenderDistrusted:
    pass
await sm.set_trust(BOB, w.ik(BOB, 1), "trusted")
assert (await sm.decrypt(message()))[0] == b"hello"
""")

# -- unusual values
bug("c09-empty-plaintext", "C09", [(SM,
"        return (plaintext, device, plain_key_material)",
"        return (plaintext or None, device, plain_key_material)")],
"a message whose plaintext is the empty byte string",
"it looks like an empty OMEMO message", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("first", w.ik(BOB, 1)))
plaintext, device, _ = await sm.decrypt(omemo.Message(A, BOB, 1, Content(b""), frozenset([(EKM(OWN, w.own_id, PKM()), None)])))
assert plaintext == b""
""")

bug("c03-empty-message", "C03", [(SM,
"            if len(backend_devices) == 0:\n",
"            if len(backend_devices) == 0 or not plaintext[backend.namespace]:\n")],
"a message with an empty plaintext for one version",
"the devices of that version get nothing, without an error", """
w = World(A, B)
sm = await w.start()
await w.add(BOB, 1, A)
await w.add(BOB, 2, B)
messages, errors = await sm.encrypt(frozenset([BOB]), {A: b"", B: b"text"})
assert len(messages) == 2, messages
""")

bug("c09-version-prefix", "C09", [(SM,
"lambda backend: backend.namespace == message.namespace",
"lambda backend: message.namespace.startswith(backend.namespace)")],
"a message of a version whose name extends the one of a loaded version",
"it is handled by the wrong version", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)
w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Kex("first", w.ik(BOB, 1)))
try:
    await sm.decrypt(omemo.Message(A + ":2", BOB, 1, Content(b"x"), frozenset([(EKM(OWN, w.own_id, PKM()), None)])))
    assert False
except omemo.UnknownNamespace:
    pass
""")

bug("c09-same-exchange", "C09", [(SM,
"                    and session.key_exchange.builds_same_session(key_exchange)\n",
"                    and session.key_exchange == key_exchange\n")],
"a second message with the key exchange of the stored session, when key exchanges are compared by object",
"the session is built anew and replaces the stored one", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1)

class Exchange(Kex):
    __eq__ = object.__eq__
    __hash__ = object.__hash__

w.sessions[(A, BOB, 1)] = Sess(A, BOB, 1, Exchange("first", w.ik(BOB, 1)))
await sm.decrypt(omemo.Message(A, BOB, 1, Content(b"x"), frozenset([
    (EKM(OWN, w.own_id, PKM()), Exchange("first", w.ik(BOB, 1)))])))
assert not [e for e in w.log if e[0] == "build_passive"], w.log
""")

bug("c14-folded-account", "C14", [(SM,
"            bare_jid == self.__own_bare_jid\n            and namespace in",
"            bare_jid.lower() == self.__own_bare_jid.lower()\n            and namespace in")],
"the device list of an account whose name differs from the own one in case only",
"that account's list is published as the own one", """
w = World(A)
sm = await w.start()
await sm.update_device_list(A, OWN.upper(), {7: None})
assert set(w.lists[(A, OWN)]) == {w.own_id}, w.lists
""")

bug("c04-empty-identifier", "C04", [(SM,
"_make_trust_decision(undecided_devices, identifier)",
"_make_trust_decision(undecided_devices, identifier or None)")],
"an empty identifier",
"the trust decision gets none instead", """
w = World(A)
sm = await w.start()
await w.add(BOB, 1, trust=None)
await sm.encrypt(frozenset([BOB]), {A: b"x"}, None, "")
assert w.asked[0][1] == ""
""")
