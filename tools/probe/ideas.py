"""Single edits that break a property, as somebody might write them who only knows the properties and /repo."""
SM, ST, IK, BE, BTBV = ("omemo/session_manager.py", "omemo/storage.py", "omemo/identity_key_pair.py", "omemo/backend.py",
                        "examples/btbv_session_manager.py")
IDEAS = []


def idea(name, checks, *edits):
    IDEAS.append((name, checks, [e if len(e) == 3 else (SM,) + e for e in edits]))


idea("reload-undecided-only", "C01 C04", ("""            )).maybe(self.__undecided_trust_level_name)) for device in devices }

            logging""", """            )).maybe(self.__undecided_trust_level_name)) if device in undecided_devices else device for device in devices }

            logging"""))
idea("own-id-any-account", "C03 C05", ("""            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False""", """            if device.device_id == self.__own_device_id:
                return False"""))
idea("priority-by-loaded", "C03", ("key=backend_priority_order.index)[0:1]", "key=available_namespaces.index)[0:1]"))
idea("ik-prefix-encrypt", "C02", ("""                        if bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed(
                                f""", """                        if bundle.identity_key[:16] != device.identity_key[:16]:
                            raise KeyExchangeFailed(
                                f"""))
idea("ik-prefix-decrypt", "C02 C09", ("if key_exchange.identity_key != device.identity_key:",
                                      "if key_exchange.identity_key[:31] != device.identity_key[:31]:"))
idea("ik-suffix-replace", "C02 C27", ("""                    if bundle.identity_key != device.identity_key:
                        raise""", """                    if bundle.identity_key[1:] != device.identity_key[1:]:
                        raise"""))
idea("ik-curve-decrypt", "C02", ("if key_exchange.identity_key != device.identity_key:",
                                 "if xeddsa.ed25519_pub_to_curve25519_pub(key_exchange.identity_key) != xeddsa.ed25519_pub_to_curve25519_pub(device.identity_key):"))
idea("std-b64", "C17", ("""        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )

    ####""", """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )

    ####"""))
idea("store-not-awaited", "C06", ("""        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
""", """        for backend, session in sessions:
            # Persist the session as the final step
            asyncio.ensure_future(backend.store_session(session))
"""))
idea("distrust-only-live", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                   "        if not self.__synchronizing and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:"))
idea("distrust-kex-only", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                  "        if key_exchange is None and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:"))
idea("reject-undecided", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                 "        if (await self._evaluate_custom_trust_level(device)) is not TrustLevel.TRUSTED:"))
idea("initiation-ignored", "C09", ("""                if (
                    session.initiation is Initiation.PASSIVE
                    and session""", """                if (
                    session"""))
HIDE = """            bundle_changed: bool
            if self.__synchronizing:
"""
idea("hide-always", "C10 C12", (HIDE, HIDE.replace("self.__synchronizing", "True")))
idea("delete-always", "C10 C12", (HIDE, HIDE.replace("self.__synchronizing", "False")))
QDEL = """            await storage.delete(f"/queue/{backend.namespace}")

            logging"""
END = """                        await self.__send_empty_message(backend, session)

        logging.getLogger(SessionManager.LOG_TAG).debug("History"""
FLAG = """        self.__synchronizing = False

"""
idea("flag-after-sync", "C12", (FLAG, ""), (END, END.replace("\n        logging", "\n" + FLAG + "        logging")))
idea("sync-starts-live", "C12 C10", ("        self.__synchronizing = True\n\n        try:", "        self.__synchronizing = False\n\n        try:"))

# -- encryption
RELOAD = """            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
"""
idea("reload-by-other-account", "C01", (RELOAD, RELOAD.replace("{device.bare_jid}", "{next(iter(bare_jids))}")))
KEEP = """        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
"""
idea("trust-cache-by-id", "C01", (KEEP, """        levels = {}
        for device in devices:
            if device.device_id not in levels:
                levels[device.device_id] = await self._evaluate_custom_trust_level(device)
        devices = { device for device in devices if levels[device.device_id] is TrustLevel.TRUSTED }
"""))
idea("trust-cache-by-ik", "C01", (KEEP, """        levels = {}
        for device in devices:
            if device.identity_key not in levels:
                levels[device.identity_key] = await self._evaluate_custom_trust_level(device)
        devices = { device for device in devices if levels[device.identity_key] is TrustLevel.TRUSTED }
"""))
idea("own-devices-trusted", "C01", (KEEP, KEEP.replace("is TrustLevel.TRUSTED\n", "is TrustLevel.TRUSTED or device.bare_jid == self.__own_bare_jid\n")))
idea("not-distrusted", "C01 C04", (KEEP, KEEP.replace("is TrustLevel.TRUSTED", "is not TrustLevel.DISTRUSTED")),
     ("        if len(undecided_devices) > 0:\n            raise StillUndecided", "        if len(undecided_devices) > 1:\n            raise StillUndecided"))
idea("undecided-first-check-only", "C04", ("""        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0:
            raise""", """        undecided_devices = frozenset({
            device for device in undecided_devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0:
            raise"""))
idea("ask-before-priority", "C04", ("""        devices = set(filter(is_valid_recipient_device, devices))
""", """        undecided_all = frozenset({
            device for device in devices if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })
        if undecided_all:
            await self._make_trust_decision(undecided_all, identifier)
        devices = set(filter(is_valid_recipient_device, devices))
"""))
idea("identifier-dropped", "C04", ("await self._make_trust_decision(undecided_devices, identifier)", "await self._make_trust_decision(undecided_devices, None)"))
CHECKIK = """                        if bundle is None:
                            bundle = await self._download_bundle(
                                backend.namespace,
                                device.bare_jid,
                                device.device_id
                            )

                        # Trust was evaluated for the identity key on record, don't build a session with
                        # another one.
                        if bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed(
                                f"The identity key in the bundle of device {device.device_id} of bare JID"
                                f" {device.bare_jid} does not match the identity key known for the device."
                            )
"""
idea("check-only-trusted-before", "C02", ("if bundle.identity_key != device.identity_key:\n                            raise",
                                          "if bundle.identity_key != device.identity_key and device not in undecided_devices and len(bare_jids) > 1:\n                            raise"))
idea("cache-no-jid", "C03", ("                    and bundle.bare_jid == device.bare_jid\n", ""))
idea("cache-no-ns", "C02 C03", ("""                    bundle.namespace == backend.namespace
                    and bundle.bare_jid""", """                    bundle.bare_jid"""))
KEX = """                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))"""
idea("kex-confirmed-too", "C06", (KEX, KEX.replace(" and not session.confirmed", "")))
idea("kex-only-built", "C06", (KEX, KEX.replace("and not session.confirmed", "and bundle is not None")))
idea("kex-passive-too", "C06", (KEX, KEX.replace("session.initiation is Initiation.ACTIVE and ", "")))
KEX2 = KEX.replace("                        ", "                ").replace("                    )))", "            )) })")
idea("empty-kex-confirmed-too", "C11", (KEX2, KEX2.replace(" and not session.confirmed", "")))
idea("empty-kex-never", "C12", (KEX2, KEX2.replace("session.key_exchange\n", "None\n")))
idea("plaintext-first", "C03", ("backend.encrypt_plaintext(plaintext[backend.namespace])", "backend.encrypt_plaintext(next(iter(plaintext.values())))"))
idea("break-on-empty-backend", "C03", ("            if len(backend_devices) == 0:\n                continue", "            if len(backend_devices) == 0:\n                break"))
idea("content-shared", "C03", ("        for backend in self.__backends:\n            # Find", "        content = None\n        for backend in self.__backends:\n            # Find"),
     ("            content, plain_key_material = await backend.encrypt_plaintext(plaintext[backend.namespace])",
      "            if content is None:\n                content, plain_key_material = await backend.encrypt_plaintext(plaintext[backend.namespace])"))
idea("error-other-ns", "C03", ("""                    encryption_errors.add(EncryptionError(
                        backend.namespace,""", """                    encryption_errors.add(EncryptionError(
                        effective_backend_priority_order[0],"""))
idea("download-failed-raises", "C03", ("except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:", "except (BundleDownloadFailed, KeyExchangeFailed) as e:"))
idea("device-kept-on-error", "C05", ("                    devices.remove(device)\n", ""))
idea("stop-after-errors", "C03", ("                    devices.remove(device)\n", "                    devices.remove(device)\n                    if len(encryption_errors) > 1:\n                        raise\n"))
NOELIG = "lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),"
idea("eligible-by-errors", "C05", (NOELIG, "lambda bare_jid: all(device.bare_jid != bare_jid for device in devices) and any(e.bare_jid == bare_jid for e in encryption_errors) or not devices,"))
idea("eligible-own-only", "C05", ("        )) - frozenset({ self.__own_bare_jid })\n", "        ))\n"))
STORE = """        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
"""
idea("store-built-only", "C06", (STORE, STORE.replace("            await", "            if not session.confirmed:\n                await")))
idea("store-one-per-jid", "C06", (STORE, """        for backend, session in { (b, s.bare_jid): (b, s) for b, s in sessions }.values():
            await backend.store_session(session)
"""))
idea("store-before-eligible", "C05", (STORE, ""), ("        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Devices with sessions: {devices}\")\n",
     "        for backend, session in sessions:\n            await backend.store_session(session)\n\n"))
idea("active-any", "C01 C03", ("""                if dict(device.active)[namespace] and namespace in backend_priority_order
""", """                if namespace in backend_priority_order
"""))
idea("priority-last", "C03", ("key=backend_priority_order.index)[0:1]", "key=backend_priority_order.index)[-1:]"))
idea("own-jid-not-added", "C03", ("bare_jids = frozenset(bare_jids) | frozenset({ self.__own_bare_jid })", "bare_jids = frozenset(bare_jids)"))

# -- decryption
idea("key-by-device-only", "C09", ("lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,", "lambda k: k[0].device_id == self.__own_device_id,"))
idea("key-by-jid-only", "C09", ("lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,", "lambda k: k[0].bare_jid == self.__own_bare_jid,"))
idea("backend-first-if-unknown", "C09", ("backend = next(filter(lambda backend: backend.namespace == message.namespace, self.__backends), None)",
                                         "backend = next(filter(lambda backend: backend.namespace >= message.namespace, self.__backends), None)"))
idea("no-refresh-for-own", "C09", ("            await self.refresh_device_list(message.namespace, message.bare_jid)\n",
                                   "            if message.bare_jid != self.__own_bare_jid:\n                await self.refresh_device_list(message.namespace, message.bare_jid)\n"))
idea("trust-any-device", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                 "        if (await self._evaluate_custom_trust_level(next(iter(devices)))) is TrustLevel.DISTRUSTED:"))
idea("trust-all-devices", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                  "        if any([ (await self._evaluate_custom_trust_level(dev)) is TrustLevel.DISTRUSTED for dev in devices ]):"))
idea("trust-not-after-refresh", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                        "        if device in devices and not self.__synchronizing and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:"))
idea("empty-not-checked", "C07", ("        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:",
                                  "        if not message.content.empty and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:"))
idea("ik-check-no-session", "C02 C09", ("            if key_exchange.identity_key != device.identity_key:", "            if key_exchange.identity_key != device.identity_key and await backend.load_session(device.bare_jid, device.device_id) is None:"))
idea("ik-check-late", "C02 C09", ("            if key_exchange.identity_key != device.identity_key:", "            if session_known(key_exchange.identity_key) and key_exchange.identity_key != device.identity_key:"),
     ("        async def decrypt_key_material(\n", "        level = device.trust_level_name\n\n        def session_known(ik):\n            return level != self.__undecided_trust_level_name\n\n        async def decrypt_key_material(\n"))
idea("empty-key-material", "C09", ("        plaintext = None if message.content.empty else await", "        plaintext = None if message.content.empty and key_exchange is not None else await"))
STORED = """        # Persist the session following successful decryption
        await backend.store_session(session)
"""
idea("store-if-kex", "C09", (STORED, "        if key_exchange is not None or not message.content.empty:\n            await backend.store_session(session)\n"))
idea("store-last", "C09", (STORED, ""), ("        logging.getLogger(SessionManager.LOG_TAG).debug(\"Post-decryption tasks completed.\")\n", "        await backend.store_session(session)\n\n"))
BC = """            if bundle_changed:
                num_visible"""
idea("bundle-always-changed", "C10", (BC, BC.replace("if bundle_changed", "if True")))
idea("no-upload-syncing", "C10", ("                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                await self._upload_bundle(bundle)\n",
                                  "                if not self.__synchronizing:\n                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                    await self._upload_bundle(bundle)\n"),)
idea("refill-one-more", "C10", ("                    logging.getLogger(SessionManager.LOG_TAG).debug(\"Refilling pre keys.\")\n                    await backend.generate_pre_keys(100 - num_visible_pre_keys)",
                                "                    await backend.generate_pre_keys(101 - num_visible_pre_keys)"))
idea("refill-default-threshold", "C10", ("                if num_visible_pre_keys <= self.__pre_key_refill_threshold:\n                    logging", "                if num_visible_pre_keys <= 99:\n                    logging"))
DUE = """            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
"""
idea("due-no-kex-if-empty", "C11", (DUE, DUE.replace("key_exchange is not None\n", "(key_exchange is not None and not message.content.empty)\n")))
idea("due-never-for-empty", "C11", (DUE, "            not message.content.empty and (key_exchange is not None\n            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER)\n"))
idea("due-sending-chain", "C11", (DUE, DUE.replace("session.receiving_chain_length or 0", "session.sending_chain_length")))
idea("staleness-54", "C11", ("STALENESS_MAGIC_NUMBER = 53", "STALENESS_MAGIC_NUMBER = 54"), )
QJ = """                queued_jids = set((await storage.load_list(f"/queue/{session.namespace}", str)).maybe([]))

                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))
"""
idea("queue-jid-first-only", "C12", (QJ, """                queued_jids = set((await storage.load_list(f"/queue/{session.namespace}", str)).maybe([]))
                if not queued_jids:
                    queued_jids.add(session.bare_jid)
                    await storage.store(f"/queue/{session.namespace}", list(queued_jids))
"""))
idea("queue-own-ns", "C12", (QJ, QJ.replace("{session.namespace}", "{self.__backends[0].namespace}")))
idea("queue-jid-if-new-device", "C12", ("                queued_device_ids.add(session.device_id)\n", "                if session.device_id in queued_device_ids:\n                    return (plaintext, device, plain_key_material)\n                queued_device_ids = { session.device_id } if len(queued_device_ids) > 1 else queued_device_ids | { session.device_id }\n"))
idea("queue-not-reset", "C12", ("                await storage.delete(f\"/queue/{backend.namespace}/{bare_jid}\")\n\n                logging", "                logging"))
idea("queue-return-missing", "C12", ("""                    session = await backend.load_session(bare_jid, device_id)
                    if session is None:
                        logging.getLogger(SessionManager.LOG_TAG).warning(""", """                    session = await backend.load_session(bare_jid, device_id)
                    if session is None:
                        return
                        logging.getLogger(SessionManager.LOG_TAG).warning("""))
idea("before-clears-queue", "C12", ("        self.__synchronizing = True\n\n    async def after", "        self.__synchronizing = not self.__synchronizing\n\n    async def after"))
idea("hidden-first-backend", "C12", ("        for backend in self.__backends:\n            await backend.delete_hidden_pre_keys()\n", "        for backend in self.__backends[:1]:\n            await backend.delete_hidden_pre_keys()\n"))
idea("hidden-after-queue", "C12", ("        for backend in self.__backends:\n            await backend.delete_hidden_pre_keys()\n\n", ""), (END, END.replace("\n        logging", "\n        for backend in self.__backends:\n            await backend.delete_hidden_pre_keys()\n\n        logging")))
idea("empty-not-stored", "C11", ("        await backend.store_session(session)\n\n        await self._send_message", "        await self._send_message"))
idea("empty-stored-only-live", "C11 C12", ("        await backend.store_session(session)\n\n        await self._send_message", "        if session.initiation is Initiation.PASSIVE:\n            await backend.store_session(session)\n\n        await self._send_message"))
idea("empty-to-own", "C11 C12", ("        ), session.bare_jid)\n", "        ), self.__own_bare_jid if session.device_id == self.__own_device_id else session.bare_jid)\n"))

# -- device lists
idea("update-own-label-none", "C14", ("""            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
""", """            device_list[self.__own_device_id] = None
"""))
idea("update-label-old", "C13", ("                if device_list[device_id] is not None and device_list[device_id] != label:", "                if label is None and device_list[device_id] is not None:"))
idea("update-label-truthy", "C13", ("                if device_list[device_id] is not None and device_list[device_id] != label:", "                if device_list[device_id] and device_list[device_id] != label:"))
idea("update-inactive-all", "C13", ("                    if active[namespace] is True:\n                        active[namespace] = False\n", "                    if active[namespace] is True:\n                        active = { ns: False for ns in active }\n"))
idea("update-active-reset", "C13", ("                    active[namespace] = True\n                    await storage", "                    active = { namespace: True }\n                    await storage"))
idea("update-list-replaced", "C13", ("list(new_device_list | old_device_list)", "list(new_device_list)"))
idea("update-list-always-if-shrunk", "C13", ("        if len(new_devices) > 0:\n            await storage.store(f\"/devices/{bare_jid}/list\", list(new_device_list | old_device_list))", "        if new_device_list != old_device_list:\n            await storage.store(f\"/devices/{bare_jid}/list\", list(new_device_list | old_device_list if new_devices else new_device_list))"))
idea("update-namespace-first-only", "C13", ("                if namespace not in namespaces:\n                    namespaces.add(namespace)", "                if not namespaces:\n                    namespaces.add(namespace)"))
idea("update-own-not-deactivated", "C13 C14", ("        device_list = dict(device_list)\n", "        device_list = { device_id: label or None for device_id, label in device_list.items() }\n"))
idea("new-device-id-range", "C13 C18", ("        new_devices = new_device_list - old_device_list\n", "        new_devices = frozenset(device_id for device_id in new_device_list - old_device_list if device_id < 2 ** 31 - 1)\n        new_device_list = new_devices | (new_device_list & old_device_list)\n        device_list = { device_id: label for device_id, label in device_list.items() if device_id in new_device_list }\n"))
idea("refresh-first-only", "C13", ("        for backend in self.__backends:\n            await self.refresh_device_list(backend.namespace, bare_jid)\n", "        for backend in self.__backends[:1]:\n            await self.refresh_device_list(backend.namespace, bare_jid)\n"))

# -- device information
idea("info-inactive-hidden", "C16", ("            devices.add(DeviceInformation(\n", "            if not any(active.values()):\n                continue\n            devices.add(DeviceInformation(\n"))
idea("info-ik-loaded-ns", "C16", ("                for namespace in namespaces:\n                    try:", "                for namespace in { ns for ns in namespaces if any(b.namespace == ns for b in self.__backends) }:\n                    try:"))
idea("info-ik-once", "C16", ("                for namespace in namespaces:\n                    try:", "                for namespace in sorted(namespaces)[:1]:\n                    try:"))
idea("info-trust-any-account", "C16 C17", ("""                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)

""", """                f"/trust/{self.__own_bare_jid if identity_key == self.__identity_key_pair.identity_key else bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)

"""))
idea("info-notfound-raises", "C16 C03", ("""                    except BundleNotFound:
                        logging""", """                    except BundleNotFound:
                        if len(namespaces) > 1:
                            raise
                        logging"""))
idea("info-ik-not-stored", "C16 C02", ("""                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break""", """                        if any(b.namespace == namespace for b in self.__backends):
                            await storage.store_bytes(
                                f"/devices/{bare_jid}/{device_id}/identity_key",
                                identity_key
                            )

                        break"""))
idea("own-info-first", "C16", ("            lambda dev: dev.device_id != self.__own_device_id,\n", "            lambda dev: dev.identity_key != self.__identity_key_pair.identity_key,\n"))

# -- own data, setup
idea("own-id-collision-first-backend", "C18", ("                in self.__backends\n            ])\n", "                in self.__backends[:1]\n            ])\n"))
idea("own-id-zero", "C18", ("secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN", "secrets.randbelow(cls.DEVICE_ID_MAX)"))
idea("own-label-lost", "C18", ("                f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label\",\n                initial_own_label\n", "                f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label\",\n                initial_own_label or None\n"))
idea("create-priority-sorted", "C03", ("        self.__backends = list(backends)  # Copy to make sure the original is not modified", "        self.__backends = sorted(backends, key=lambda b: b.namespace)"))
idea("create-purge-first", "C19", ("""            # Perform cleanup of removed backends
            for namespace in active_namespaces - loaded_namespaces:
                await self.purge_backend(namespace)
""", """            # Perform cleanup of removed backends
            for namespace in (active_namespaces - loaded_namespaces if loaded_namespaces > active_namespaces or not loaded_namespaces & active_namespaces else ()):
                await self.purge_backend(namespace)
"""))
idea("create-bundle-after-list", "C20 C19", ("""                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

                    # Trigger""", """                    # Trigger"""), ("""                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            # Perform""", """                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

            # Perform"""))
idea("create-refill-only-empty", "C19 C18", ("                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:\n                        await", "                    if num_visible_pre_keys == 0:\n                        await"))
idea("purge-not-own-backends", "C22", ("""            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

        # Remove backend-specific data
        for backend in self.__backends:
""", """            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")

        # Remove backend-specific data
        for backend in self.__backends if device_list else []:
"""))
idea("purge-trust-shared", "C22", ("        for identity_key in identity_keys:\n            await storage.delete(", "        for identity_key in identity_keys - { self.__identity_key_pair.identity_key }:\n            await storage.delete("))
idea("purge-ik-nothing-stops", "C22", ("""            except NothingException:
                pass

        # Delete information about the individual""", """            except NothingException:
                break

        # Delete information about the individual"""))
idea("purge-queue-whole", "C22", ("[ queued_jid for queued_jid in queued_jids if queued_jid != bare_jid ]", "[]"))
idea("purge-backend-last-kept", "C21", ("        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))\n", "        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends)) or self.__backends\n"))
idea("purge-backend-no-bundle", "C21", ("        await self._delete_bundle(namespace, self.__own_device_id)\n", "        if purged_backend is not None:\n            await self._delete_bundle(namespace, self.__own_device_id)\n"))
idea("purge-backend-upload-always", "C21", ("""        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)
""", """        except KeyError:
            return
        else:
            await self._upload_device_list(namespace, device_list)
"""))
idea("label-only-if-changed", "C25", ("        # Store the new label\n        await self.__storage.store(f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label\", own_label)\n",
     "        old = (await self.__storage.load_optional(f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label\", str)).from_just()\n        if old == own_label:\n            return\n        await self.__storage.store(f\"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label\", own_label)\n"))
idea("label-only-if-listed", "C25", ("            device_list[self.__own_device_id] = own_label\n            await self._upload_device_list(backend.namespace, device_list)\n", "            if self.__own_device_id in device_list:\n                device_list[self.__own_device_id] = own_label\n                await self._upload_device_list(backend.namespace, device_list)\n"))
idea("consistency-notfound-only", "C24", ("            except (BundleDownloadFailed, BundleNotFound):\n                logging", "            except BundleNotFound:\n                logging"))
idea("consistency-ik-only", "C24", ("upload_bundle = remote_bundle != local_bundle", "upload_bundle = remote_bundle.identity_key != local_bundle.identity_key"))
idea("consistency-remote", "C24", ("                await self._upload_bundle(local_bundle)\n", "                await self._upload_bundle(local_bundle)\n                break\n"))
ROT = """                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
"""
idea("rotation-delay-first", "C23", (ROT, """                            retry_delay *= 2  # Double the retry delay
                            await async_sleep(retry_delay)
"""))
idea("rotation-next-max", "C23", ("next_check = min(next_check, next_rotation)", "next_check = next_rotation"))
idea("rotation-global-delay", "C23", ("                    retry_delay = 60  # Start with one minute of retry delay\n", ""), ("        while True:\n            # Keep track", "        retry_delay = 60\n        while True:\n            # Keep track"))
idea("rotation-at-start", "C23", ("            next_check = signed_pre_key_rotation_period\n", "            next_check = 24 * 60 * 60\n"))
idea("rotation-bundle-once", "C23", ("""                    while backend in self.__backends:
                        try:
                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
""", """                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    while backend in self.__backends:
                        try:
                            await self._upload_bundle(bundle)
"""))
idea("replace-own-given", "C27 C34", ("""            if await backend.load_session(device.bare_jid, device.device_id) is not None
        })))""", """            if await backend.load_session(device.bare_jid, device.device_id) is not None or backend.namespace in dict(device.active) and len(device.namespaces) > 1
        })))"""))
idea("replace-active-only", "C27", ("            if backend.namespace in device.namespaces:\n                try:", "            if backend.namespace in device.namespaces and dict(device.active)[backend.namespace]:\n                try:"))
idea("replace-content-before", "C27", ("                except OMEMOException as e:\n                    logging.getLogger(SessionManager.LOG_TAG).warning(\n                        f\"Session repl", "                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:\n                    logging.getLogger(SessionManager.LOG_TAG).warning(\n                        f\"Session repl"))
idea("chain-length-zero", "C34", ("            namespace: None if session is None else session.sending_chain_length\n", "            namespace: None if session is None else session.sending_chain_length or None\n"))
idea("chain-length-active", "C34", ("            if backend.namespace in device.namespaces\n        }\n\n        sending", "            if dict(device.active).get(backend.namespace)\n        }\n\n        sending"))
idea("set-trust-known-only", "C17", ("        await self.__storage.store(\n            f\"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}\",\n            trust_level_name\n        )\n\n    ####", "        if (await self.__storage.load(f\"/devices/{bare_jid}/list\")).is_nothing:\n            return\n\n        await self.__storage.store(\n            f\"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}\",\n            trust_level_name\n        )\n\n    ####"))

# -- storage and the rest
idea("store-none-deletes", "C28 C29", (ST, "        await self._store(key, value)\n\n        if self.__cache is not None:\n            self.__cache[key] = Just(value)\n", "        await self._store(key, value)\n\n        if self.__cache is not None:\n            self.__cache[key] = Just(value) if value is not None else Nothing()\n"))
idea("store-same-skipped", "C28", (ST, "        await self._store(key, value)\n\n        if self.__cache is not None:\n            self.__cache[key] = Just(value)\n", "        if self.__cache is not None and key in self.__cache and self.__cache[key].maybe(None) == value:\n            return\n        await self._store(key, value)\n        if self.__cache is not None:\n            self.__cache[key] = Just(value)\n"))
idea("delete-unknown-skipped", "C28", (ST, "        await self._delete(key)\n\n        if self.__cache is not None:\n", "        if self.__cache is None or key in self.__cache:\n            await self._delete(key)\n        if self.__cache is not None:\n"))
idea("optional-falsy", "C29", (ST, "            if value is None or isinstance(value, primitive):", "            if not value or isinstance(value, primitive):"))
idea("list-empty-refused", "C29", (ST, "            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):", "            if isinstance(value, list) and (not value or isinstance(value[-1], primitive)):"))
idea("dict-any", "C29", (ST, "all(isinstance(v, primitive) for v in value.values())", "(not value or any(isinstance(v, primitive) for v in value.values()))"))
idea("ik-seed-short", "C26", (IK, "        return IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)\n", "        return IdentityKeyPairSeed(key) if is_seed or key[31] & 128 else IdentityKeyPairPriv(key)\n"))
idea("ik-key-first-store", "C26", (IK, "            await storage.store(\"/ikp/is_seed\", is_seed)\n            await storage.store_bytes(\"/ikp/key\", key)\n", "            await storage.store_bytes(\"/ikp/key\", key)\n            await storage.store(\"/ikp/is_seed\", is_seed)\n"))
idea("backend-limit-eq", "C30", (BE, "        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:", "        if (max_num_per_message_skipped_keys or 0) >= max_num_per_session_skipped_keys > 0:"))
idea("format-upper", "C31", ("        return [ ik_hex_string[i:i + group_size]", "        ik_hex_string = ik_hex_string.replace(\"ff\", \"FF\")\n        return [ ik_hex_string[i:i + group_size]"))
idea("btbv-distrusted-ok", "C33", (BTBV, "                BTBVTrustLevel.BLINDLY_TRUSTED\n            } for", "                BTBVTrustLevel.BLINDLY_TRUSTED,\n                BTBVTrustLevel.DISTRUSTED\n            } for"))
idea("btbv-undecided-only", "C33", (BTBV, "            } for device in devices):", "            } for device in undecided if device.bare_jid == bare_jid):"))
idea("btbv-active-only", "C33", (BTBV, "            } for device in devices):", "            } for device in devices if any(dict(device.active).values())):"))
idea("btbv-manual-also", "C33", (BTBV, "{ dev for dev in undecided if dev.bare_jid in blind_trust_bare_jids }", "{ dev for dev in undecided if dev.bare_jid in blind_trust_bare_jids or dev.label is not None and not manual_trust_bare_jids }"))
idea("btbv-one-manual-all", "C33", (BTBV, "                blind_trust_bare_jids.add(bare_jid)\n", "                if not manual_trust_bare_jids:\n                    blind_trust_bare_jids.add(bare_jid)\n                else:\n                    manual_trust_bare_jids.add(bare_jid)\n"))

# -- state kept between the steps of an operation
idea("shared-sessions", "C06", ("        sessions: Set[Tuple[Backend, Session]] = set()\n", "        self.__sessions: Set[Tuple[Backend, Session]] = set()\n"),
     ("                    sessions.add((backend, session))", "                    self.__sessions.add((backend, session))"),
     ("        for backend, session in sessions:\n", "        for backend, session in list(self.__sessions):\n"))
idea("shared-errors", "C03", ("        encryption_errors: Set[EncryptionError] = set()\n", "        self.__encryption_errors: Set[EncryptionError] = set()\n"),
     ("                    encryption_errors.add(", "                    self.__encryption_errors.add("),
     ("            f\"Non-critical encryption errors: {encryption_errors}\"", "            f\"Non-critical encryption errors: {self.__encryption_errors}\""),
     ("        return messages, frozenset(encryption_errors)", "        return messages, frozenset(self.__encryption_errors)"))
idea("shared-unsuccessful", "C27", ("        unsuccessful: Dict[str, OMEMOException] = {}\n", "        self.__unsuccessful: Dict[str, OMEMOException] = {}\n"),
     ("                    unsuccessful[backend.namespace] = e", "                    self.__unsuccessful[backend.namespace] = e"),
     ("        return unsuccessful\n", "        return self.__unsuccessful\n"))
idea("shared-device", "C09", ("        devices = await self.get_device_information(message.bare_jid)\n        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)\n",
     "        self.__senders = await self.get_device_information(message.bare_jid)\n        device = next(filter(lambda device: device.device_id == message.device_id, self.__senders), None)\n"),
     ("        return (plaintext, device, plain_key_material)", "        device = next((d for d in self.__senders if d.device_id == message.device_id), device)\n        return (plaintext, device, plain_key_material)"))
idea("shared-new-devices", "C13", ("        new_devices = new_device_list - old_device_list\n", "        self.__new_devices = new_devices = new_device_list - old_device_list\n"),
     ("        if len(new_devices) > 0:\n", "        if len(self.__new_devices) > 0:\n"))
idea("shared-message", "C11", ("        await self._send_message(Message(\n            backend.namespace,\n            self.__own_bare_jid,\n            self.__own_device_id,\n            content,\n            frozenset({ (encrypted_key_material, (\n", "        self.__target = session.bare_jid\n        await backend.get_num_visible_pre_keys()\n        await self._send_message(Message(\n            backend.namespace,\n            self.__own_bare_jid,\n            self.__own_device_id,\n            content,\n            frozenset({ (encrypted_key_material, (\n"),
     ("        ), session.bare_jid)\n", "        ), self.__target)\n"))

# -- only with many of something
idea("many-encrypt", "C03", ("            for device in backend_devices:\n                # Attempt", "            for device in list(backend_devices)[:16]:\n                # Attempt"))
idea("many-undecided", "C04", ("            await self._make_trust_decision(undecided_devices, identifier)", "            await self._make_trust_decision(frozenset(list(undecided_devices)[:20]), identifier)"))
idea("many-errors", "C03", ("        return messages, frozenset(encryption_errors)", "        return messages, frozenset(list(encryption_errors)[:10])"))
idea("many-recipients", "C05", ("for bare_jid in bare_jids ])\n\n        devices = cast", "for bare_jid in sorted(bare_jids)[:10] ])\n\n        devices = cast"))
idea("many-lost", "C05", ("                no_eligible_devices,\n                \"One or more", "                frozenset(sorted(no_eligible_devices)[:3]),\n                \"One or more"))
idea("many-listed", "C13", ("        new_device_list = frozenset(device_list.keys())\n", "        new_device_list = frozenset(list(device_list.keys())[:12])\n"))
idea("many-info", "C16", ("        for device_id in device_list:\n            namespaces", "        for device_id in list(device_list)[:10]:\n            namespaces"))
# -- state kept in the process between operations
idea("state-info-cache", "C01 C04 C07 C16 C17 C37", ("        return (await self.__get_device_information(bare_jid))[0]\n", """        seen = self.__dict__.setdefault("_infos", {})
        if bare_jid not in seen:
            seen[bare_jid] = (await self.__get_device_information(bare_jid))[0]
        return seen[bare_jid]
"""), ("        new_devices = new_device_list - old_device_list\n", """        new_devices = new_device_list - old_device_list
        self.__dict__.setdefault("_infos", {}).pop(bare_jid, None)
"""))
idea("state-info-cache-trust", "C16 C07 C02 C37", ("        return (await self.__get_device_information(bare_jid))[0]\n", """        seen = self.__dict__.setdefault("_infos", {})
        if bare_jid not in seen:
            seen[bare_jid] = (await self.__get_device_information(bare_jid))[0]
        return seen[bare_jid]
"""), ("        new_devices = new_device_list - old_device_list\n", """        new_devices = new_device_list - old_device_list
        self.__dict__.setdefault("_infos", {}).pop(bare_jid, None)
"""), ("            f\"Setting trust level for identity key {identity_key} to {trust_level_name}.\"\n        )\n", """            f"Setting trust level for identity key {identity_key} to {trust_level_name}."
        )
        self.__dict__.setdefault("_infos", {}).pop(bare_jid, None)
"""))
idea("state-info-cache-encrypt", "C01 C04 C37", ("        tmp = frozenset([ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ])\n", """        seen = self.__dict__.setdefault("_infos", {})
        for bare_jid in bare_jids:
            if bare_jid not in seen:
                seen[bare_jid] = await self.__get_device_information(bare_jid)
        tmp = frozenset([ seen[bare_jid] for bare_jid in bare_jids ])
"""), ("        new_devices = new_device_list - old_device_list\n", """        new_devices = new_device_list - old_device_list
        self.__dict__.setdefault("_infos", {}).pop(bare_jid, None)
"""))
idea("state-broken-devices", "C03 C05 C37", ("""                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    # Those""", """                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    self.__dict__.setdefault("_broken", set()).add((device.bare_jid, device.device_id))
                    # Those"""), ("            # Remove the own device\n", """            if (device.bare_jid, device.device_id) in self.__dict__.get("_broken", ()):
                return False

            # Remove the own device
"""))
idea("state-bundle-failed-info", "C16 C37", ("                for namespace in namespaces:\n                    try:\n", """                failed = self.__dict__.setdefault("_failed", set())
                for namespace in namespaces:
                    if (namespace, bare_jid, device_id) in failed:
                        continue
                    try:
"""), ("""                            f" namespace {namespace}.",
                            exc_info=True
                        )
                    except BundleNotFound:
""", """                            f" namespace {namespace}.",
                            exc_info=True
                        )
                        failed.add((namespace, bare_jid, device_id))
                    except BundleNotFound:
"""))
idea("state-refresh-once", "C15 C13 C37", ("        await self.update_device_list(\n            namespace,\n            bare_jid,\n", """        if (namespace, bare_jid) in self.__dict__.setdefault("_refreshed", set()):
            return

        self._refreshed.add((namespace, bare_jid))
        await self.update_device_list(
            namespace,
            bare_jid,
"""))
idea("state-same-update", "C13 C14 C37", ("        # Copy to make sure the original is not modified\n        device_list = dict(device_list)\n", """        # Copy to make sure the original is not modified
        device_list = dict(device_list)
        last = self.__dict__.setdefault("_last", {})
        if last.get((namespace, bare_jid)) == device_list:
            return
        last[(namespace, bare_jid)] = dict(device_list)
"""))
idea("state-trusted-senders", "C07 C37", ("""        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
""", """        fine = self.__dict__.setdefault("_fine", set())
        if (device.bare_jid, device.device_id) not in fine and (
            await self._evaluate_custom_trust_level(device)
        ) is TrustLevel.DISTRUSTED:
"""), ("        await backend.store_session(session)\n\n        # If this message was a key exchange, take", """        await backend.store_session(session)
        fine.add((device.bare_jid, device.device_id))

        # If this message was a key exchange, take"""))
idea("state-session-cache", "C06 C22 C27 C21 C37", ("                session = await backend.load_session(device.bare_jid, device.device_id)\n                logging", """                session = self.__dict__.setdefault("_sess", {}).get((backend.namespace, device.bare_jid, device.device_id))
                if session is None:
                    session = await backend.load_session(device.bare_jid, device.device_id)
                logging"""), ("                    sessions.add((backend, session))\n", "                    sessions.add((backend, session))\n                    self._sess[backend.namespace, device.bare_jid, device.device_id] = session\n"))
idea("state-label-same", "C25 C37", ("            device_list[self.__own_device_id] = own_label\n", """            if (backend.namespace, own_label) in self.__dict__.setdefault("_labels", set()):
                continue
            self._labels.add((backend.namespace, own_label))
            device_list[self.__own_device_id] = own_label
"""))
idea("state-decided-once", "C04 C37", ("            await self._make_trust_decision(undecided_devices, identifier)\n", """            asked = self.__dict__.setdefault("_asked", set())
            if undecided_devices - asked:
                asked |= undecided_devices
                await self._make_trust_decision(undecided_devices, identifier)
"""))
idea("state-bundle-cache", "C02 C03 C37", ("        bundle_cache = cast(FrozenSet[Bundle], frozenset()).union(*(bundle_cache for _, bundle_cache in tmp))\n", """        self.__dict__.setdefault("_bundles", set()).update(*(bundle_cache for _, bundle_cache in tmp))
        bundle_cache = frozenset(self._bundles)
"""))
idea("state-hide-once", "C10 C12 C37", ("                bundle_changed = await backend.hide_pre_key(session)\n", """                bundle_changed = False
                if backend.namespace not in self.__dict__.setdefault("_hidden", set()):
                    self._hidden.add(backend.namespace)
                    bundle_changed = await backend.hide_pre_key(session)
"""))
idea("skip-session-trust", "C07", ("""        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise""", """        if (
            key_exchange is not None or await backend.load_session(device.bare_jid, device.device_id) is None
        ) and (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise"""))
idea("skip-not-loaded-info", "C16", ("            # Load the identity key as soon as possible", """            if namespaces.isdisjoint(backend.namespace for backend in self.__backends):
                continue

            # Load the identity key as soon as possible"""))
idea("skip-inactive-unknown", "C16", ("            # Load the identity key as soon as possible", """            if not any((await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just().values()):
                continue

            # Load the identity key as soon as possible"""))
idea("skip-own-device-info", "C03 C05 C16", ("        device_list = frozenset((await storage.load_list(f\"/devices/{bare_jid}/list\", int)).maybe([]))\n\n        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Offline", "        device_list = frozenset((await storage.load_list(f\"/devices/{bare_jid}/list\", int)).maybe([])) - ({ self.__own_device_id } if bare_jid != self.__own_bare_jid else set())\n\n        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Offline"))
idea("skip-first-id-shared", "C03", ("        devices = set(filter(is_valid_recipient_device, devices))\n", """        devices = set({ device.device_id: device for device in filter(is_valid_recipient_device, devices) }.values())
"""))
# -- unusual values
idea("odd-empty-plaintext", "C09", ("        return (plaintext, device, plain_key_material)", "        return (plaintext or None, device, plain_key_material)"))
idea("odd-empty-message", "C03", ("            if len(backend_devices) == 0:\n", "            if len(backend_devices) == 0 or not plaintext[backend.namespace]:\n"))
idea("odd-fold-sender", "C07 C09", ("        devices = await self.get_device_information(message.bare_jid)\n        device = next(filter(", "        devices = await self.get_device_information(message.bare_jid.lower())\n        device = next(filter("))
idea("odd-fold-recipients", "C01 C05", ("        bare_jids = frozenset(bare_jids) |", "        bare_jids = frozenset(bare_jid.lower() for bare_jid in bare_jids) |"))
idea("odd-fold-purge", "C22", ("        storage = self.__storage\n\n        # Get the set of devices to delete\n", "        storage = self.__storage\n        bare_jid = bare_jid.lower()\n\n        # Get the set of devices to delete\n"))
idea("odd-fold-update", "C13 C15", ("        # Copy to make sure the original is not modified\n        device_list = dict(device_list)\n", "        # Copy to make sure the original is not modified\n        device_list = dict(device_list)\n        bare_jid = bare_jid.lower()\n"))
idea("odd-fold-recipient-key", "C09", ("lambda k: k[0].bare_jid == self.__own_bare_jid and", "lambda k: k[0].bare_jid.lower() == self.__own_bare_jid.lower() and"))
idea("odd-fold-own", "C03 C14", ("            bare_jid == self.__own_bare_jid\n            and namespace", "            bare_jid.lower() == self.__own_bare_jid.lower()\n            and namespace"))
idea("odd-ns-substring", "C01 C03", ("                if dict(device.active)[namespace] and namespace in backend_priority_order\n", "                if dict(device.active)[namespace] and namespace in \" \".join(backend_priority_order)\n"))
idea("odd-ns-prefix", "C09 C02", ("lambda backend: backend.namespace == message.namespace", "lambda backend: message.namespace.startswith(backend.namespace)"))
idea("odd-ns-prefix-2", "C09 C02", ("lambda backend: backend.namespace == message.namespace", "lambda backend: backend.namespace.startswith(message.namespace)"))
idea("odd-identifier", "C04", ("_make_trust_decision(undecided_devices, identifier)", "_make_trust_decision(undecided_devices, identifier or None)"))
idea("odd-kex-equal", "C09", ("                    and session.key_exchange.builds_same_session(key_exchange)\n", "                    and session.key_exchange == key_exchange\n"))
idea("odd-undecided-name", "C04", ("""            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        logging""", """            if device.trust_level_name == self.__undecided_trust_level_name
        })

        logging"""))
idea("odd-queue-fold", "C12", ("                queued_jids.add(session.bare_jid)", "                queued_jids.add(session.bare_jid.lower())"))
idea("odd-bundle-device", "C03 C02", ("                    and bundle.bare_jid == device.bare_jid\n", "                    and bundle.bare_jid.lower() == device.bare_jid.lower()\n"))
