"""Behaviour-preserving rewrites of /repo, in bundles. No check may raise an alarm on any of them (see run.py)."""

SM, ST, IK, SE = ("omemo/session_manager.py", "omemo/storage.py", "omemo/identity_key_pair.py", "omemo/session.py")
BE, BTBV, TY = "omemo/backend.py", "examples/btbv_session_manager.py", "omemo/types.py"

BUNDLES = {}


def ref(bundle, path, old, new):
    BUNDLES.setdefault(bundle, []).append((path, old, new))


# -- r1: helpers extracted, loops rewritten in the session manager ---------------------------------------------------

ref("r1", SM, """    async def set_trust(self, bare_jid: str, identity_key: bytes, trust_level_name: str) -> None:
""", """    @staticmethod
    def __trust_key(bare_jid: str, identity_key: bytes) -> str:
        return "/trust/" + bare_jid + "/" + str(base64.urlsafe_b64encode(identity_key), "ascii")

    def __loaded(self) -> FrozenSet[str]:
        return frozenset(map(lambda backend: backend.namespace, self.__backends))

    async def set_trust(self, bare_jid: str, identity_key: bytes, trust_level_name: str) -> None:
""")
ref("r1", SM, """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )

    ######################
    # session management #
""", """        await self.__storage.store(self.__trust_key(bare_jid, identity_key), trust_level_name)

    ######################
    # session management #
""")
ref("r1", SM, """            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
""", """            stored_level = await storage.load_primitive(self.__trust_key(bare_jid, identity_key), str)
            trust_level_name = stored_level.from_just() if stored_level.is_just \\
                else self.__undecided_trust_level_name
""")
ref("r1", SM, """        if namespace not in frozenset(backend.namespace for backend in self.__backends):
            raise UnknownNamespace(f"The backend handling""", """        if namespace not in self.__loaded():
            raise UnknownNamespace(f"The backend handling""")
ref("r1", SM, """        # Add new device information entries for new devices
        for device_id in new_devices:
""", """        # Add new device information entries for new devices
        for device_id in [ device_id for device_id in device_list if device_id in new_devices ]:
""")
ref("r1", SM, """            and namespace in frozenset(backend.namespace for backend in self.__backends)
            and self.__own_device_id not in new_device_list
""", """            and self.__own_device_id not in device_list
""")
ref("r1", SM, """        # Check for recipients without a single remaining device, except for ourselves
        no_eligible_devices = frozenset(filter(
            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - frozenset({ self.__own_bare_jid })
""", """        # Check for recipients without a single remaining device, except for ourselves
        reached_jids = { device.bare_jid for device in devices }
        no_eligible_devices = frozenset(
            bare_jid for bare_jid in bare_jids
            if bare_jid != self.__own_bare_jid and bare_jid not in reached_jids
        )
""")
ref("r1", SM, """        tmp = frozenset([ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ])

        devices = cast(Set[DeviceInformation], set()).union(*(devices for devices, _ in tmp))
        devices = set(filter(is_valid_recipient_device, devices))

        bundle_cache = cast(FrozenSet[Bundle], frozenset()).union(*(bundle_cache for _, bundle_cache in tmp))
""", """        devices: Set[DeviceInformation] = set()
        bundle_cache: List[Bundle] = []
        for bare_jid in sorted(bare_jids):
            infos, downloaded = await self.__get_device_information(bare_jid)
            bundle_cache.extend(downloaded)
            devices.update(info for info in infos if is_valid_recipient_device(info))
""")
ref("r1", SM, """            # Remove namespaces for which the device is inactive
            namespaces_active = frozenset(filter(
                lambda namespace: dict(device.active)[namespace],
                device.namespaces
            ))
""", """            # Remove namespaces for which the device is inactive
            activity = dict(device.active)
            namespaces_active = { namespace for namespace in device.namespaces if activity[namespace] }
""")
ref("r1", SM, """            if len(namespaces_active & frozenset(effective_backend_priority_order)) == 0:
                return False

            return True
""", """            return not namespaces_active.isdisjoint(effective_backend_priority_order)
""")
ref("r1", SM, """            return device._replace(namespaces=frozenset(sorted((
                namespace
                for namespace
                in device.namespaces
                if dict(device.active)[namespace] and namespace in backend_priority_order
            ), key=backend_priority_order.index)[0:1]))
""", """            active = dict(device.active)
            for namespace in backend_priority_order:
                if namespace in device.namespaces and active[namespace]:
                    return device._replace(namespaces=frozenset({ namespace }))

            return device._replace(namespaces=frozenset())
""")
ref("r1", SM, """        # Make sure the trust status of all previously undecided devices has been decided on
        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0:
            raise StillUndecided(
                f"The trust status of one or more devices has not been decided on: {undecided_devices}"
            )

        # Keep only trusted devices
        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
""", """        # Make sure the trust status of all previously undecided devices has been decided on, and keep only
        # trusted devices
        levels = { device: await self._evaluate_custom_trust_level(device) for device in devices }
        if TrustLevel.UNDECIDED in levels.values():
            raise StillUndecided("The trust status of one or more devices has not been decided on.")

        devices = { device for device, level in levels.items() if level is TrustLevel.TRUSTED }
""")
ref("r1", SM, """                bundle = next((bundle for bundle in bundle_cache if (
                    bundle.namespace == backend.namespace
                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
                )), None)
""", """                bundle: Optional[Bundle] = None
                for cached in bundle_cache:
                    if (cached.namespace, cached.bare_jid, cached.device_id) == (
                        backend.namespace, device.bare_jid, device.device_id
                    ):
                        bundle = cached
                        break
""")

# -- r2: the other operations of the session manager -----------------------------------------------------------------

ref("r2", SM, """        # Check if there is key material for us
        try:
            encrypted_key_material, key_exchange = next(filter(
                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
                message.keys
            ))
        except StopIteration:
            # pylint: disable=raise-missing-from
            raise MessageNotForUs("The message to decrypt does not contain key material for us.")
""", """        # Check if there is key material for us
        for_us = [ k for k in message.keys if (
            k[0].device_id == self.__own_device_id and k[0].bare_jid == self.__own_bare_jid
        ) ]
        if not for_us:
            raise MessageNotForUs("The message to decrypt does not contain key material for us.")
        encrypted_key_material, key_exchange = for_us[0]
""")
ref("r2", SM, """        devices = await self.get_device_information(message.bare_jid)
        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)
        if device is None:
""", """        by_id = { dev.device_id: dev for dev in await self.get_device_information(message.bare_jid) }
        device = by_id.get(message.device_id)
        if device is None:
""")
ref("r2", SM, """            if bundle_changed:
                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
""", """            if bundle_changed:
                await self.__refill_pre_keys(backend)
                await self.__publish_bundle(backend)
""")
ref("r2", SM, """    async def ensure_data_consistency(self) -> None:
""", """    async def __refill_pre_keys(self, backend: Backend) -> None:
        missing = 100 - await backend.get_num_visible_pre_keys()
        if missing >= 100 - self.__pre_key_refill_threshold:
            await backend.generate_pre_keys(missing)

    async def __publish_bundle(self, backend: Backend) -> None:
        await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

    async def ensure_data_consistency(self) -> None:
""")
ref("r2", SM, """                    num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)
""", """                    await self.__refill_pre_keys(backend)
""")
ref("r2", SM, """            for namespace in active_namespaces - loaded_namespaces:
                await self.purge_backend(namespace)
""", """            for namespace in sorted(active_namespaces):
                if namespace not in loaded_namespaces:
                    await self.purge_backend(namespace)
""")
ref("r2", SM, """        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)
""", """        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        if self.__own_device_id in device_list:
            await self._upload_device_list(namespace, {
                device_id: label
                for device_id, label in device_list.items()
                if device_id != self.__own_device_id
            })
""")
ref("r2", SM, """        device, _ = await self.get_own_device_information()
        active = dict(device.active)
        active.pop(namespace, None)
        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))
        device = device._replace(active=frozenset(active.items()))

        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
            dict(device.active)
        )

        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
            list(device.namespaces)
        )
""", """        device, _ = await self.get_own_device_information()
        prefix = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
        await self.__storage.store(f"{prefix}/active", {
            ns: flag for ns, flag in device.active if ns != namespace
        })
        await self.__storage.store(f"{prefix}/namespaces", sorted(device.namespaces - { namespace }))
""")
ref("r2", SM, """        for device_id in device_list:
            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
""", """        for device_id, entry in itertools.product(
            device_list,
            ("label", "active", "namespaces", "identity_key")
        ):
            await storage.delete(f"/devices/{bare_jid}/{device_id}/{entry}")
""")
ref("r2", SM, """            upload_bundle = False
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle

            if upload_bundle:
""", """            remote_bundle: Optional[Bundle] = None
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except XMPPInteractionFailed:
                pass

            if remote_bundle is None or remote_bundle != local_bundle:
""")
ref("r2", SM, """            for bare_jid in queued_jids:
                # For each""", """            for bare_jid in sorted(queued_jids):
                # For each""")
ref("r2", SM, """                    session = await backend.load_session(bare_jid, device_id)
                    if session is None:
                        logging.getLogger(SessionManager.LOG_TAG).warning(
                            f"Can't send queued empty message for device {device_id} of bare JID {bare_jid}"
                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
                    else:
                        # It is theoretically possible that the session has been deleted after an empty
                        # message was queued for it.
                        await self.__send_empty_message(backend, session)
""", """                    session = await backend.load_session(bare_jid, device_id)
                    # It is theoretically possible that the session has been deleted after an empty
                    # message was queued for it.
                    if session is not None:
                        await self.__send_empty_message(backend, session)
""")
ref("r2", SM, """        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()

        # Send empty messages that were queued while in history synchronization mode
        for backend in self.__backends:
            # Load""", """        for backend in list(self.__backends):
            # Delete pre keys that were hidden while in history synchronization mode
            await backend.delete_hidden_pre_keys()

            # Send empty messages that were queued while in history synchronization mode
            # Load""")
ref("r2", SM, """        all_own_devices = await self.get_device_information(self.__own_bare_jid)
        other_own_devices = frozenset(filter(
            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
        ))

        return next(iter(all_own_devices - other_own_devices)), other_own_devices
""", """        own_device: Optional[DeviceInformation] = None
        other_own_devices: Set[DeviceInformation] = set()
        for dev in await self.get_device_information(self.__own_bare_jid):
            if dev.device_id == self.__own_device_id:
                own_device = dev
            else:
                other_own_devices.add(dev)

        assert own_device is not None
        return own_device, frozenset(other_own_devices)
""")
ref("r2", SM, """        ik_hex_string = xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex()
        group_size = 8

        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string), group_size) ]
""", """        curve = xeddsa.ed25519_pub_to_curve25519_pub(identity_key)

        return [ curve[4 * i:4 * i + 4].hex() for i in range(8) ]
""")
ref("r2", SM, """            self.__own_device_id = next(filter(
                lambda device_id: device_id not in device_ids,
                (
                    secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
                    for _
                    in itertools.count()
                )
            ))
""", """            while True:
                candidate = cls.DEVICE_ID_MIN + secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN)
                if candidate not in device_ids:
                    break

            self.__own_device_id = candidate
""")

# -- r3: storage, identity key, trust policy -----------------------------------------------------------------------

ref("r3", ST, """        if self.__cache is not None and key in self.__cache:
            return self.__cache[key]

        value = await self._load(key)
        if self.__cache is not None:
            # Don't overwrite what was stored or deleted while the value was being loaded
            value = self.__cache.setdefault(key, value)
        return value
""", """        if self.__cache is None:
            return await self._load(key)

        if key not in self.__cache:
            loaded = await self._load(key)
            # Might have been written in the meantime
            if key not in self.__cache:
                self.__cache[key] = loaded

        return self.__cache[key]
""")
ref("r3", ST, """        def check_type(value: JSONType) -> List[PrimitiveTypeT]:
            if isinstance(value, list) and all(isinstance(element, primitive) for element in value):
                return cast(List[PrimitiveTypeT], value)
            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")

        return (await self.load(key)).fmap(check_type)
""", """        loaded = await self.load(key)
        if loaded.is_nothing:
            return Nothing()

        value = loaded.from_just()
        if not isinstance(value, list):
            raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")
        for element in value:
            if not isinstance(element, primitive):
                raise TypeError(f"The value stored for key {key} is not a list of {primitive}: {value}")

        return Just(cast(List[PrimitiveTypeT], value))
""")
ref("r3", ST, """            if isinstance(value, str):
                return base64.urlsafe_b64decode(value.encode("ASCII"))
            raise""", """            if isinstance(value, str):
                return base64.b64decode(value, altchars=b"-_")
            raise""")
ref("r3", ST, """        await self.store(key, base64.urlsafe_b64encode(value).decode("ASCII"))
""", """        encoded = base64.b64encode(value, b"-_")
        await self.store(key, encoded.decode())
""")
ref("r3", IK, """        is_seed: bool
        key: bytes
        try:
            # Try to load both is_seed and the key. If any one of the loads fails, generate a new seed.
            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
            key = (await storage.load_bytes("/ikp/key")).from_just()

            logging.getLogger(IdentityKeyPair.LOG_TAG).debug(
                f"Loaded identity key from storage. is_seed={is_seed}"
            )
        except NothingException:
""", """        stored_is_seed = await storage.load_primitive("/ikp/is_seed", bool)
        stored_key = await storage.load_bytes("/ikp/key")
        if stored_is_seed.is_just and stored_key.is_just:
            is_seed, key = stored_is_seed.from_just(), stored_key.from_just()
        else:
""")
ref("r3", IK, """from .storage import NothingException, Storage""", """from .storage import Storage""")
ref("r3", IK, """        return IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)
""", """        if not is_seed:
            return IdentityKeyPairPriv(key)

        return IdentityKeyPairSeed(key)
""")
ref("r3", BTBV, """            if all(BTBVTrustLevel(device.trust_level_name) in {
                BTBVTrustLevel.UNDECIDED,
                BTBVTrustLevel.BLINDLY_TRUSTED
            } for device in devices):
                blind_trust_bare_jids.add(bare_jid)
            else:
                manual_trust_bare_jids.add(bare_jid)
""", """            levels = { BTBVTrustLevel(device.trust_level_name) for device in devices }
            if levels & { BTBVTrustLevel.TRUSTED, BTBVTrustLevel.DISTRUSTED }:
                manual_trust_bare_jids.add(bare_jid)
            else:
                blind_trust_bare_jids.add(bare_jid)
""")

# -- r4: device lists, rotation, history, replacement -----------------------------------------------------------------

ref("r4", SM, """        for device_id in old_device_list:
            namespaces = set((await storage.load_list(
                f"/devices/{bare_jid}/{device_id}/namespaces",
                str
            )).from_just())

            active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()

            if device_id in device_list:
                # Update the status if required
                if namespace not in active or active[namespace] is False:
                    active[namespace] = True
                    await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
""", """        for device_id in sorted(old_device_list):
            prefix = f"/devices/{bare_jid}/{device_id}"
            namespaces = (await storage.load_list(f"{prefix}/namespaces", str)).from_just()
            active = (await storage.load_dict(f"{prefix}/active", bool)).from_just()

            if device_id in device_list:
                # Update the status if required
                if not active.get(namespace, False):
                    await storage.store(f"{prefix}/active", { **active, namespace: True })
""")
ref("r4", SM, """                if namespace not in namespaces:
                    namespaces.add(namespace)
                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
            else:
                # Update the status if required
                if namespace in namespaces:
                    if active[namespace] is True:
                        active[namespace] = False
                        await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
""", """                if namespace not in namespaces:
                    await storage.store(f"{prefix}/namespaces", namespaces + [ namespace ])
            elif namespace in namespaces and active[namespace]:
                # Update the status if required
                active[namespace] = False
                await storage.store(f"{prefix}/active", active)
""")
ref("r4", SM, """            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
""", """            await storage.store(f"/devices/{bare_jid}/list", sorted(old_device_list.union(new_device_list)))
""")
ref("r4", SM, """        for backend in self.__backends:
            if backend.namespace in device.namespaces:
                try:
                    # Prepare an empty message
                    content, plain_key_material = await backend.encrypt_empty()

                    bundle = await self._download_bundle(
                        backend.namespace,
                        device.bare_jid,
                        device.device_id
                    )
""", """        for backend in self.__backends:
            if backend.namespace in device.namespaces:
                try:
                    bundle = await self._download_bundle(
                        backend.namespace,
                        device.bare_jid,
                        device.device_id
                    )

                    # Prepare an empty message
                    content, plain_key_material = await backend.encrypt_empty()
""")
ref("r4", SM, """        sessions = {
            backend.namespace: await backend.load_session(device.bare_jid, device.device_id)
            for backend
            in self.__backends
            if backend.namespace in device.namespaces
        }

        sending_chain_length = {
            namespace: None if session is None else session.sending_chain_length
            for namespace, session
            in sessions.items()
        }
""", """        sending_chain_length: Dict[str, Optional[int]] = {}
        for backend in self.__backends:
            if backend.namespace not in device.namespaces:
                continue

            session = await backend.load_session(device.bare_jid, device.device_id)
            sending_chain_length[backend.namespace] = getattr(session, "sending_chain_length", None)
""")
ref("r4", SM, """                if next_rotation < 0:
""", """                if signed_pre_key_age > signed_pre_key_rotation_period:
""")
ref("r4", SM, """                    retry_delay = 60  # Start with one minute of retry delay
                    while backend in self.__backends:
""", """                    attempts = 0
                    while backend in self.__backends:
""")
ref("r4", SM, """                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
""", """                            # Start with one minute, double the delay with each attempt, up to one hour
                            await async_sleep(min(60 * 2 ** attempts, 60 * 60))
                            attempts += 1
""")
ref("r4", SM, """        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)

        # For each""", """        label_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label"
        await self.__storage.store(label_key, own_label)

        # For each""")
ref("r4", SM, """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""", """            await self._upload_device_list(backend.namespace, {
                **device_list,
                self.__own_device_id: own_label
            })
""")
ref("r4", SM, """                # Add this bare JID to the queue
                queued_jids = set((await storage.load_list(f"/queue/{session.namespace}", str)).maybe([]))

                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))

                # Add this device id to the queue
                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""", """                # Add this device id to the queue
                device_queue = f"/queue/{message.namespace}/{message.bare_jid}"
                queued_device_ids = (await storage.load_list(device_queue, int)).maybe([])
                if message.device_id not in queued_device_ids:
                    await storage.store(device_queue, queued_device_ids + [ message.device_id ])

                # Add this bare JID to the queue
                queued_jids = (await storage.load_list(f"/queue/{message.namespace}", str)).maybe([])
                if message.bare_jid not in queued_jids:
                    await storage.store(f"/queue/{message.namespace}", queued_jids + [ message.bare_jid ])
""")
ref("r4", SM, """            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):
""", """            key_exchange is not None
            or (
                session.receiving_chain_length is not None
                and session.receiving_chain_length >= SessionManager.STALENESS_MAGIC_NUMBER + 1
            )
        ):
""")

# -- r6: other idioms: gathering, dispatch, itertools, text handling, other ways to the same random numbers -------------

ref("r6", SM, """        tmp = frozenset([ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ])
""", """        tmp = await asyncio.gather(*map(self.__get_device_information, sorted(bare_jids)))
""")
ref("r6", SM, """            self.__own_device_id = next(filter(
                lambda device_id: device_id not in device_ids,
                (
                    secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
                    for _
                    in itertools.count()
                )
            ))
""", """            self.__own_device_id = secrets.choice(range(cls.DEVICE_ID_MIN, cls.DEVICE_ID_MAX))
            while self.__own_device_id in device_ids:
                self.__own_device_id = secrets.choice(range(cls.DEVICE_ID_MIN, cls.DEVICE_ID_MAX))
""")
ref("r6", SM, """        ik_hex_string = xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex()
        group_size = 8

        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string), group_size) ]
""", """        digits = iter(xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex())

        return [ "".join(group) for group in zip(*[ digits ] * 8) ]
""")
ref("r6", SM, """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )

    ######################
    # session management #
""", """        encoded = base64.urlsafe_b64encode(identity_key).decode("ASCII")
        await self.__storage.store("/".join([ "", "trust", bare_jid, encoded ]), trust_level_name)

    ######################
    # session management #
""")
ref("r6", SM, """            asyncio.ensure_future(self.__manage_signed_pre_key_rotation(
                signed_pre_key_rotation_period,
                async_framework
            ))
""", """            asyncio.get_running_loop().create_task(self.__manage_signed_pre_key_rotation(
                signed_pre_key_rotation_period,
                async_framework
            ))
""")
ref("r6", SM, """                    retry_delay = 60  # Start with one minute of retry delay
                    while backend in self.__backends:
                        try:
                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except BundleUploadFailed:
""", """                    for retry_delay in itertools.chain(
                        (60, 120, 240, 480, 960, 1920),
                        itertools.repeat(3600)
                    ):
                        if backend not in self.__backends:
                            break
                        try:
                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except BundleUploadFailed:
""")
ref("r6", SM, """                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
""", """                            await async_sleep(retry_delay)
""")
ref("r6", SM, """            queued_jids = (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([])
            if bare_jid in queued_jids:
                await storage.store(
                    f"/queue/{backend.namespace}",
                    [ queued_jid for queued_jid in queued_jids if queued_jid != bare_jid ]
                )
""", """            queued_jids = (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([])
            try:
                queued_jids.remove(bare_jid)
            except ValueError:
                pass
            else:
                await storage.store(f"/queue/{backend.namespace}", queued_jids)
""")
ref("r6", SM, """                for device_id in queued_device_ids:
""", """                for device_id in sorted(queued_device_ids, reverse=True):
""")
ref("r6", SM, """        device = next(filter(
            lambda dev: dev.device_id == device.device_id,
            await self.get_device_information(device.bare_jid)
        ))

        logging""", """        device, = [
            dev for dev in await self.get_device_information(device.bare_jid)
            if not dev.device_id != device.device_id
        ]

        logging""")
ref("r6", SM, """            if any(namespace not in active for namespace in namespaces):
""", """            if not namespaces.issubset(active):
""")
ref("r6", SM, """        if not 25 <= pre_key_refill_threshold <= 99:
""", """        if pre_key_refill_threshold not in range(25, 100):
""")
ref("r6", SM, """        if len(frozenset(backend.namespace for backend in backends)) != len(backends):
""", """        if any(a.namespace == b.namespace for a, b in itertools.combinations(backends, 2)):
""")
ref("r6", ST, """        self.__value = copy.deepcopy(value)
""", """        self.__value = self.__clone(value)
""")
ref("r6", ST, """    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)

    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)

    def fmap(self, function: Callable[[ValueTypeT], MappedValueTypeT]) -> "Just[MappedValueTypeT]":
        return Just(function(copy.deepcopy(self.__value)))
""", """    @classmethod
    def __clone(cls, value: Any) -> Any:
        if isinstance(value, dict):
            return { key: cls.__clone(item) for key, item in value.items() }
        if isinstance(value, (list, tuple)):
            return type(value)(cls.__clone(item) for item in value)
        if isinstance(value, (str, int, float, bytes, type(None))):
            return value
        return copy.deepcopy(value)

    def from_just(self) -> ValueTypeT:
        return self.__clone(self.__value)

    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.from_just()

    def fmap(self, function: Callable[[ValueTypeT], MappedValueTypeT]) -> "Just[MappedValueTypeT]":
        return Just(function(self.from_just()))
""")
ref("r6", ST, """            if isinstance(value, dict) and all(isinstance(v, primitive) for v in value.values()):
                return cast(Dict[str, PrimitiveTypeT], value)

            raise""", """            if isinstance(value, dict):
                mismatch = next((v for v in value.values() if not isinstance(v, primitive)), None) \\
                    if primitive is not type(None) else next((v for v in value.values() if v is not None), None)
                if mismatch is None and (primitive is type(None) or None not in value.values()):
                    return cast(Dict[str, PrimitiveTypeT], value)

            raise""")
ref("r6", ST, """        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""", """        cached = Just(value)
        await self._store(key, value)

        if self.__cache is not None:
            self.__cache.update({ key: cached })
""")
ref("r6", ST, """from typing import """, """from typing import Any, """)
ref("r6", IK, """            key = secrets.token_bytes(32)
""", """            key = os.urandom(32)
""")
ref("r6", IK, """import secrets
""", """import os
""")
ref("r6", IK, """        return IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)
""", """        return { True: IdentityKeyPairSeed, False: IdentityKeyPairPriv }[is_seed](key)
""")
ref("r6", BE, """        if max_num_per_message_skipped_keys == 0 and max_num_per_session_skipped_keys != 0:
            raise ValueError(
                "The number of allowed per-message skipped keys must be nonzero if the number of per-session"
                " skipped keys to keep is nonzero."
            )

        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
            raise ValueError(
                "The number of allowed per-message skipped keys must not be greater than the number of"
                " per-session skipped keys to keep."
            )

        self.__max_num_per_session_skipped_keys = max_num_per_session_skipped_keys
        self.__max_num_per_message_skipped_keys = max_num_per_session_skipped_keys if \\
            max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
""", """        per_session, per_message = max_num_per_session_skipped_keys, max_num_per_message_skipped_keys
        if per_message is None:
            per_message = per_session
        elif (per_session, per_message) != (0, 0) and not 0 < per_message <= per_session:
            raise ValueError("Invalid skipped message key limits.")

        self.__max_num_per_session_skipped_keys = per_session
        self.__max_num_per_message_skipped_keys = per_message
""")
ref("r6", BTBV, """        if trust_level is BTBVTrustLevel.TRUSTED or trust_level is BTBVTrustLevel.BLINDLY_TRUSTED:
            return omemo.TrustLevel.TRUSTED
        if trust_level is BTBVTrustLevel.UNDECIDED:
            return omemo.TrustLevel.UNDECIDED
        if trust_level is BTBVTrustLevel.DISTRUSTED:
            return omemo.TrustLevel.DISTRUSTED

        assert_never(trust_level)
""", """        return {
            BTBVTrustLevel.TRUSTED: omemo.TrustLevel.TRUSTED,
            BTBVTrustLevel.BLINDLY_TRUSTED: omemo.TrustLevel.TRUSTED,
            BTBVTrustLevel.UNDECIDED: omemo.TrustLevel.UNDECIDED,
            BTBVTrustLevel.DISTRUSTED: omemo.TrustLevel.DISTRUSTED
        }[trust_level]
""")
