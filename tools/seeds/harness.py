"""A small world around SessionManager without cryptography: storage, server and backends with plain Python values."""

import asyncio
import base64
import copy
import logging
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)

import omemo  # noqa: E402
from omemo.session import Initiation, Session  # noqa: E402
from omemo.message import PlainKeyMaterial  # noqa: E402
from omemo.storage import Just, Nothing, Storage, StorageException  # noqa: E402

OWN, BOB, CAROL = "own@example.org", "bob@example.org", "carol@example.org"
A, B, C = "urn:a", "urn:b", "urn:c"


class Died(BaseException):
    pass


class Disk(Storage):
    def __init__(self, data=None, cache=False):
        super().__init__(not cache)
        self.data = {} if data is None else data
        self.writes = 0
        self.die_at = None
        self.fail_at = None

    def _tick(self):
        self.writes += 1
        if self.die_at == self.writes:
            raise Died()
        if self.fail_at == self.writes:
            raise StorageException()

    async def _load(self, key):
        return Just(copy.deepcopy(self.data[key])) if key in self.data else Nothing()

    async def _store(self, key, value):
        self._tick()
        self.data[key] = copy.deepcopy(value)

    async def _delete(self, key):
        self._tick()
        self.data.pop(key, None)


class Bundle(omemo.Bundle):
    def __init__(self, ns, jid, dev, ik, content):
        self.t = (ns, jid, dev, ik, content)

    namespace = property(lambda s: s.t[0])
    bare_jid = property(lambda s: s.t[1])
    device_id = property(lambda s: s.t[2])
    identity_key = property(lambda s: s.t[3])

    def __eq__(self, o):
        return isinstance(o, Bundle) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class Content(omemo.Content):
    def __init__(self, plaintext):
        self.plaintext = plaintext

    empty = property(lambda s: s.plaintext is None)


class PKM(PlainKeyMaterial):
    pass


class EKM(omemo.EncryptedKeyMaterial):
    def __init__(self, jid, dev, pkm, session=None):
        self.jid, self.dev, self.pkm, self.session = jid, dev, pkm, session

    bare_jid = property(lambda s: s.jid)
    device_id = property(lambda s: s.dev)


class Kex(omemo.KeyExchange):
    def __init__(self, name, ik):
        self.name, self.ik = name, ik

    identity_key = property(lambda s: s.ik)

    def builds_same_session(self, other):
        return self.name == other.name

    def __eq__(self, o):
        return isinstance(o, Kex) and (self.name, self.ik) == (o.name, o.ik)

    def __hash__(self):
        return hash(self.name)


class Sess(Session):
    def __init__(self, ns, jid, dev, kex, initiation=Initiation.PASSIVE, confirmed=True, rcl=1, scl=0):
        self.ns, self.jid, self.dev, self.kex, self.init, self.conf = ns, jid, dev, kex, initiation, confirmed
        self.rcl, self.scl = rcl, scl

    namespace = property(lambda s: s.ns)
    bare_jid = property(lambda s: s.jid)
    device_id = property(lambda s: s.dev)
    initiation = property(lambda s: s.init)
    confirmed = property(lambda s: s.conf)
    key_exchange = property(lambda s: s.kex)
    receiving_chain_length = property(lambda s: s.rcl)
    sending_chain_length = property(lambda s: s.scl)


class Backend(omemo.Backend):
    def __init__(self, world, ns):
        super().__init__()
        self.w, self.ns = world, ns

    namespace = property(lambda s: s.ns)

    async def load_session(self, bare_jid, device_id):
        return copy.copy(self.w.sessions.get((self.ns, bare_jid, device_id)))

    async def store_session(self, session):
        self.w.log.append(("store_session", self.ns, session.jid, session.dev))
        self.w.sessions[(self.ns, session.jid, session.dev)] = copy.copy(session)

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        self.w.log.append(("build_active", self.ns, bare_jid, device_id, bundle.identity_key))
        if (self.ns, bare_jid, device_id) in self.w.kex_fails:
            raise omemo.KeyExchangeFailed()
        s = Sess(self.ns, bare_jid, device_id, Kex(f"own-{len(self.w.log)}", self.w.ik(OWN, self.w.own_id)),
                 Initiation.ACTIVE, False, None, 1)
        return s, EKM(bare_jid, device_id, plain_key_material, s)

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        self.w.log.append(("build_passive", self.ns, bare_jid, device_id, key_exchange.identity_key))
        return Sess(self.ns, bare_jid, device_id, key_exchange), encrypted_key_material.pkm

    async def encrypt_plaintext(self, plaintext):
        return Content(plaintext), PKM()

    async def encrypt_empty(self):
        return Content(None), PKM()

    async def encrypt_key_material(self, session, plain_key_material):
        self.w.log.append(("encrypt_key", self.ns, session.jid, session.dev))
        session.scl += 1
        return EKM(session.jid, session.dev, plain_key_material, session)

    async def decrypt_plaintext(self, content, plain_key_material):
        if self.w.content_fails:
            raise omemo.DecryptionFailed()
        return content.plaintext

    async def decrypt_key_material(self, session, encrypted_key_material):
        self.w.log.append(("decrypt_key", self.ns, session.jid, session.dev))
        session.rcl = (session.rcl or 0) + 1
        session.conf = True
        return encrypted_key_material.pkm

    async def signed_pre_key_age(self):
        return self.w.age(self.ns)

    async def rotate_signed_pre_key(self):
        self.w.log.append(("rotate", self.ns))
        self.w.rotated(self.ns)

    async def hide_pre_key(self, session):
        self.w.log.append(("hide", self.ns))
        self.w.prekeys[self.ns] -= 1
        return True

    async def delete_pre_key(self, session):
        self.w.log.append(("delete", self.ns))
        self.w.prekeys[self.ns] -= 1
        return True

    async def delete_hidden_pre_keys(self):
        self.w.log.append(("delete_hidden", self.ns))

    async def get_num_visible_pre_keys(self):
        return self.w.prekeys[self.ns]

    async def generate_pre_keys(self, num_pre_keys):
        self.w.log.append(("generate", self.ns, num_pre_keys))
        self.w.prekeys[self.ns] += num_pre_keys

    async def get_bundle(self, bare_jid, device_id):
        return Bundle(self.ns, bare_jid, device_id, self.w.ik(bare_jid, device_id), self.w.prekeys[self.ns])

    async def purge(self):
        self.w.log.append(("purge", self.ns))

    async def purge_bare_jid(self, bare_jid):
        self.w.log.append(("purge_bare_jid", self.ns, bare_jid))
        for k in [k for k in self.w.sessions if k[0] == self.ns and k[1] == bare_jid]:
            del self.w.sessions[k]


class World:
    def __init__(self, *namespaces, cache=False):
        self.namespaces = list(namespaces)
        self.disk = Disk(cache=cache)
        self.log = []
        self.lists = {}
        self.bundles = {}
        self.sessions = {}
        self.prekeys = {ns: 0 for ns in (A, B, C)}
        self.kex_fails = set()
        self.no_bundle = set()
        self.failing = set()
        self.content_fails = False
        self.decisions = lambda device: "trusted"
        self.asked = []
        self.ages = {}
        self.sent = []
        self.keys = {}
        self.own_id = None
        self.levels = {"trusted": "TRUSTED", "distrusted": "DISTRUSTED", "undecided": "UNDECIDED"}

    def ik(self, jid, dev):
        if jid == OWN and dev == self.own_id and "/ikp/key" in self.disk.data and self.sm is not None:
            return self.own_ik
        return self.keys.get((jid, dev), (f"{jid}/{dev}" + "." * 40).encode()[:32])

    own_ik = b"own identity key................"[:32]
    sm = None

    def age(self, ns):
        return self.ages.get(ns, 0)

    def rotated(self, ns):
        self.ages[ns] = 0

    def manager(world):
        class Manager(omemo.SessionManager):
            @staticmethod
            async def _upload_bundle(bundle):
                if "upload_bundle" in world.failing:
                    raise omemo.BundleUploadFailed()
                world.log.append(("upload_bundle", bundle.namespace))
                world.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = bundle

            @staticmethod
            async def _download_bundle(namespace, bare_jid, device_id):
                key = (namespace, bare_jid, device_id)
                if key in world.no_bundle:
                    raise omemo.BundleNotFound()
                if bare_jid == OWN and device_id == world.own_id:
                    if key not in world.bundles:
                        raise omemo.BundleNotFound()
                    return world.bundles[key]
                return world.bundles.get(key) or Bundle(*key, world.ik(bare_jid, device_id), 100)

            @staticmethod
            async def _delete_bundle(namespace, device_id):
                if "delete_bundle" in world.failing:
                    raise omemo.BundleDeletionFailed()
                world.log.append(("delete_bundle", namespace))
                world.bundles.pop((namespace, OWN, device_id), None)

            @staticmethod
            async def _upload_device_list(namespace, device_list):
                if "upload_device_list" in world.failing:
                    raise omemo.DeviceListUploadFailed()
                world.log.append(("upload_device_list", namespace, dict(device_list)))
                world.lists[(namespace, OWN)] = dict(device_list)

            @staticmethod
            async def _download_device_list(namespace, bare_jid):
                return dict(world.lists.get((namespace, bare_jid), {}))

            async def _evaluate_custom_trust_level(self, device):
                return omemo.TrustLevel[world.levels[device.trust_level_name]]

            async def _make_trust_decision(self, undecided, identifier):
                world.asked.append((undecided, identifier))
                for d in undecided:
                    level = world.decisions(d)
                    if level is not None:
                        await self.set_trust(d.bare_jid, d.identity_key, level)

            @staticmethod
            async def _send_message(message, bare_jid):
                if "send" in world.failing or f"send {message.namespace}" in world.failing:
                    raise omemo.MessageSendingFailed()
                world.log.append(("send", message.namespace, bare_jid))
                world.sent.append((message, bare_jid))
        return Manager

    async def create(self, *namespaces, **kw):
        args = dict(backends=[Backend(self, ns) for ns in (namespaces or self.namespaces)], storage=self.disk,
                    own_bare_jid=OWN, initial_own_label=None, undecided_trust_level_name="undecided")
        args.update(kw)
        self.sm = None
        sm = await self.manager().create(**args)
        own, _ = await sm.get_own_device_information()
        self.sm = sm
        self.own_id, self.own_ik = own.device_id, own.identity_key
        return sm

    async def start(self, **kw):
        """A device that is set up, in live mode."""
        sm = await self.create(**kw)
        await sm.ensure_data_consistency()
        await sm.after_history_sync()
        self.log.clear()
        return sm

    async def add(self, jid, dev, *namespaces, trust="trusted", label=None):
        for ns in namespaces or self.namespaces:
            lst = dict(self.lists.get((ns, jid), {}))
            lst[dev] = label
            self.lists[(ns, jid)] = lst
            await self.sm.refresh_device_list(ns, jid)
        if trust is not None:
            await self.sm.set_trust(jid, self.ik(jid, dev), trust)
        return await self.info(jid, dev)

    async def info(self, jid, dev):
        for i in await self.sm.get_device_information(jid):
            if i.device_id == dev:
                return i
        return None

    async def encrypt(self, *jids, order=None, identifier=None):
        return await self.sm.encrypt(frozenset(jids or [BOB]), {ns: b"text " + ns.encode() for ns in self.namespaces},
                                     order, identifier)

    def message(self, ns, jid, dev, kex=None, empty=False, to=None):
        ekm = EKM(OWN, self.own_id if to is None else to, PKM())
        return omemo.Message(ns, jid, dev, Content(None if empty else b"hello"), frozenset({(ekm, kex)}))


def targets(messages):
    return sorted((m.namespace, e.bare_jid, e.device_id) for m in messages for e, _ in m.keys)


def run(coro_fn):
    async def main():
        await coro_fn()
        me = asyncio.current_task()
        for t in asyncio.all_tasks():
            if t is not me:
                t.cancel()
    asyncio.run(asyncio.wait_for(main(), 60))
    print("ok")
