"""
The environment of the code under test: storage, XMPP server, trust callbacks and backends, as
nondeterministic stubs that follow the documented contract of the abstract classes of omemo.

Every stub is deterministic given the symbolic variables of the context; whatever is not fixed by a scenario is
decided by a symbolic variable at the moment the code asks for it (lazy initialisation).
"""

import asyncio
import copy
from typing import Any, Callable, Dict, FrozenSet, List, NamedTuple, Optional, Tuple

import z3

from . import env  # noqa: F401
from .engine import Ctx, SymBool, SymInt, SymStr, SymText, And, Or, Not, eq, num

import omemo
from omemo.backend import BackendException
from omemo.message import PlainKeyMaterial
from omemo.session import Initiation, Session
from omemo.storage import Just, Nothing, Storage, StorageException

NS_A = "urn:test:a"
NS_B = "urn:test:a:b"    # extends another one
NS_C = "urn:test"
# accounts that only differ in case are different
OWN = "own@example.org"
BOB = "Own@example.org"
CAROL = "OWN@example.org"
UNDECIDED_NAME = "undecided-by-default"

OWN_SEED = bytes(range(1, 33))
OWN_IK = env.xeddsa.bindings.seed_to_ed25519_pub(OWN_SEED)


class Crash(BaseException):
    """The process dies here. Not an ``Exception``: nothing in the code under test can handle it."""


class Lazy:
    """A stored value that is decided when it is first loaded."""

    def __init__(self, make: Callable[[], Any]) -> None:
        self.make = make


class Absent:
    pass


ABSENT = Absent()

JSON_SCALARS = (str, int, bool, float, type(None), SymInt, SymBool, SymStr, SymText)


def assert_json(value: Any) -> None:
    """What json.dumps would refuse, a storage may refuse as well ("values any JSON-serializable structure")."""
    t = type(value)
    if t in JSON_SCALARS:
        return
    if t in (list, tuple):
        for v in value:
            assert_json(v)
        return
    if t is dict:
        for k, v in value.items():
            if type(k) not in (str, SymStr, SymText, int, SymInt):
                raise TypeError(f"keys must be str, not {t.__name__}")
            assert_json(v)
        return
    raise TypeError(f"Object of type {t.__name__} is not JSON serializable")


def real_isinstance(v, t) -> bool:
    return isinstance(v, t)


class World:
    def __init__(self, ctx: Ctx, namespaces: List[str], own: Any = OWN) -> None:
        self.ctx = ctx
        self.own = own
        self.namespaces = namespaces
        self.log: List[Tuple] = []
        self.seq = 0
        self.disk: Dict[str, Any] = {}
        self.device_lists: Dict[Tuple[str, Any], Dict[Any, Any]] = {}
        self.bundles: Dict[Tuple[str, Any, Any], Any] = {}
        self.outbox: List[Tuple[Any, Any]] = []
        self.fault_kinds: FrozenSet[str] = frozenset()
        self.fault_budget = 0
        self.fault_counts: Dict[str, int] = {}
        self.faults: List[str] = []
        self.meanwhile: Optional[Tuple[Any, Callable]] = None
        self.meanwhile_count = 0
        self.schedule: Optional["Schedule"] = None
        self.crash_term: Any = None
        self.crash_count = 0
        self.crashed = False
        self.sessions: Dict[str, Dict[Tuple[Any, Any], Any]] = {}
        self.prekeys: Dict[str, "PreKeys"] = {}
        # hooks
        self.session_init: Callable[[str, Any, Any], Optional["Sess"]] = lambda ns, jid, dev: None
        self.bundle_init: Callable[[str, Any, Any], Any] = lambda ns, jid, dev: "notfound"
        self.device_list_init: Callable[[str, Any], Dict[Any, Any]] = lambda ns, jid: {}
        self.evaluate: Callable[[Any], omemo.TrustLevel] = self.default_evaluate
        self.decide_trust: Optional[Callable[..., Any]] = None
        self.kex_fails: Callable[[str, Any, Any, str], bool] = lambda ns, jid, dev, how: False
        self.decrypt_fails: Callable[[str, Any, Any, str], Optional[str]] = lambda ns, jid, dev, what: None
        self.pre_key_status: Optional[Callable[[str, Any], str]] = None
        self.next_chain_length: Optional[Callable[[Any], Any]] = None
        self.own_ik: Callable[[], Any] = lambda: OWN_IK
        self.evaluations: List[Tuple[Any, omemo.TrustLevel]] = []
        self.trust_queries: List[Tuple[FrozenSet[Any], Any]] = []
        self.level_by_name: Dict[str, omemo.TrustLevel] = {}
        self.level_term_by_name: Dict[str, Any] = {}

    # -- bookkeeping ------------------------------------------------------------------------------------

    def uid(self) -> int:
        self.seq += 1
        return self.seq

    def event(self, *what) -> None:
        self.log.append(what)

    def events(self, *kinds: str) -> List[Tuple]:
        return [e for e in self.log if e[0] in kinds]

    def tick(self, what: str) -> None:
        """A point right before a durable or remote effect: the process may die here."""
        if self.crash_term is not None and not self.crashed:
            k = self.crash_count
            self.crash_count += 1
            if self.ctx.decide(self.crash_term == k):
                self.crashed = True
                self.event("crash", what)
                raise Crash(what)

    async def point(self, what: str, effect: bool = True) -> None:
        """A point where something else may happen meanwhile."""
        if effect:
            self.tick(what)
        await self.pause()
        if self.meanwhile is not None:
            term, f = self.meanwhile
            k = self.meanwhile_count
            self.meanwhile_count += 1
            if self.ctx.decide(term == k):
                self.meanwhile = None
                self.event("meanwhile", what)
                await f()

    async def pause(self) -> None:
        """A point where another operation may be continued (if several run at once)."""
        if self.schedule is not None:
            await self.schedule.pause()

    def fault(self, kind: str) -> bool:
        if kind not in self.fault_kinds or self.fault_budget <= 0:
            return False
        n = self.fault_counts.get(kind, 0)
        self.fault_counts[kind] = n + 1
        if self.ctx.decide(self.ctx.flag(f"fault.{kind}.{n}")):
            self.fault_budget -= 1
            self.faults.append(kind)
            return True
        return False

    # -- trust --------------------------------------------------------------------------------------------

    def level_term(self, name: str):
        """The core trust level an (arbitrary but fixed) trust system assigns to a custom level name: 0 trusted,
        1 distrusted, 2 undecided."""
        if name not in self.level_term_by_name:
            t = self.ctx.int_term(f"level[{name}]")
            if not self.ctx.concrete:
                self.ctx.assume(z3.And(t >= 0, t <= 2))
                if name == UNDECIDED_NAME:
                    self.ctx.assume(t == 2)
            elif name == UNDECIDED_NAME:
                t = z3.IntVal(2)
            self.level_term_by_name[name] = t
        return self.level_term_by_name[name]

    def default_evaluate(self, device: Any) -> omemo.TrustLevel:
        t = self.level_term(device.trust_level_name)
        if self.ctx.decide(t == 0):
            return omemo.TrustLevel.TRUSTED
        if self.ctx.decide(t == 1):
            return omemo.TrustLevel.DISTRUSTED
        return omemo.TrustLevel.UNDECIDED

    # -- factories ------------------------------------------------------------------------------------------

    def stored(self, key: str, disk: Any = None) -> Any:
        """What is stored, decided now if it hasn't been loaded so far."""
        value = (self.disk if disk is None else disk).get(key, ABSENT)
        return value.make() if type(value) is Lazy else value

    def storage(self, cache: bool = True) -> "DiskStorage":
        return DiskStorage(self, cache)

    def backend(self, ns: str) -> "StubBackend":
        return StubBackend(self, ns)

    def manager_class(self):
        return make_manager_class(self)

    async def create(self, namespaces: Optional[List[str]] = None, storage: Any = None, **kw) -> Any:
        """A manager over this world, made by the real ``create``."""
        self.backends = [self.backend(ns) for ns in (self.namespaces if namespaces is None else namespaces)]
        args = dict(
            backends=self.backends,
            storage=self.storage() if storage is None else storage,
            own_bare_jid=self.own,
            initial_own_label=None,
            undecided_trust_level_name=UNDECIDED_NAME
        )
        args.update(kw)
        return await self.manager_class().create(**args)

    def put(self, key: str, value: Any) -> None:
        self.disk[key] = value

    def seed_own(self, own_id: Any, others: List[Any] = [], label: Any = None, namespaces: Any = None) -> None:
        """Stored data of a device that has been set up before."""
        nss = list(self.namespaces if namespaces is None else namespaces)
        self.own_id = own_id
        self.put("/own_device_id", own_id)
        self.put("/ikp/is_seed", True)
        self.put("/ikp/key", env.urlsafe_b64encode(OWN_SEED).decode("ASCII"))
        self.put(f"/devices/{self.own}/{own_id}/namespaces", nss)
        self.put(f"/devices/{self.own}/{own_id}/active", {ns: True for ns in nss})
        self.put(f"/devices/{self.own}/{own_id}/label", label)
        self.put(f"/devices/{self.own}/{own_id}/identity_key", env.urlsafe_b64encode(OWN_IK).decode("ASCII"))
        self.put(f"/devices/{self.own}/list", [own_id] + list(others))
        self.put(f"/trust/{self.own}/{env.urlsafe_b64encode(OWN_IK).decode('ASCII')}", UNDECIDED_NAME)


class Schedule:
    """
    Two operations that run at once: wherever one of them waits for the storage, a backend or the server, the other
    one may be continued. Switches happen where the solver puts them.
    """

    def __init__(self, ctx: Ctx, switches: int) -> None:
        self.ctx = ctx
        self.terms = [ctx.int_term(f"switch{k}") for k in range(switches)]
        self.turn = 0
        self.count = 0
        self.progress = 0
        self.done = [False, False]
        self.tasks: List[Any] = [None, None]
        self.switched = 0

    def switch(self) -> None:
        if not self.done[1 - self.turn]:
            self.turn = 1 - self.turn
            self.count = 0

    async def pause(self) -> None:
        task = asyncio.current_task()
        if task not in self.tasks:
            return
        me = self.tasks.index(task)
        self.progress += 1
        if self.turn == me and self.terms and not self.done[1 - me]:
            if self.ctx.decide(self.terms[0] == self.count):
                self.terms.pop(0)
                self.switched += 1
                self.switch()
            else:
                self.count += 1
        while self.turn != me:
            await env.real_sleep(0)

    async def run(self, operations: List[Callable]) -> List[Any]:
        async def operate(k: int) -> Any:
            while self.turn != k:
                await env.real_sleep(0)
            try:
                return await operations[k]()
            finally:
                self.done[k] = True
                self.progress += 1
                self.turn = 1 - k
        self.tasks = [asyncio.ensure_future(operate(k)) for k in range(2)]
        idle, seen = 0, -1
        while not all(t.done() for t in self.tasks):
            await env.real_sleep(0)
            for t in self.tasks:
                if t.done() and t.exception() is not None:
                    raise t.exception()
            idle, seen = (idle + 1 if seen == self.progress else 0), self.progress
            if idle > 20:
                # it waits for something the other one holds
                idle = 0
                self.switch()
        return [t.result() for t in self.tasks]


class Sess(NamedTuple):
    """What a backend persists about one session."""

    lineage: str                  # identity of the key agreement the session stems from
    initiation: Initiation
    confirmed: Any
    key_exchange: Any
    receiving_chain_length: Any
    sending_chain_length: Any
    received: int                 # messages decrypted since the start of the scenario
    sent: int                     # messages encrypted since the start of the scenario


class StubSession(Session):
    def __init__(self, world: World, ns: str, jid: Any, dev: Any, s: Sess) -> None:
        self.w = world
        self.uid = world.uid()
        self.ns = ns
        self.jid = jid
        self.dev = dev
        self.s = s

    namespace = property(lambda self: self.ns)
    bare_jid = property(lambda self: self.jid)
    device_id = property(lambda self: self.dev)
    initiation = property(lambda self: self.s.initiation)

    @property
    def confirmed(self):
        if self.s.initiation is Initiation.PASSIVE:
            # not specified
            return self.w.ctx.decide(self.w.ctx.flag("passive_confirmed"))
        return self.s.confirmed

    key_exchange = property(lambda self: self.s.key_exchange)
    receiving_chain_length = property(lambda self: self.s.receiving_chain_length)
    sending_chain_length = property(lambda self: self.s.sending_chain_length)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return f"<session {self.uid}>"


class StubBundle(omemo.Bundle):
    def __init__(self, ns: str, jid: Any, dev: Any, ik: Any, content: Any) -> None:
        self.ns, self.jid, self.dev, self.ik, self.content = ns, jid, dev, ik, content

    namespace = property(lambda self: self.ns)
    bare_jid = property(lambda self: self.jid)
    device_id = property(lambda self: self.dev)
    identity_key = property(lambda self: self.ik)

    def same(self, other):
        return And(eq(self.ns, other.ns), eq(self.jid, other.jid), eq(self.dev, other.dev),
                   eq(self.ik, other.ik), eq(self.content, other.content))

    def __eq__(self, other):
        from .engine import cur
        return isinstance(other, StubBundle) and cur().decide(self.same(other))

    def __hash__(self):
        return hash(self.ns)

    def __repr__(self):
        return f"<bundle {self.ns}>"


class StubContent(omemo.Content):
    def __init__(self, uid: int, empty: bool, plaintext: Any = None) -> None:
        self.uid, self._empty, self.plaintext = uid, empty, plaintext

    empty = property(lambda self: self._empty)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return f"<content {self.uid}>"


class StubPKM(PlainKeyMaterial):
    def __init__(self, uid: int) -> None:
        self.uid = uid

    def __repr__(self):
        return f"<pkm {self.uid}>"


class StubEKM(omemo.EncryptedKeyMaterial):
    def __init__(self, uid: int, jid: Any, dev: Any, lineage: Any = None, pkm: Any = None) -> None:
        self.uid, self.jid, self.dev, self.lineage, self.pkm = uid, jid, dev, lineage, pkm

    bare_jid = property(lambda self: self.jid)
    device_id = property(lambda self: self.dev)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return f"<ekm {self.uid}>"


class StubKex(omemo.KeyExchange):
    def __init__(self, name: str, ik: Any) -> None:
        self.name, self.ik = name, ik

    identity_key = property(lambda self: self.ik)

    def builds_same_session(self, other: Any) -> bool:
        return self.name == other.name

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<kex {self.name}>"


class PreKeys:
    """Pre key state of one backend: numbers of visible/hidden pre keys and a generation that changes whenever
    the published part changes."""

    def __init__(self, visible: Any = 100, hidden: Any = 0) -> None:
        self.visible = visible
        self.hidden = hidden
        self.generation = 0
        self.spk_generation = 0
        self.deleted: List[str] = []
        self.hidden_lineages: List[str] = []
        self.age: Any = 0


class DiskStorage(Storage):
    def __init__(self, world: World, cache: bool) -> None:
        super().__init__(disable_cache=not cache)
        self.world = world

    async def _load(self, key: str):
        w = self.world
        if type(key) is not str:
            key = str(key)
        await w.point(f"load {key}", False)
        if w.fault("storage_load"):
            raise StorageException("load")
        value = w.disk.get(key, ABSENT)
        if type(value) is Lazy:
            value = value.make()
            w.disk[key] = value
        if value is ABSENT:
            return Nothing()
        return Just(copy.deepcopy(value))

    async def _store(self, key: str, value: Any) -> None:
        w = self.world
        if type(key) is not str:
            key = str(key)
        assert_json(value)
        await w.point(f"store {key}")
        if w.fault("storage_store"):
            raise StorageException("store")
        w.disk[key] = copy.deepcopy(value)
        w.event("store", key)

    async def _delete(self, key: str) -> None:
        w = self.world
        if type(key) is not str:
            key = str(key)
        await w.point(f"delete {key}")
        if w.fault("storage_delete"):
            raise StorageException("delete")
        w.disk.pop(key, None)
        w.event("delete", key)

    def __repr__(self):
        return "<storage>"


class StubBackend(omemo.Backend):
    def __init__(self, world: World, ns: str) -> None:
        super().__init__()
        self.w = world
        self.ns = ns
        world.sessions.setdefault(ns, {})
        if ns not in world.prekeys:
            world.prekeys[ns] = PreKeys()
        self.index = len(world.sessions)

    namespace = property(lambda self: self.ns)

    def __hash__(self):
        return hash(self.ns)

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return f"<backend {self.ns}>"

    @property
    def pk(self) -> PreKeys:
        return self.w.prekeys[self.ns]

    # -- sessions ---------------------------------------------------------------------------------------

    def persisted(self, jid: Any, dev: Any) -> Optional[Sess]:
        table = self.w.sessions[self.ns]
        key = (jid, dev)
        if key not in table:
            table[key] = self.w.session_init(self.ns, jid, dev)
        return table[key]

    async def load_session(self, bare_jid, device_id):
        await self.w.point("load_session", False)
        self.w.event("load_session", self.ns, bare_jid, device_id)
        s = self.persisted(bare_jid, device_id)
        return None if s is None else StubSession(self.w, self.ns, bare_jid, device_id, s)

    async def store_session(self, session):
        assert isinstance(session, StubSession)
        await self.w.point("store_session")
        if self.w.fault("store_session"):
            raise StorageException("store_session")
        self.w.sessions[self.ns][(session.jid, session.dev)] = session.s
        self.w.event("store_session", self.ns, session.jid, session.dev, session.s)

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        assert isinstance(bundle, StubBundle) and isinstance(plain_key_material, StubPKM)
        await self.w.pause()
        w = self.w
        w.event("build_active", self.ns, bare_jid, device_id, bundle, plain_key_material)
        if w.kex_fails(self.ns, bare_jid, device_id, "active"):
            raise omemo.KeyExchangeFailed("active")
        n = w.uid()
        kex = StubKex(f"active:{n}", OWN_IK)
        session = StubSession(w, self.ns, bare_jid, device_id, Sess(
            f"active:{n}", Initiation.ACTIVE, False, kex, None, 1, 0, 1
        ))
        w.event("encrypt_key", self.ns, bare_jid, device_id, session.s.lineage, plain_key_material)
        return session, StubEKM(w.uid(), bare_jid, device_id, session.s.lineage, plain_key_material)

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        assert isinstance(key_exchange, StubKex) and isinstance(encrypted_key_material, StubEKM)
        await self.w.pause()
        w = self.w
        w.event("build_passive", self.ns, bare_jid, device_id, key_exchange, encrypted_key_material)
        if w.kex_fails(self.ns, bare_jid, device_id, "passive"):
            raise omemo.KeyExchangeFailed("passive")
        why = w.decrypt_fails(self.ns, bare_jid, device_id, "passive")
        if why is not None:
            raise omemo.DecryptionFailed("passive")
        session = StubSession(w, self.ns, bare_jid, device_id, Sess(
            f"passive:{key_exchange.name}", Initiation.PASSIVE, True, key_exchange, 1, 0, 1, 0
        ))
        if w.next_chain_length is not None:
            session.s = session.s._replace(receiving_chain_length=w.next_chain_length(session))
        pkm = StubPKM(w.uid())
        w.event("decrypt_key", self.ns, bare_jid, device_id, session.s.lineage, encrypted_key_material, pkm)
        return session, pkm

    async def encrypt_plaintext(self, plaintext):
        await self.w.pause()
        w = self.w
        pkm = StubPKM(w.uid())
        w.event("encrypt_plaintext", self.ns, plaintext, pkm)
        content = StubContent(w.uid(), False, plaintext)
        w.log[-1] = ("encrypt_plaintext", self.ns, plaintext, pkm, content)
        return content, pkm

    async def encrypt_empty(self):
        await self.w.pause()
        w = self.w
        pkm = StubPKM(w.uid())
        w.event("encrypt_empty", self.ns, pkm)
        return StubContent(w.uid(), True), pkm

    async def encrypt_key_material(self, session, plain_key_material):
        assert isinstance(session, StubSession) and isinstance(plain_key_material, StubPKM)
        await self.w.pause()
        w = self.w
        s = session.s
        session.s = s._replace(sending_chain_length=s.sending_chain_length + 1, sent=s.sent + 1)
        w.event("encrypt_key", self.ns, session.jid, session.dev, s.lineage, plain_key_material)
        return StubEKM(w.uid(), session.jid, session.dev, s.lineage, plain_key_material)

    async def decrypt_plaintext(self, content, plain_key_material):
        assert isinstance(content, StubContent) and isinstance(plain_key_material, StubPKM)
        await self.w.pause()
        w = self.w
        if content.empty:
            raise AssertionError("decrypt_plaintext called for an empty message")
        w.event("decrypt_plaintext", self.ns, content, plain_key_material)
        if w.decrypt_fails(self.ns, None, None, "content") is not None:
            raise omemo.DecryptionFailed("content")
        return content.plaintext

    async def decrypt_key_material(self, session, encrypted_key_material):
        assert isinstance(session, StubSession) and isinstance(encrypted_key_material, StubEKM)
        await self.w.pause()
        w = self.w
        why = w.decrypt_fails(self.ns, session.jid, session.dev, "key")
        w.event("try_decrypt_key", self.ns, session.jid, session.dev, session.s.lineage, encrypted_key_material)
        # a failed attempt may leave the in-memory object modified; only store_session persists
        new_len = w.next_chain_length(session) if w.next_chain_length is not None else (
            (session.s.receiving_chain_length or 0) + 1
        )
        session.s = session.s._replace(
            receiving_chain_length=new_len, received=session.s.received + 1, confirmed=True
        )
        if why == "skipped":
            raise omemo.TooManySkippedMessageKeys("key")
        if why is not None:
            raise omemo.DecryptionFailed("key")
        pkm = StubPKM(w.uid())
        w.event("decrypt_key", self.ns, session.jid, session.dev, session.s.lineage, encrypted_key_material, pkm)
        return pkm

    # -- keys -------------------------------------------------------------------------------------------

    async def signed_pre_key_age(self):
        await self.w.pause()
        return self.pk.age

    async def rotate_signed_pre_key(self):
        await self.w.point("rotate")
        self.pk.spk_generation += 1
        self.pk.age = 0
        self.w.event("rotate", self.ns)

    def _pre_key_status(self, session) -> str:
        """Where the pre key of this passively built session currently is."""
        lineage = session.s.lineage
        if lineage in self.pk.deleted:
            return "gone"
        if lineage in self.pk.hidden_lineages:
            return "hidden"
        if self.w.pre_key_status is not None:
            return self.w.pre_key_status(self.ns, session)
        return "visible" if lineage.startswith("passive:") else "gone"

    async def hide_pre_key(self, session):
        w = self.w
        status = self._pre_key_status(session)
        w.event("hide_pre_key", self.ns, session.jid, session.dev, session.s.lineage, status)
        if status != "visible":
            return False
        await w.point("hide_pre_key")
        self.pk.visible = self.pk.visible - 1
        self.pk.hidden = self.pk.hidden + 1
        self.pk.hidden_lineages.append(session.s.lineage)
        self.pk.generation += 1
        return True

    async def delete_pre_key(self, session):
        w = self.w
        status = self._pre_key_status(session)
        w.event("delete_pre_key", self.ns, session.jid, session.dev, session.s.lineage, status)
        if status == "gone":
            return False
        await w.point("delete_pre_key")
        if status == "visible":
            self.pk.visible = self.pk.visible - 1
            self.pk.generation += 1
        else:
            self.pk.hidden = self.pk.hidden - 1
            self.pk.hidden_lineages.remove(session.s.lineage)
        self.pk.deleted.append(session.s.lineage)
        return True

    async def delete_hidden_pre_keys(self):
        await self.w.point("delete_hidden_pre_keys")
        self.w.event("delete_hidden_pre_keys", self.ns)
        self.pk.deleted.extend(self.pk.hidden_lineages)
        self.pk.hidden_lineages = []
        self.pk.hidden = 0

    async def get_num_visible_pre_keys(self):
        await self.w.pause()
        return self.pk.visible

    async def generate_pre_keys(self, num_pre_keys):
        await self.w.point("generate_pre_keys")
        self.w.event("generate_pre_keys", self.ns, num_pre_keys)
        self.pk.visible = self.pk.visible + num_pre_keys
        self.pk.generation += 1

    def local_content(self):
        return (self.pk.spk_generation, self.pk.generation, self.pk.visible)

    def local_bundle(self, jid, dev):
        return StubBundle(self.ns, jid, dev, self.w.own_ik(), self.local_content())

    async def get_bundle(self, bare_jid, device_id):
        await self.w.pause()
        return self.local_bundle(bare_jid, device_id)

    async def purge(self):
        await self.w.point("purge")
        self.w.event("purge", self.ns)
        self.w.sessions[self.ns] = {}
        self.w.session_init = lambda ns, jid, dev: None
        self.w.prekeys[self.ns] = PreKeys(0)

    async def purge_bare_jid(self, bare_jid):
        await self.w.point("purge_bare_jid")
        self.w.event("purge_bare_jid", self.ns, bare_jid)
        table = self.w.sessions[self.ns]
        for key in [k for k in table if k[0] == bare_jid]:
            table[key] = None


def make_manager_class(w: World):
    class Manager(omemo.SessionManager):
        @staticmethod
        async def _upload_bundle(bundle):
            await w.point("upload_bundle")
            if w.fault("upload_bundle"):
                w.event("upload_bundle_failed", bundle.namespace)
                raise omemo.BundleUploadFailed("upload")
            w.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = bundle
            w.event("upload_bundle", bundle.namespace, bundle)

        @staticmethod
        async def _download_bundle(namespace, bare_jid, device_id):
            await w.pause()
            key = (namespace, bare_jid, device_id)
            if key not in w.bundles:
                w.bundles[key] = w.bundle_init(namespace, bare_jid, device_id)
            b = w.bundles[key]
            if callable(b):
                b = b()
            if w.fault("download_bundle"):
                b = "fail"
            w.event("download_bundle", namespace, bare_jid, device_id, b if type(b) is str else "ok")
            if b == "fail":
                raise omemo.BundleDownloadFailed("download")
            if b == "notfound":
                raise omemo.BundleNotFound("download")
            return b

        @staticmethod
        async def _delete_bundle(namespace, device_id):
            await w.point("delete_bundle")
            if w.fault("delete_bundle"):
                raise omemo.BundleDeletionFailed("delete")
            w.bundles[(namespace, w.own, device_id)] = "notfound"
            w.event("delete_bundle", namespace, device_id)

        @staticmethod
        async def _upload_device_list(namespace, device_list):
            await w.point("upload_device_list")
            if w.fault("upload_device_list"):
                raise omemo.DeviceListUploadFailed("upload")
            w.device_lists[(namespace, w.own)] = dict(device_list)
            w.event("upload_device_list", namespace, dict(device_list))

        @staticmethod
        async def _download_device_list(namespace, bare_jid):
            await w.pause()
            if w.fault("download_device_list"):
                raise omemo.DeviceListDownloadFailed("download")
            key = (namespace, bare_jid)
            if key not in w.device_lists:
                w.device_lists[key] = w.device_list_init(namespace, bare_jid)
            w.event("download_device_list", namespace, bare_jid)
            return dict(w.device_lists[key])

        async def _evaluate_custom_trust_level(self, device):
            await w.pause()
            level = w.evaluate(device)
            w.evaluations.append((device, level))
            return level

        async def _make_trust_decision(self, undecided, identifier):
            await w.pause()
            w.trust_queries.append((undecided, identifier))
            w.event("trust_query", undecided, identifier)
            if w.decide_trust is not None:
                await w.decide_trust(self, undecided, identifier)

        @staticmethod
        async def _send_message(message, bare_jid):
            await w.point("send_message")
            if w.fault("send_message"):
                w.event("send_message_failed", message, bare_jid)
                raise omemo.MessageSendingFailed("send")
            w.outbox.append((bare_jid, message))
            w.event("send_message", message, bare_jid)

    return Manager
