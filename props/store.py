"""C28, C29: the storage base class: cache and typed access."""

import asyncio

from .common import *  # noqa: F401,F403
from omemo.storage import Just, Maybe, Nothing, NothingException, Storage, StorageException


class Memory(Storage):
    """A storage over a dictionary; faults and the order of concurrent operations are symbolic."""

    def __init__(self, ctx, disk, cache, faults=0, gated=False):
        super().__init__(disable_cache=not cache)
        self.ctx, self.disk, self.faults, self.gated = ctx, disk, faults, gated
        self.count = 0
        self.waiting = []

    def fault(self):
        if self.faults <= 0:
            return False
        self.count += 1
        if self.ctx.decide(self.ctx.flag(f"fault{self.count}")):
            self.faults -= 1
            return True
        return False

    async def gate(self):
        if self.gated:
            f = asyncio.get_running_loop().create_future()
            self.waiting.append(f)
            await f

    async def _load(self, key):
        await self.gate()
        if self.fault():
            raise StorageException("load")
        value = Just(self.disk[key]) if key in self.disk else Nothing()
        await self.gate()
        return value

    async def _store(self, key, value):
        await self.gate()
        if self.fault():
            raise StorageException("store")
        self.disk[key] = Just(value).from_just()
        await self.gate()

    async def _delete(self, key):
        await self.gate()
        if self.fault():
            raise StorageException("delete")
        self.disk.pop(key, None)
        await self.gate()


def make_value(ctx, name):
    kind = ctx.choose(f"{name}.kind", 4)
    return [
        lambda: ctx.int(f"{name}.int"),
        lambda: None,
        lambda: [ctx.int(f"{name}.a"), ctx.int(f"{name}.b")],
        lambda: {"x": ctx.str(f"{name}.s", 3), "y": [ctx.int(f"{name}.c")]},
    ][kind]()


def scramble(value):
    """What an application may do with a value of its own."""
    if type(value) is list:
        value.append("scrambled")
        value[0] = "scrambled"
    elif type(value) is dict:
        for v in value.values():
            scramble(v)
        value["z"] = "scrambled"
        value.pop("x", None)


def same(a, b):
    if type(a) is dict and type(b) is dict:
        return And(set(a) == set(b), *[same(a[k], b[k]) for k in a if k in b])
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return eq(a, b)


def frozen(value):
    """A private copy that shares the (immutable) leaves."""
    if type(value) is list:
        return [frozen(v) for v in value]
    if type(value) is dict:
        return {k: frozen(v) for k, v in value.items()}
    return value


def sequence_scenario(ctx, steps=3, keys=1, cache=True, faults=0, crowd=0):
    """crowd: number of other keys that are written or read in between. Any sequence of loads, stores and deletions, each of which may fail."""
    disk = {}
    names = [f"/key{k}" for k in range(keys)]
    model = {}
    for n in names:
        if ctx.decide(ctx.flag(f"{n}.present")):
            model[n] = [7, "there"]
            disk[n] = [7, "there"]

    async def run():
        s = Memory(ctx, disk, cache, faults)

        async def verify(key, what):
            got = await s.load(key)
            if key in model:
                ctx.check("C28", f"{what}: load returns what was stored last", And(
                    got.is_just, not got.is_nothing, same(got.from_just(), model[key]) if got.is_just else False))
                if got.is_just:
                    value = got.from_just()
                    scramble(value)
                    scramble(got.maybe(None))
                    got.fmap(lambda v: scramble(v))
            else:
                ctx.check("C28", f"{what}: load returns nothing for absent keys", got.is_nothing and not got.is_just)
        async def many(what):
            for k in range(crowd):
                if (what + k) % 3 == 0:
                    await s.store(f"/crowd/{k}", [what, k])
                    model[f"/crowd/{k}"] = [what, k]
                elif (what + k) % 3 == 1:
                    await s.delete(f"/crowd/{k}")
                    model.pop(f"/crowd/{k}", None)
                else:
                    await verify(f"/crowd/{k}", "many keys")
        for i in range(steps):
            if crowd:
                await many(i)
            key = names[ctx.choose(f"step{i}.key", keys)]
            op = ctx.choose(f"step{i}.op", 3)
            try:
                if op == 0:
                    await verify(key, "sequence")
                    ctx.reach("load")
                elif op == 1:
                    value = make_value(ctx, f"step{i}.value")
                    keep = frozen(value)
                    await s.store(key, value)
                    ctx.check("C28", "values are passed on unmodified", same(value, keep))
                    model[key] = keep
                    ctx.check("C28", "written through right away", key in disk and same(disk[key], keep))
                    scramble(value)
                    ctx.reach("store")
                else:
                    await s.delete(key)
                    model.pop(key, None)
                    ctx.check("C28", "deleted right away", key not in disk)
                    ctx.reach("delete")
            except StorageException:
                ctx.reach("failed")
        s.faults = 0
        for key in names + [f"/crowd/{k}" for k in range(crowd)]:
            await verify(key, "end")
            ctx.check("C28", "storage has what was written last", (key in disk) == (key in model) and (
                same(disk[key], model[key]) if key in disk else True))
        ctx.outcome = "done"
    return run()


def interleaving_scenario(ctx, ops=("load", "store"), faults=0, warm=False, keys=1):
    """
    Concurrent operations on one key (at most one of them writes), in any interleaving of their starts, their effects
    on the storage and their ends.
    """
    key = "/key"
    disk = {}
    if ctx.decide(ctx.flag("present")):
        disk[key] = "initial"

    async def run():
        s = Memory(ctx, disk, True, 0, gated=False)
        if warm and ctx.decide(ctx.flag("cached")):
            await s.load(key)
        s.gated = True
        s.faults = faults
        initial = disk.get(key, ABSENT)
        results = []
        write = {"started": False, "ended": False, "value": ABSENT}

        async def load():
            try:
                late = write["ended"]
                got = (await s.load(key)).maybe(ABSENT)
                # the value before the write unless it had ended before, the new one once the write has started
                results.append((got, ([] if late else [initial]) + (
                    [write["value"]] if write["started"] else [])))
            except StorageException:
                pass

        async def store():
            write.update(started=True, value="written")
            try:
                await s.store(key, "written")
                write["ended"] = True
            except StorageException:
                write.update(started=False)

        async def delete():
            write.update(started=True)
            try:
                await s.delete(key)
                write["ended"] = True
            except StorageException:
                write.update(started=False)
        todo = [{"load": load, "store": store, "delete": delete}[o] for o in ops]
        tasks = []
        for step in range(100):
            for _ in range(4):
                await env.real_sleep(0)
            waiting = [f for f in s.waiting if not f.done()]
            options = len(waiting) + (1 if todo else 0)
            if not options:
                break
            pick_ = ctx.choose(f"schedule{step}", options) if options > 1 else 0
            if pick_ < len(waiting):
                waiting[pick_].set_result(None)
            else:
                tasks.append(asyncio.ensure_future(todo.pop(0)()))
        await asyncio.gather(*tasks)
        s.gated = False
        s.faults = 0
        for got, allowed in results:
            ctx.check("C28", "a load returns a value held while it ran", any(
                (got is ABSENT if v is ABSENT else got == v) for v in allowed))
        now = disk.get(key, ABSENT)
        for _ in range(2):
            got = (await s.load(key)).maybe(ABSENT)
            ctx.check("C28", "after all operations are done, loads return what is stored", (got is ABSENT) == (
                now is ABSENT) and (now is ABSENT or got == now))
        ctx.reach("interleaved")
        ctx.outcome = f"{len(results)} loads"
    return run()


# -- C29 ------------------------------------------------------------------------------------------------------------

SCALARS = {
    "None": lambda ctx, n: None,
    "True": lambda ctx, n: True,
    "False": lambda ctx, n: False,
    "int": lambda ctx, n: ctx.int(n),
    "float": lambda ctx, n: 1.5,
    "str": lambda ctx, n: ctx.str(n, 3),
}
KIND_TYPE = {"None": type(None), "True": bool, "False": bool, "int": int, "float": float, "str": str}
PRIMITIVES = [int, bool, float, str]


def matches(kind, primitive):
    """Whether a scalar of this kind is of this primitive type; None: not part of the claim (bool as int)."""
    if KIND_TYPE[kind] is bool and primitive is int:
        return None
    return KIND_TYPE[kind] is primitive


def typed_scenario(ctx, shape="scalar", method="load_primitive", cache=True):
    """A value of any type is stored; a typed load returns it if it is of that type and refuses it otherwise."""
    names = list(SCALARS)
    disk = {}
    key = "/key"
    kinds = []
    if shape == "absent":
        value = ABSENT
    elif shape == "scalar":
        kinds = [names[ctx.choose("kind", len(names))]]
        value = SCALARS[kinds[0]](ctx, "value")
    else:
        n = ctx.choose("length", 3)
        kinds = [names[ctx.choose(f"kind{k}", len(names))] for k in range(n)]
        items = [SCALARS[kind](ctx, f"value{k}") for k, kind in enumerate(kinds)]
        value = items if shape == "list" else {f"k{k}": v for k, v in enumerate(items)}
    if value is not ABSENT:
        disk[key] = frozen(value)
    primitive = PRIMITIVES[ctx.choose("type", len(PRIMITIVES))] if method != "load_bytes" else None

    async def run():
        s = Memory(ctx, disk, cache)
        call = getattr(s, method)
        verdicts = [matches(k, primitive) for k in kinds]
        if method == "load_primitive":
            ok = shape == "scalar" and verdicts[0]
        elif method == "load_optional":
            ok = shape == "scalar" and (True if kinds[0] == "None" else verdicts[0])
        elif method == "load_list":
            ok = shape == "list" and (False if False in verdicts else None if None in verdicts else True)
        elif method == "load_dict":
            ok = shape == "dict" and (False if False in verdicts else None if None in verdicts else True)
        else:
            # text that isn't base64 is not part of the claim
            ok = None if shape == "scalar" and kinds[0] == "str" else False
        for again in range(2):
            try:
                got = await (call(key) if primitive is None else call(key, primitive))
            except TypeError:
                ctx.check("C29", "values of the right type and absent values aren't refused", ok is not True and
                          shape != "absent", f"{method} {kinds}")
                ctx.reach("refused")
                continue
            except ValueError:
                ctx.check("C29", "only malformed text is an error", ok is None)
                continue
            if shape == "absent":
                ctx.check("C29", "absent values are nothing", got.is_nothing)
                ctx.reach("nothing")
                try:
                    got.from_just()
                    ctx.fail("C29", "from_just of nothing")
                except NothingException:
                    pass
                ctx.check("C29", "default", got.maybe("default") == "default" and got.fmap(
                    lambda v: v).is_nothing)
            else:
                ctx.check("C29", "values of another type are refused", ok is not False, f"{method} {kinds}")
                if ok and got.is_just:
                    ctx.check("C29", "the stored value is returned", same(got.from_just(), value))
                    scramble(got.from_just())
                    ctx.reach("returned")
                ctx.check("C29", "present values are just", got.is_just)
        ctx.outcome = shape
    return run()


def bytes_scenario(ctx, lengths=(0, 1, 2, 3, 4, 5, 6, 31, 32, 33, 64)):
    """store_bytes and load_bytes are inverse for every content."""
    n = lengths[ctx.choose("length", len(lengths))]
    value = ctx.bytes(f"value{n}", n) if n else b""

    async def run():
        disk = {}
        cache = ctx.decide(ctx.flag("cache"))
        s = Memory(ctx, disk, cache)
        await s.store_bytes("/key", value)
        ctx.check("C29", "stored as JSON text", isinstance(disk["/key"], str))
        for s2 in (s, Memory(ctx, disk, cache)):
            got = (await s2.load_bytes("/key")).from_just()
            ctx.check("C29", "bytes round trip", And(len(got) == n, eq(got, value) if n else True))
        ctx.reach("round trip")
        ctx.outcome = f"{n} bytes"
    return run()


SEQ_JOBS = [
    Job("sequence-one-key", sequence_scenario, dict(steps=3)),
    Job("sequence-two-keys", sequence_scenario, dict(steps=2, keys=2)),
    Job("sequence-many-keys", sequence_scenario, dict(steps=2, crowd=300)),
    Job("sequence-faults", sequence_scenario, dict(steps=3, faults=1)),
    Job("sequence-no-cache", sequence_scenario, dict(steps=2, cache=False, faults=1)),
    Job("interleaved-load-store", interleaving_scenario, dict(warm=True, faults=1)),
    Job("interleaved-load-delete", interleaving_scenario, dict(ops=("load", "delete"), warm=True, faults=1)),
    Job("interleaved-store-load", interleaving_scenario, dict(ops=("store", "load"), warm=True, faults=1)),
    Job("interleaved-two-loads-store", interleaving_scenario, dict(ops=("load", "load", "store"))),
    Job("interleaved-load-delete-load", interleaving_scenario, dict(ops=("load", "delete", "load"))),
    Job("sequence-four-steps", sequence_scenario, dict(steps=4), "thorough"),
    Job("sequence-two-keys-faults", sequence_scenario, dict(steps=3, keys=2, faults=1), "thorough"),
    Job("interleaved-three-loads-store", interleaving_scenario, dict(ops=("load", "load", "store", "load")), "thorough"),
    Job("interleaved-two-loads-delete-fault", interleaving_scenario, dict(ops=("load", "load", "delete"), faults=1,
                                                                         warm=True), "thorough"),
]
TYPED_JOBS = [Job("bytes", bytes_scenario, {})] + [
    Job(f"{m}-{shape}" + ("" if cache else "-no-cache"), typed_scenario, dict(method=m, shape=shape, cache=cache),
        "quick" if cache else "thorough")
    for m in ("load_primitive", "load_optional", "load_list", "load_dict", "load_bytes")
    for shape in ("absent", "scalar", "list", "dict") for cache in (True, False)
]
CHECKS = {
    "C28": Check(SEQ_JOBS, ["load", "store", "delete", "failed", "interleaved"],
                 ["sequences of up to 4 operations on up to 2 keys with up to 1 failure; values: null, integers, lists and "
                  "nested objects with arbitrary integers/strings", "up to 4 concurrent operations on one key, of which "
                  "one writes, in every interleaving"],
                 ["two concurrent writes to the same key"]),
    "C29": Check(TYPED_JOBS, ["refused", "returned", "nothing", "round trip"],
                 ["scalars, and lists/objects of up to 2 scalars; byte strings of the lengths 0-6, 31-33, 64 with "
                  "arbitrary content"], ["booleans loaded as integers", "text that isn't base64"]),
}
