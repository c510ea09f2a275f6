"""C37: operations after which the same manager goes on, or a new one that was created over the same stored data."""

from .common import *  # noqa: F401,F403
from .concurrent import QUIET, Setting, operation


class Life(Setting):
    """later: what the server and the other side do differently once the first operations are over."""

    def later(self) -> None:
        ctx, w = self.ctx, self.w
        for d in self.devs.values():
            for ns in self.nss:
                if d.fixed.get("later") is not None:
                    status = d.fixed["later"]
                    d.bundle_status[ns] = z3.IntVal(status) if status >= 0 else ctx.int_term(f"{d.name}.later.bundle.{ns}")
                key = (ns, d.jid)
                own = {5: w.device_lists[key][5]} if d.jid == OWN and 5 in w.device_lists[key] else {}
                w.device_lists[key] = own | {d.id: f"later label of {d.name}", 78: None}
        before = w.bundle_init

        def bundle_init(ns, jid, dev):
            b = before(ns, jid, dev)
            return b if type(b) is str else StubBundle(ns, jid, dev, b.identity_key, ("later bundle", ns))
        w.bundle_init = bundle_init
        self.indecisive = None
        for key in [k for k in w.bundles if k[1:] != (OWN, 5)]:
            del w.bundles[key]

    async def restart(self) -> Any:
        self.w.log.clear()
        sm = await self.w.create(namespaces=self.loaded, storage=self.w.storage(cache=True))
        if self.live:
            await sm.after_history_sync()
        return sm

    async def start(self, live: bool) -> Any:
        self.loaded, self.live = self.nss, live
        sm = await self.restart()
        if live:
            await sm.ensure_data_consistency()
        return sm

    def operation(self, what: str, jid: str, k: int) -> Any:
        s = self
        tag = f" in step {k}" if k == 1 else ""

        async def consistency(sm: Any) -> Any:
            await sm.ensure_data_consistency()

        async def own_information(sm: Any) -> Any:
            own, others = await sm.get_own_device_information()
            return own.device_id, own.identity_key, own.label, frozenset(own.active), len(others)

        async def purge_backend(sm: Any) -> Any:
            await sm.purge_backend(s.nss[-1])
            s.loaded = s.nss[:-1]

        async def history(sm: Any) -> Any:
            sm.before_history_sync()
            try:
                return await operation(s, "decrypt-kex", jid, tag)(sm)
            finally:
                s.live = True
                await sm.after_history_sync()

        f = {
            "consistency": consistency, "own-information": own_information, "purge-backend": purge_backend, "history": history
        }.get(what)
        if f is None:
            return operation(s, what, jid, tag)

        async def run(sm: Any) -> Any:
            try:
                return ("returned", await f(sm))
            except omemo.OMEMOException as e:
                return ("raised", type(e).__name__)
        return run


def restart_scenario(ctx, ops=("encrypt", "encrypt"), jids=None, nss=(NS_A,), live=True, fixed=None):
    nss, jids = list(nss), jids or [BOB] * len(ops)
    ids = {jid: 11 for jid in jids}
    rcl = {jid: ctx.int(f"rcl.{jid[:3]}", 0, 1000) for jid in ids}
    lives = [Life(ctx, nss, ids, fixed, {}, rcl, 0) for _ in range(2)]

    async def run():
        outcomes = []
        for s, again in zip(lives, (False, True)):
            sm = await s.start(live)
            s.indecisive = ctx.flag("indecisive") if "indecisive" in (fixed or {}) else None
            outcome, built = [], []
            for k, (what, jid) in enumerate(zip(ops, jids)):
                if k == len(ops) - 1:
                    s.later()
                if k and again:
                    sm = await s.restart()
                s.w.log.clear()
                outcome.append(await s.operation(what, jid, k)(sm))
                built.append([(e[1:4], e[4].content) for e in s.w.events("build_active")])
            outcome.append(built)
            outcomes.append(outcome)
        touched = lives[0].touched() | lives[1].touched()
        states = [s.state(touched) for s in lives]
        ctx.outcome = f"{outcomes[0]}"
        ctx.reach("restarted")
        for k, what in enumerate(ops):
            ctx.check("C37", f"same outcome as after a restart: {what}", outcomes[0][k] == outcomes[1][k])
        ctx.check("C37", "sessions built with the same bundles as after a restart", outcomes[0][-1] == outcomes[1][-1])
        for what in states[0]:
            ctx.check("C37", f"same {what} as after a restart", states[0][what] == states[1][what])
    return run()


WHATS = ["encrypt", "decrypt", "decrypt-kex", "update", "replace", "purge", "information", "trust", "chain", "refresh", "label",
         "consistency", "own-information", "history"]


def jobs() -> List[Job]:
    out = []

    def add(name: str, tier: str = "quick", **kw: Any) -> None:
        out.append(Job(f"again-{name}", restart_scenario, kw, tier))

    fixed = dict(QUIET, later=-1, bundle=None, sess=None, kexfail=False)
    for a in WHATS:
        for b in WHATS:
            add(f"{a}-{b}", ops=(a, b), fixed=dict(fixed, act=None if b == "update" else True))
    for a in WHATS:
        add(f"kex-fails-{a}-encrypt", ops=(a, "encrypt"), fixed=dict(fixed, known=True, kexfail=None, level=0))
        add(f"syncing-{a}-decrypt-kex", ops=(a, "decrypt-kex"), live=False, fixed=dict(fixed, bundle=0))
        add(f"syncing-decrypt-kex-{a}", ops=("decrypt-kex", a), live=False, fixed=dict(fixed, bundle=0))
        add(f"{a}-trust-decrypt", ops=(a, "trust", "decrypt"), fixed=dict(fixed, bundle=0, known=True, sess=1))
        add(f"{a}-trust-encrypt", ops=(a, "trust", "encrypt"), fixed=dict(fixed, bundle=0))
        add(f"{a}-update-encrypt", ops=(a, "update", "encrypt"), fixed=dict(fixed, bundle=0, known=True, level=0))
        add(f"{a}-replace-encrypt", ops=(a, "replace", "encrypt"), fixed=dict(fixed, bundle=0, known=True, level=0))
        add(f"{a}-purge-refresh-encrypt", ops=(a, "purge", "refresh", "encrypt"), fixed=dict(fixed, bundle=0, known=True, level=0))
    add("label-label-label", ops=("label", "label", "label"), fixed=dict(fixed, level=0))
    add("indecisive", ops=("encrypt", "encrypt", "encrypt"), fixed=dict(fixed, bundle=0, known=True, indecisive=True))
    add("syncing-three", ops=("decrypt-kex", "decrypt-kex", "decrypt-kex", "encrypt"), live=False, fixed=dict(fixed, bundle=0, level=0, known=True))
    for a in WHATS[:-3]:
        for b in WHATS[:-3]:
            add(f"other-account-{a}-{b}", ops=(a, b), jids=(CAROL, BOB), fixed=dict(fixed, level=0, bundle=0, known=True, later=0))
            if "purge" not in (a, b):
                add(f"own-account-{a}-{b}", ops=(a, b), jids=(OWN, OWN),
                    fixed=dict(fixed, level=0, bundle=0, later=0))
    for a in WHATS + ["purge-backend"]:
        for b in WHATS:
            few = dict(fixed, level=0, bundle=0, known=True, later=0, sess=1)
            add(f"two-backends-{a}-{b}", ops=(a, b), nss=(NS_A, NS_B), fixed=few)
            add(f"two-backends-any-{a}-{b}", "thorough", ops=(a, b), nss=(NS_A, NS_B), fixed=dict(fixed, act=None))
            for c in WHATS:
                add(f"{a}-{b}-{c}", "thorough", ops=(a, b, c), nss=(NS_A, NS_B) if a == "purge-backend" else (NS_A,), fixed=fixed)
    return out


BOUNDS = ["two operations, with and without a restart in between; one account with one device, any trust, session and activity, "
          "bundles that become available or unavailable in between"]
OUTSIDE = ["purging the own account", "the retry delays of the rotation of signed pre keys"]
CHECKS = {"C37": Check(jobs(), ["restarted"], BOUNDS, OUTSIDE)}
