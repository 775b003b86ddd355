"""Scenario executor: the shipped client package driven through the simulator.

`run(scenario)` is a pure function of the scenario and of the code under test.
"""
import asyncio
import errno
import gc
import hashlib
import time

import agent as ag
import core
from core import BASE_NS, SEC, US

WALK_CAP = 3000
REAL_TIMEOUT = 40.0

_mods = None


class Mods:
    """The package under test."""

    def __init__(self):
        from gufo.snmp import _fast, policer, user, version
        from gufo.snmp.async_client import SnmpSession as AsyncSession
        from gufo.snmp.sync_client import SnmpSession as SyncSession

        self.fast = _fast
        self.policer = policer
        self.user = user
        self.version = version
        self.sync = SyncSession
        self.aio = AsyncSession


def mods():
    global _mods
    if _mods is None:
        _mods = Mods()
    return _mods


def make_user(u, own=None, shared=None):
    """User instance of the package for the scenario's user.

    `own` names the instances (user, keys) which are `shared` by several sessions of the process.
    """
    m = mods().user
    own = own or {}
    shared = {} if shared is None else shared
    kt = {"password": m.KeyType.Password, "master": m.KeyType.Master, "localized": m.KeyType.Localized}

    def obj(what, make):
        k = own.get(what)
        if k is None:
            return make()
        if (what, k) not in shared:
            shared[what, k] = make()
        return shared[what, k]

    def key(what, cls):
        return lambda: cls(bytes.fromhex(u[what]["key"]), key_type=kt[u[what]["type"]])

    def user():
        a = p = None
        if u.get("auth"):
            a = obj("auth", key("auth", m.Md5Key if u["auth"]["alg"] == "md5" else m.Sha1Key))
        if u.get("priv"):
            p = obj("priv", key("priv", m.DesKey if u["priv"]["alg"] == "des" else m.Aes128Key))
        return m.User(u["name"], auth_key=a, priv_key=p)

    return obj("user", user)


DEFAULTS = {"timeout": 10.0, "community": "public", "max_repetitions": 20, "allow_bulk": True, "port": 161}


def iterable(op):
    """The names as any iterable."""
    k = op.get("as")
    if k == "gen":
        return (x for x in op["oids"])
    return tuple(op["oids"]) if k == "tuple" else list(op["oids"])


RAW_OID = "1.3.6.1.2.1.1.3.0"


class Outcome:
    """Result of the API call."""

    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    def __repr__(self):
        if self.exc is not None:
            return f"!{type(self.exc).__name__}({self.exc})"
        if hasattr(self.value, "__next__") or hasattr(self.value, "__anext__"):
            return "<iterator>"
        return repr(self.value)


class Session:
    """One client session with its history."""

    def __init__(self, idx, cfg, sim, net):
        self.idx = idx
        self.cfg = cfg
        self.sim = sim
        self.net = net
        self.trace = []
        self.op = None
        self.req_i = 0
        self.sent = []
        self.reqs = []
        self.emitted = []
        self.answers = {}
        self.iters = {}
        self.it_base = {}
        self.client = None
        self._keys = {}
        self.fd = None

    # ---- history
    def rec(self, kind, *data):
        self.trace.append((self.sim.now, kind, *data))

    def on_recv(self, data, full):
        self.rec("recv", data, full)
        self.sim.note("recv", self.idx, data.hex())

    def on_recv_error(self, e):
        self.rec("recverr", e)
        self.sim.note("recverr", self.idx, e)

    def on_send_error(self, data, e):
        self.rec("senderr", data, e)
        self.sim.note("senderr", self.idx, e)

    def on_setopt(self, opt, us):
        pass

    # ---- what the agent knows about the user
    def keys_for(self, engine, _agent=None):
        if engine not in self._keys:
            u = self.cfg.get("user") or {}
            self._keys[engine] = ag.user_keys(u, engine)
        return self._keys[engine]

    def agent_user(self, _user=None):
        return (self.cfg.get("user") or {}).get("name", "").encode()

    # ---- driving
    def construct(self):
        c = self.cfg
        m = mods()
        self.sim.new_owner = self
        kw = {"addr": c.get("addr", "127.0.0.1"), "port": c.get("port", 161), "version": m.version.SnmpVersion[c["version"]]}
        if "community" in c:
            kw["community"] = c["community"]
        if "timeout" in c:
            kw["timeout"] = c["timeout"]
        for k in ("max_repetitions", "allow_bulk", "limit_rps", "tos", "send_buffer", "recv_buffer"):
            if k in c:
                kw[k] = c[k]
        self.rec("call", -1, {"op": "new"}, None)
        try:
            if c["version"] == "v3":
                kw["user"] = make_user(c["user"], c.get("own"), self.sim.shared)
                if c.get("engine_id"):
                    kw["engine_id"] = bytes.fromhex(c["engine_id"])
            if "policer" in c and c.get("limit_rps", 0) > 0:
                # Explicit policer takes precedence over the rate
                kw["policer"] = m.policer.RPSPolicer(float(c["limit_rps"]))
                kw["limit_rps"] = c["policer"]
            if c.get("defaults"):
                for k, v in DEFAULTS.items():
                    if k in kw and kw[k] == v:
                        del kw[k]
                if c["version"] != "v1":
                    del kw["version"]  # Detected by the credentials
            cls = m.sync if c["mode"] == "sync" else m.aio
            self.client = cls(**kw)
            out = Outcome()
        except BaseException as e:  # noqa: BLE001
            e.__traceback__ = None
            out = Outcome(exc=e)
        self.sim.new_owner = None
        self.ret(out)
        return self.client is not None

    def begin(self, i, op, it=None):
        self.rec("call", i, op, it)
        self.sim.note("call", self.idx, i, op.get("op"))

    def ret(self, out):
        self.rec("ret", out)
        self.sim.note("ret", self.idx, repr(out))
        return out

    def make_iter(self, op):
        c = self.client
        k = op.get("kind", op["op"])
        if k == "getnext":
            return c.getnext(op["oid"])
        if k == "getbulk":
            if "mr" in op:
                return c.getbulk(op["oid"], op["mr"])
            return c.getbulk(op["oid"])
        return c.fetch(op["oid"])

    def pure(self, op):
        """Calls, which do not touch the network."""
        k = op["op"]
        m = mods()
        if k == "engine_id":
            return self.client.get_engine_id()
        if k == "master_key":
            if "alg_code" in op:
                return m.fast.get_master_key(op["alg_code"], bytes.fromhex(op["passwd"]) * op.get("rep", 1))
            cls = m.user.Md5Key if op["alg"] == "md5" else m.user.Sha1Key
            return cls.get_master_key(bytes.fromhex(op["passwd"]) * op.get("rep", 1))
        if k == "localized_key":
            if "alg_code" in op:
                return m.fast.get_localized_key(
                    op["alg_code"], bytes.fromhex(op["key"]), bytes.fromhex(op["engine"])
                )
            cls = m.user.Md5Key if op["alg"] == "md5" else m.user.Sha1Key
            return cls.get_localized_key(bytes.fromhex(op["key"]), bytes.fromhex(op["engine"]))
        if k == "raw_v3":
            # The raw socket class, as the clients call it
            a = op["args"]
            tap = ag.Tap()
            self.sim.new_owner = tap
            try:
                s = m.fast.SnmpV3ClientSocket(
                    "127.0.0.1:161", bytes.fromhex(a["engine"]), a["user"], a["auth_alg"],
                    bytes.fromhex(a["auth_key"]), a["priv_alg"], bytes.fromhex(a["priv_key"]), 0, 0, 0, 1_000_000,
                )
            finally:
                self.sim.new_owner = None
            for _ in range(op.get("send", 0)):
                s.send_get(RAW_OID)
                s.send_refresh()
            if "set" in op:
                tap.out.append(None)
                b = op["set"]
                s.set_keys(
                    b["user"], b["auth_alg"], bytes.fromhex(b["auth_key"]), b["priv_alg"],
                    bytes.fromhex(b["priv_key"]),
                )
                for _ in range(op.get("send", 0)):
                    s.send_refresh()
                    s.send_get(RAW_OID)
            return tap.out
        if k == "policer":
            return run_policer(op)
        raise KeyError(k)

    def base(self):
        """Base of the current walk."""
        import ber

        return ber.parse_oid_text(self.op.get("oid") or self.it_base.get(self.op.get("it")) or "1.3.6")

    PURE = ("engine_id", "master_key", "localized_key", "raw_v3", "policer")

    def start_op(self, i, op):
        self.op = op
        self.req_i = 0
        for us in op.get("oversleep") or []:
            self.sim.oversleep.append(us * US)
        if op.get("unwritable"):
            for s in self.sim.socks.values():
                if s.owner is self:
                    s.unwritable_until = self.sim.now + op["unwritable"] * US
                    self.net.hit("send_buffer_full")

    # -- sync
    def step_sync(self, i, op):
        self.start_op(i, op)
        k = op["op"]
        c = self.client
        if k == "sleep":
            time.sleep(op["us"] / 1e6)
            return
        if k in self.PURE:
            return self.guard(i, op, lambda: self.pure(op))
        if k in ("refresh", "enter"):
            return self.guard(i, op, c.refresh if k == "refresh" else lambda: (c.__enter__(), None)[1])
        if k == "get":
            return self.guard(i, op, lambda: c.get(op["oid"]))
        if k == "get_many":
            return self.guard(i, op, lambda: c.get_many(iterable(op)))
        if k in ("getnext", "getbulk", "fetch"):
            it = ("w", i)
            o = self.guard(i, dict(op, op="iter", kind=k), lambda: self.make_iter(op), it)
            if o.exc is not None:
                return
            self.walk_sync(i, op, it, o.value, op.get("max", WALK_CAP))
            return
        if k == "iter":
            o = self.guard(i, op, lambda: self.make_iter(op), op["it"])
            if o.exc is None:
                self.iters[op["it"]] = o.value
                self.it_base[op["it"]] = op["oid"]
            return
        if k == "next":
            it = self.iters.get(op["it"])
            if it is not None:
                self.walk_sync(i, op, op["it"], it, op.get("n", 1))
            return
        raise KeyError(k)

    def walk_sync(self, i, op, name, it, limit):
        retry = op.get("retry", 0)
        while limit > 0:
            limit -= 1
            o = self.guard(i, {"op": "next"}, it.__next__, name)
            if o.exc is not None:
                if retry > 0 and isinstance(o.exc, (TimeoutError, OSError)) and not self.sim.aborted:
                    retry -= 1
                    self.net.probe("walk_retry")
                    continue
                return

    def guard(self, i, op, fn, it=None):
        self.begin(i, op, it)
        try:
            out = Outcome(fn())
        except BaseException as e:  # noqa: BLE001
            e.__traceback__ = None
            out = Outcome(exc=e)
        return self.ret(out)

    # -- async
    async def aguard(self, i, op, fn, it=None, cancel=None):
        self.begin(i, op, it)
        try:
            if cancel is None:
                out = Outcome(await fn())
            else:
                t = asyncio.ensure_future(fn())
                h = asyncio.get_running_loop().call_later(cancel / 1e6, t.cancel)
                try:
                    out = Outcome(await t)
                finally:
                    h.cancel()
        except SystemExit:
            raise
        except BaseException as e:  # noqa: BLE001
            e.__traceback__ = None
            out = Outcome(exc=e)
        return self.ret(out)

    async def step_async(self, i, op):
        self.start_op(i, op)
        k = op["op"]
        c = self.client
        cancel = op.get("cancel")
        if k == "sleep":
            await asyncio.sleep(op["us"] / 1e6)
            return
        if k in self.PURE:
            return self.guard(i, op, lambda: self.pure(op))
        if k == "refresh":
            await self.aguard(i, op, c.refresh, cancel=cancel)
            return
        if k == "enter":

            async def enter():
                await c.__aenter__()

            await self.aguard(i, op, enter, cancel=cancel)
            return
        if k == "get":
            await self.aguard(i, op, lambda: c.get(op["oid"]), cancel=cancel)
            return
        if k == "get_many":
            await self.aguard(i, op, lambda: c.get_many(iterable(op)), cancel=cancel)
            return
        if k in ("getnext", "getbulk", "fetch"):
            it = ("w", i)
            o = self.guard(i, dict(op, op="iter", kind=k), lambda: self.make_iter(op), it)
            if o.exc is None:
                await self.walk_async(i, op, it, o.value, op.get("max", WALK_CAP))
            return
        if k == "iter":
            o = self.guard(i, op, lambda: self.make_iter(op), op["it"])
            if o.exc is None:
                self.iters[op["it"]] = o.value
                self.it_base[op["it"]] = op["oid"]
            return
        if k == "next":
            it = self.iters.get(op["it"])
            if it is not None:
                await self.walk_async(i, op, op["it"], it, op.get("n", 1))
            return
        raise KeyError(k)

    async def walk_async(self, i, op, name, it, limit):
        retry = op.get("retry", 0)
        while limit > 0:
            limit -= 1
            o = await self.aguard(i, {"op": "next"}, it.__anext__, name, cancel=op.get("cancel"))
            if o.exc is not None:
                if (
                    retry > 0
                    and isinstance(o.exc, (TimeoutError, OSError, asyncio.CancelledError))
                    and not self.sim.aborted
                ):
                    retry -= 1
                    self.net.probe("walk_retry")
                    continue
                return


def run_policer(op):
    """Feed the policer with the timestamps: each request is released before the next one is asked for."""
    m = mods().policer
    try:
        p = m.RPSPolicer(op["rps"])
    except BaseException as e:  # noqa: BLE001
        return ("refused", e)
    ts = op.get("start", 0)
    out = []
    for gap in op["gaps"]:
        ts += gap
        t = p.get_timeout(ts)
        out.append((ts, t))
        ts += t or 0
    return ("ok", out)


def task_main(sim, sessions):
    """Body of the simulation thread: sessions of one task."""
    sync = [s for s in sessions if s.cfg["mode"] == "sync"]
    aio = [s for s in sessions if s.cfg["mode"] != "sync"]
    if sync:
        run_sync(sim, sync)
    if aio and not sim.aborted:
        run_async(sim, aio)


def run_sync(sim, sessions):
    live = [(s, enumerate(s.cfg["ops"])) for s in sessions if s.construct()]
    while live and not sim.aborted:
        nxt = []
        for s, it in live:
            if sim.aborted:
                break
            e = next(it, None)
            if e is None:
                continue
            s.step_sync(*e)
            nxt.append((s, it))
        live = nxt


def run_async(sim, sessions):
    loop = asyncio.SelectorEventLoop(core.SimSelector(sim))
    asyncio.set_event_loop(loop)

    async def one(s):
        if not s.construct():
            return
        for i, op in enumerate(s.cfg["ops"]):
            if sim.aborted:
                return
            await s.step_async(i, op)

    async def main():
        await asyncio.gather(*[one(s) for s in sessions])

    try:
        loop.run_until_complete(main())
    except SystemExit:
        pass
    finally:
        try:
            loop.close()
        except BaseException:  # noqa: BLE001
            pass


class Result:
    """What happened."""


def run(scen, keep_log=False):
    """Execute the scenario. Returns Result with the sessions' histories."""
    mods()
    gc.disable()
    sim = core.Sim(
        f"{scen['seed']}", scen.get("sched", ()), scen.get("rng", ()), scen.get("hz", 0), scen.get("poison", 0xAA),
        scen.get("tick", 1), scen.get("wall", ()),
    )
    sim.tailxor = scen.get("tailxor", 0)
    if keep_log:
        sim.log = []
    agents = [ag.Agent(a, sim) for a in scen["agents"]]
    net = ag.Net(sim, agents, scen.get("latency", 200))
    sim.on_send = net.on_send
    sim.shared = {}
    sessions = [Session(i, c, sim, net) for i, c in enumerate(scen["sessions"])]
    net.sessions = sessions
    tasks = {}
    for s in sessions:
        tasks.setdefault(s.cfg.get("task", 0), []).append(s)
    calls0 = sim.nat.calls.value
    ok = sim.run(
        [(f"t{k}", (lambda ss: lambda: task_main(sim, ss))(v)) for k, v in sorted(tasks.items())], REAL_TIMEOUT
    )
    if sim.wall_steps:
        net.hit("wall_clock_set", sim.wall_steps)
    r = Result()
    r.sim = sim
    r.net = net
    r.sessions = sessions
    r.hung = not ok
    r.calls = sim.nat.calls.value - calls0
    r.sim_s = (sim.now - BASE_NS) / SEC
    r.digest = sim.digest.hexdigest()
    return r


def outcomes(r):
    """What the callers saw, call by call: class of the outcome and the value."""
    return [
        [[type(o.exc).__name__, ""] if o.exc is not None else ["", repr(o)] for e in s.trace if e[1] == "ret" for o in [e[2]]]
        for s in r.sessions
    ]


def outcome_digest(r):
    """Digest of everything the callers saw."""
    h = hashlib.sha256()
    for s in r.sessions:
        for e in s.trace:
            if e[1] == "ret":
                h.update(repr(e[2]).encode())
            elif e[1] == "send":
                h.update(e[2])
    return h.hexdigest()
