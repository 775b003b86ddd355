"""Check runner: builds the tree, explores scenarios on all the cores, minimises, writes evidence and replay files."""
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build  # noqa: E402

OUT = build.OUT


class Fatal(Exception):
    pass


def worker_env(hashseed="0"):
    env = build.vp_env()
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "ASAN_OPTIONS"):
        env.pop(k, None)
    env.update(
        LD_PRELOAD=os.path.join(OUT, "simnet.so"), SIMNET_SO=os.path.join(OUT, "simnet.so"), VERIF_PY=os.path.join(OUT, "py"),
        PYTHONHASHSEED=hashseed, MALLOC_PERTURB_="165", PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0",
    )
    return env


class Worker:
    def __init__(self, hashseed="0"):
        env = worker_env(hashseed)
        py = env.get("PY", "/opt/vp/venv/bin/python")
        self.p = subprocess.Popen(
            [py, os.path.join(HERE, "sim", "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            stderr=None if os.environ.get("VERIF_STDERR") else subprocess.PIPE,
        )

    def send(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            err = b""
            if self.p.stderr:
                err = self.p.stderr.read()[-3000:]
            raise Fatal(f"worker died: {err.decode(errors='replace')}")
        r = json.loads(line)
        if "fatal" in r:
            raise Fatal(r["fatal"])
        return r

    def call(self, req):
        self.send(req)
        return self.recv()

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            self.p.kill()


def explore(prop, seed, total, deadline, nworkers, chunk=16, stop_after=2.5):
    """Run scenarios 0..total-1. Returns the aggregate."""
    ws = [Worker() for _ in range(nworkers)]
    sel = selectors.DefaultSelector()
    agg = {"acc": {}, "sigs": [], "digests": {}, "bad": [], "errors": []}
    nxt = 0
    busy = 0
    t_bad = None

    def feed(w):
        nonlocal nxt, busy
        if nxt >= total or time.monotonic() > deadline or (t_bad and time.monotonic() > t_bad + stop_after):
            return
        idx = list(range(nxt, min(total, nxt + chunk)))
        nxt += len(idx)
        w.send({"prop": prop, "seed": seed, "idx": idx})
        busy += 1

    try:
        for w in ws:
            sel.register(w.p.stdout, selectors.EVENT_READ, w)
            feed(w)
        while busy:
            for key, _ in sel.select(1.0):
                w = key.data
                r = w.recv()
                busy -= 1
                for k, v in r["acc"].items():
                    if isinstance(v, dict):
                        d = agg["acc"].setdefault(k, {})
                        for n, x in v.items():
                            d[n] = d.get(n, 0) + x
                    else:
                        agg["acc"][k] = agg["acc"].get(k, 0) + v
                agg["sigs"] += r["sigs"]
                agg["digests"].update({i: d for i, d in r["digests"]})
                agg["bad"] += r["bad"]
                agg["errors"] += r["errors"]
                if t_bad is None and any(b["mine"] for b in r["bad"]):
                    t_bad = time.monotonic()
                feed(w)
    finally:
        for w in ws:
            w.stop()
    return agg


# ---------------------------------------------------------------- minimiser
def shrinks(scen):
    """Simpler scenarios, big steps first."""
    def clone():
        return json.loads(json.dumps(scen))

    ss = scen["sessions"]
    if len(ss) > 1:
        for i in range(len(ss)):
            c = clone()
            del c["sessions"][i]
            yield c
    for i, s in enumerate(ss):
        n = len(s["ops"])
        k = n
        while k >= 1:
            for a in range(0, n, k):
                c = clone()
                del c["sessions"][i]["ops"][a : a + k]
                if c["sessions"][i]["ops"] or len(ss) > 1 or n == k:
                    yield c
            k //= 2
    for k in ("sched", "rng", "hz", "poison", "latency", "tick", "wall"):
        if scen.get(k) not in (None, [], 0):
            c = clone()
            c.pop(k)
            yield c
    for i, s in enumerate(ss):
        for k in ("max_repetitions", "allow_bulk", "limit_rps", "task", "tos", "send_buffer", "recv_buffer", "own", "policer", "defaults"):
            if k in s:
                c = clone()
                c["sessions"][i].pop(k)
                yield c
        if s["mode"] == "async":
            c = clone()
            c["sessions"][i]["mode"] = "sync"
            for o in c["sessions"][i]["ops"]:
                o.pop("cancel", None)
            yield c
        for j, op in enumerate(s["ops"]):
            for k in ("ev", "emits", "emit", "cancel", "oversleep", "unwritable", "retry", "mr", "as"):
                if op.get(k):
                    c = clone()
                    c["sessions"][i]["ops"][j].pop(k)
                    yield c
            if len(op.get("oids") or []) > 1:
                n = len(op["oids"])
                k = n // 2
                while k >= 1:
                    for a in range(0, n, k):
                        c = clone()
                        del c["sessions"][i]["ops"][j]["oids"][a : a + k]
                        yield c
                    k //= 2
            for g in ("gaps",):
                if len(op.get(g) or []) > 2:
                    n = len(op[g])
                    k = n // 2
                    while k >= 1:
                        for a in range(0, n, k):
                            c = clone()
                            del c["sessions"][i]["ops"][j][g][a : a + k]
                            yield c
                        k //= 2
            for kk in ("emits", "emit"):
                v = op.get(kk) or []
                lists = [(m, x) for m, x in enumerate(v)] if kk == "emits" else [(None, v)]
                if kk == "emits" and len(v) > 1:
                    c = clone()
                    c["sessions"][i]["ops"][j][kk].pop()
                    yield c
                for m, em in lists:
                    def at(c):
                        o = c["sessions"][i]["ops"][j]
                        return o[kk] if m is None else o[kk][m]

                    for q in range(len(em)):
                        c = clone()
                        del at(c)[q]
                        yield c
                        e = em[q]
                        for key in ("dup", "rep", "mut", "d", "f"):
                            if e.get(key):
                                c = clone()
                                at(c)[q].pop(key)
                                yield c
                        for fk in e.get("f") or {}:
                            c = clone()
                            at(c)[q]["f"].pop(fk)
                            yield c
                        vb = (e.get("f") or {}).get("vb") or []
                        for z in range(len(vb)) if len(vb) > 1 else ():
                            c = clone()
                            del at(c)[q]["f"]["vb"][z]
                            yield c
    for i, a in enumerate(scen["agents"]):
        n = len(a.get("mib") or [])
        k = n
        while k >= 1:
            for s0 in range(0, n, k):
                c = clone()
                del c["agents"][i]["mib"][s0 : s0 + k]
                yield c
            k //= 2
        for k in ("cap", "eomv", "lax", "maxbytes"):
            if k in a:
                c = clone()
                c["agents"][i].pop(k)
                yield c


def minimise(scen, prop, cls, budget_s=60.0, budget_n=1500):
    """Smallest scenario with the same class of violation of the same property."""
    w = Worker()
    end = time.monotonic() + budget_s
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        r = w.call({"scen": c})
        if r.get("errors"):
            return None
        for v in r.get("violations") or []:
            if prop in v["properties"] and v["class"] == cls:
                return v
        return None

    best = None
    try:
        if not fails(scen):
            return scen, None, tries
        progress = True
        while progress and time.monotonic() < end and tries < budget_n:
            progress = False
            for c in shrinks(scen):
                if time.monotonic() > end or tries >= budget_n:
                    break
                try:
                    v = fails(c)
                except Fatal:
                    w.stop()
                    w = Worker()
                    continue
                if v:
                    scen, best, progress = c, v, True
                    break
        if best is None:
            best = fails(scen)
    finally:
        w.stop()
    return scen, best, tries


# ---------------------------------------------------------------- findings
def known_findings():
    """Listed findings: lines `finding: property=<id> class=<class> match=<regular expression>`."""
    import re

    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*)$", line.strip())
                if m:
                    out.append((m.group(1), m.group(2), re.compile(m.group(3))))
    except OSError:
        pass
    return out


def split_known(prop, violations):
    """(new, known)."""
    fs = [f for f in known_findings() if f[0] == prop]
    new, known = [], []
    for v in violations:
        if any(f[1] == v["class"] and f[2].search(v["message"]) for f in fs):
            known.append(v)
        else:
            new.append(v)
    return new, known


REAL = [
    "_fast.so: the whole Rust extension built from /repo's working tree (BER, v1/v2c/v3, USM, sockets, iterators, buffer pool)",
    "gufo.snmp Python package from /repo's working tree: sync and asyncio clients, policer, user, version",
    "CPython, stock asyncio event loop, rand's ThreadRng, RustCrypto, socket2",
]
STUB = [
    "kernel UDP socket, SO_RCVTIMEO, clocks, sleeping, polling and getrandom: simulator behind simnet.so",
    "SNMP agents: independent BER codec, RFC 3416 responder, RFC 3414 engine, hashlib/libcrypto primitives",
    "asyncio selector: SimSelector over virtual time",
]

ASSUME = [
    "a clean batch is evidence, not proof: scenarios are sampled",
    "the simulated UDP socket keeps datagram boundaries and drops nothing silently except on request; kernel buffers are unbounded",
    "hashlib and libcrypto (DES, AES block functions, HMAC) are correct; checked against published vectors at start",
    "clients are used as documented: one outstanding call per session; several sessions may run in several threads",
]


def nontrivial(prop, calls, probes):
    need = NEEDS.get(prop)
    return calls > 0 and (not need or any(probes.get(n) for n in need))


NEEDS = {
    "C01": ("skipped", "decode_error", "odd_value", "delivered", "oserror"), "C02": ("delivered",), "C03": ("delivered", "timeout", "encode_error"),
    "C04": ("skipped",), "C05": ("walk_nonempty",), "C06": ("walk_end", "walk_backwards"), "C07": ("delivered",), "C08": ("oid_refused", "delivered"),
    "C09": ("mac_verified",), "C10": ("skipped", "decode_error"), "C11": ("decrypted_des", "decrypted_aes"),
    "C12": ("master_key", "localized_key", "key_refused", "key_accepted", "mac_verified", "decrypted_des", "decrypted_aes"),
    "C13": ("engine_learned", "user_installed"), "C14": ("decrypted_des", "decrypted_aes"), "C15": ("delivered",), "C16": ("delivered", "decode_error"),
    "C17": ("encode_error", "delivered"), "C18": ("timeout", "skipped"), "C19": ("policer_sequence", "rate_sequence"),
}
