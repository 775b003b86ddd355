"""Worker: executes scenarios, each in a forked child (hermetic), and reports what happened.

Runs under the repository's Python with simnet.so preloaded.  Protocol: JSON lines on stdin/stdout.
"""
import hashlib
import json
import os
import select
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, os.environ["VERIF_PY"])

import exec as ex  # noqa: E402
import oracle  # noqa: E402
import profiles  # noqa: E402

HANG = 75.0


def signature(r):
    """Abstract history: what was called, what arrived, what was decided. Timings and contents are left out."""
    h = hashlib.sha256()
    for s in r.sessions:
        h.update(b"|%s" % s.cfg["version"].encode())
        for e in s.trace:
            k = e[1]
            if k == "call":
                h.update(b"c" + e[3]["op"].encode())
            elif k == "ret":
                o = e[2]
                h.update(b"r" + (type(o.exc).__name__ if o.exc is not None else type(o.value).__name__).encode())
            elif k == "recv":
                h.update(b"v%d" % min(e[3], 4096).bit_length())
            elif k == "send":
                h.update(b"s%d" % len(e[2]).bit_length())
            else:
                h.update(k[:4].encode())
    return h.hexdigest()[:16]


def child(scen, fd, trace):
    r = ex.run(scen, keep_log=trace)
    out = {"digest": r.digest, "errors": r.sim.errors[:2], "hung": r.hung}
    vs, probes = oracle.judge(scen, r, ex.mods())
    out.update(
        violations=[v.as_dict() for v in vs[:20]], probes=probes, fired=r.net.fired, sim_s=r.sim_s, steps=r.sim.steps,
        switches=r.sim.switches, runnable=r.sim.max_runnable, outcome=ex.outcome_digest(r), sig=signature(r),
        calls=sum(1 for s in r.sessions for e in s.trace if e[1] == "ret"),
        sends=sum(len(s.sent) for s in r.sessions), recvs=sum(1 for s in r.sessions for e in s.trace if e[1] == "recv"),
        versions=sorted({s.cfg["version"] for s in r.sessions}),
    )
    if scen.get("twin") == "tail":
        out["outs"] = ex.outcomes(r)
    if trace:
        out["log"] = r.sim.log
    data = json.dumps(out).encode()
    while data:
        n = os.write(fd, data)
        data = data[n:]


def spawn(scen, trace=False):
    """Run in the child. Returns the summary."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            child(scen, wr, trace)
        except BaseException:  # noqa: BLE001
            try:
                os.write(wr, json.dumps({"errors": [traceback.format_exc()]}).encode())
            except BaseException:  # noqa: BLE001
                code = 9
        os._exit(code)
    os.close(wr)
    buf = []
    end = time.monotonic() + HANG
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([rd], [], [], left)[0]:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        x = os.read(rd, 1 << 20)
        if not x:
            break
        buf.append(x)
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    if hung:
        return {"violations": [viol(oracle.ALL, "hang", "the process hangs: some call never returns")], "digest": "hang"}
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGKILL:
            return {"errors": ["child was killed"]}
        return {"violations": [viol(oracle.ALL, "crash", f"the process is killed by {signal.Signals(sig).name}")], "digest": "crash"}
    try:
        return json.loads(b"".join(buf))
    except ValueError:
        return {"violations": [viol(oracle.ALL, "crash", f"the process exits with status {st} in the middle of a call")], "digest": "crash"}


def viol(tags, cls, msg):
    return {"properties": list(tags), "class": cls, "message": msg, "session": -1, "t_us": 0}


def execute(scen, trace=False):
    """Run the scenario with its twin."""
    r = spawn(scen, trace)
    for _ in range(2):
        if r.get("errors") != ["child was killed"]:
            break
        r = spawn(scen, trace)
    if scen.get("twin") and not r.get("errors") and "outcome" in r:
        tail = scen["twin"] == "tail"
        other = dict(scen, tailxor=0xFF) if tail else dict(scen, poison=scen.get("poison", 0xAA) ^ 0x55)
        r2 = spawn(other)
        if not r2.get("errors"):
            r["twins"] = 1
            if "outcome" in r2:
                if tail:
                    d = tail_dependent(r["outs"], r2["outs"])
                    if d:
                        r["violations"].append(viol(("C16", "C02"), "tail",
                            f"value depends on the octets which follow its element: twin runs, which differ only in those octets, give {d[0]} and {d[1]}"))
                elif r2["outcome"] != r["outcome"]:
                    r["violations"].append(viol(
                        ("C01", "C16", "C17"), "memory",
                        "results depend on the memory past the received datagram: twin runs, which differ only in those octets, end differently"))
            else:
                r["violations"] += r2.get("violations", [])
    return r


def tail_dependent(a, b):
    """First pair of different values before the runs part."""
    for x, y in zip(a, b):
        for (c1, v1), (c2, v2) in zip(x, y):
            if c1 != c2:
                break
            if v1 != v2:
                return v1[:200], v2[:200]
    return None


def batch(req):
    prop = req["prop"]
    acc = {"fired": {}, "probes": {}, "sim_s": 0.0, "steps": 0, "switches": 0, "runs": 0, "calls": 0, "sends": 0, "recvs": 0,
           "twins": 0, "multi": 0, "versions": {}}
    sigs, digests, bad, errors, samples = [], [], [], [], []
    for i in req["idx"]:
        scen = profiles.scenario(prop, req["seed"], i)
        r = execute(scen)
        acc["runs"] += 1 + r.get("twins", 0)
        acc["twins"] += r.get("twins", 0)
        if r.get("errors"):
            errors.append([i, r["errors"]])
            continue
        for k in ("fired", "probes"):
            for n, v in r.get(k, {}).items():
                acc[k][n] = acc[k].get(n, 0) + v
        for k in ("sim_s", "steps", "switches", "calls", "sends", "recvs"):
            acc[k] += r.get(k, 0)
        acc["multi"] += r.get("runnable", 0) > 1
        for v in r.get("versions", ()):
            acc["versions"][v] = acc["versions"].get(v, 0) + 1
        sigs.append([r.get("sig"), r.get("calls", 0), r.get("probes", {})])
        digests.append([i, r.get("digest")])
        vs = r.get("violations") or []
        if vs:
            mine = [v for v in vs if prop in v["properties"]]
            bad.append({"i": i, "mine": mine[:5], "other": [v for v in vs if prop not in v["properties"]][:3]})
    return {"acc": acc, "sigs": sigs, "digests": digests, "bad": bad, "errors": errors}


def main():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(null, 2)
    ex.mods()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            if "scen" in req:
                res = execute(req["scen"], req.get("trace", False))
            elif "gen" in req:
                res = profiles.scenario(*req["gen"])
            else:
                res = batch(req)
        except BaseException:  # noqa: BLE001
            res = {"fatal": traceback.format_exc()}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
