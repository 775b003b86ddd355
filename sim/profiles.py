"""Workload profile of every property."""
import ber
from gen import ARC_EDGES, EOM, G, INT_EDGES, NSI, NSO, NULLH, SKIPPABLE_ERRNOS

DEAD = [NULLH, NSO, NSI, EOM]


def spread(g, sessions):
    """Assign the sessions to the tasks (threads)."""
    if len(sessions) > 1:
        k = g.int(1, len(sessions))
        for s in sessions:
            s["task"] = g.int(0, k - 1)
    return sessions


def world(g, n_sessions=None, version=None, mode=None, mib_n=None, tags=None, agents=None, big=True, **skw):
    """Agents and sessions without operations. Returns (agents, sessions, [(mib, bases)])."""
    na = agents or g.weighted([(1, 5), (2, 1)])
    ags, mibs = [], []
    for _ in range(na):
        mib, bases = g.mib(mib_n, tags=tags, big=big)
        mibs.append((mib, bases))
        ags.append(g.agent(mib))
    n = n_sessions or g.weighted([(1, 6), (2, 2), (3, 1), (4, 0.5)])
    ss = []
    for _ in range(n):
        s = g.session(g.int(0, na - 1), version, mode, **skw)
        g.known_engine(s, ags)
        ss.append(s)
    if n > 1 and g.p(0.5):
        # Twins: same credentials on different sockets
        for s in ss[1:]:
            for k in ("agent", "version", "community", "user", "engine_id"):
                s.pop(k, None)
                if k in ss[0]:
                    s[k] = ss[0][k]
    return ags, spread(g, ss), mibs


def start(g, s, ags, **kw):
    if s["version"] == "v3":
        s["ops"].append(g.enter(s, ags, **kw))


# ---------------------------------------------------------------- C01
def hostile(g, s, ags, op):
    """Hostile emission: may end the call in any documented way."""
    v3 = s["version"] == "v3"
    auth = v3 and "auth" in s["user"]
    priv = auth and "priv" in s["user"]
    k = g.weighted([
        ("garbage", 1.5), ("mut", 3), ("vals", 4), ("names", 1.5), ("shape", 1.5), ("head", 1.5), ("scoped", 3 if v3 else 0), ("usm", 3 if v3 else 0),
        ("report", 1.5 if v3 else 0), ("err", 0.6), ("noise", 1), ("empty", 0.2), ("big", 0.2),
    ])
    d = g.pick([0, 0, g.dly(s["timeout"], 0, 0.5)])
    if k == "garbage":
        return {"k": "bytes", "hex": g.garbage().hex(), "d": d}
    if k == "empty":
        return {"k": "bytes", "hex": "", "d": d}
    if k == "mut":
        return {"k": "reply", "d": d, "mut": g.muts()}
    if k == "err":
        return {"k": "err", "errno": g.pick(SKIPPABLE_ERRNOS + [4]), "d": d}
    if k == "noise":
        return g.noise(s, ags)
    f = {}
    if k == "vals":
        n = g.weighted([(1, 6), (2, 2), (g.int(3, 12), 1)])
        f["vb"] = [[g.pick(["$0", "$0.1", "$b.1", g.oid(), "$0.%d" % i]), g.weird_value() if g.p(0.7) else g.value()] for i in range(n)]
    elif k == "names":
        raw = bytes.fromhex(g.weird_value())
        name = g.weighted([
            (b"\x06\x00", 1), (b"\x06" + ber.enc_len(n := g.int(1, 6)) + g.bytes(n), 3), (raw, 2),
            (b"\x06\x81\x05" + g.bytes(5), 1), (b"\x06\x01\x80", 1), (b"\x06\x02\x2b\x80", 1),
            (b"\x06\x06\x2b\x90\x80\x80\x80\x00", 1), (b"\x06\x05\xff\xff\xff\xff\xff", 1), (b"\x06\x7f", 1), (b"\x0d\x02\x01\x01", 1),
            (b"\x0d\x00", 1), (b"\x06\x82\x04\x00" + b"\x81" * 1024, 0.5), (b"\x06\x82\x03\xe8" + g.bytes(1000), 0.5),
        ])
        if g.p(0.35):
            f["rawvb"] = relative_names(g)
            f["vb"] = [["$0", g.value(big=False)] for _ in range(g.int(0, 1))]
            return {"k": "reply", "d": d, "f": f}
        # Whole varbind is put as a value of an empty name
        f["vb"] = [["$0", g.value(big=False)] for _ in range(g.int(0, 2))]
        f["rawvb"] = (ber.tlv(0x30, name + bytes.fromhex(g.pick([g.value(big=False), NULLH, ""]))) if g.p(0.8) else name).hex()
    elif k == "shape":
        f["vb"] = [["$%d" % g.int(0, 3), g.pick([g.value(big=False)] + DEAD)] for _ in range(g.pick([0, 0, 1, 2, 3, 30]))]
        f["es"] = g.pick([0, 1, 2, 5, 18, 255, 256, 258, -1, 1 << 31, (1 << 63) - 1])
        f["ei"] = g.pick([0, 1, 2, 255, -1, 1 << 31, -(1 << 63)])
        if g.p(0.6):
            f["pdu"] = g.pick([0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xBF, 0x82, 0x30])
    elif k == "head":
        f[g.pick(["rid", "rid"] + (["msgid"] if v3 else []))] = g.rewrite_id()
        if g.p(0.4):
            f["ver"] = g.pick([0, 1, 2, 3, 4, -1, 255, 256, 1 << 33])
        if not v3 and g.p(0.5):
            f["comm"] = g.near(s["community"].encode()).hex()
        f["lf"] = g.pick([0, 1, 2, 3, 4, 5, 8])
    elif k == "scoped":
        f["badscoped"] = g.muts()
        if priv and g.p(0.5):
            f["encpad"] = g.int(0, 40)
    elif k == "usm":
        for _ in range(g.int(1, 3)):
            x = g.pick(["authp", "privp", "flags", "secmodel", "maxsize", "boots", "time", "engine", "user", "enc", "ctx", "ctxname", "salt", "mac", "ver"])
            if x in ("authp", "privp"):
                f[x] = g.bytes(g.pick([0, 1, 7, 8, 9, 11, 12, 13, 16, 127, 128, 200])).hex()
            elif x == "flags":
                f[x] = g.int(0, 255)
            elif x == "secmodel":
                f[x] = g.pick([0, 1, 2, 3, 4, 255, 1 << 32, -1, (1 << 63) - 1])
            elif x == "maxsize":
                f[x] = g.pick([0, 1, 484, -1, 65507, 1 << 31, (1 << 63) - 1, -(1 << 63)])
            elif x in ("boots", "time"):
                f[x] = ["set", g.pick([0, -1, 1, 2147483647, 2147483648, 4294967295, 1 << 32, (1 << 63) - 1, -(1 << 63)])]
            elif x == "engine":
                f[x] = g.bytes(g.pick([0, 1, 4, 5, 12, 31, 32, 33, 127, 128, 300])).hex()
            elif x in ("user", "ctx", "ctxname"):
                f[x] = g.bytes(g.pick([0, 1, 32, 33, 127, 128, 300])).hex()
            elif x == "enc":
                f[x] = g.pick(["clear", "wrongkey", "badlen", "empty"])
            elif x == "salt":
                f[x] = g.bytes(8).hex()
            elif x == "mac":
                f[x] = g.pick(["zero", "rand", "flip", "absent", "short", "long"])
            elif x == "ver":
                f[x] = g.pick([0, 1, 2, 3])
    elif k == "report":
        if g.p(0.5):
            f["vb"] = [[g.oid() if g.p(0.5) else "1.3.6.1.6.3.15.1.1.%d.0" % g.int(1, 6), g.weird_value()] for _ in range(g.int(0, 3))]
        if g.p(0.3):
            f["boots"] = ["set", g.pick([0, -1, 1 << 31, (1 << 63) - 1, -(1 << 63)])]
        if g.p(0.2):
            f["engine"] = g.bytes(g.pick([0, 1, 4, 32, 40, 200])).hex()
        return {"k": "report", "why": g.pick(["timewindow", "user", "engine", "digest", "decrypt"]), "d": d, "f": f, "sec": g.pick([None, "none", "auth", "priv"])}
    elif k == "big":
        f["vb"] = [["$0", ber.tlv(4, bytes(g.pick([3800, 3900, 4000, 4050, 4100, 5000, 60000]))).hex()]]
    return {"k": "reply", "d": d, "f": f}


def relative_names(g):
    """Varbinds whose names are relative to the previous ones, all of them odd."""

    def subs(n):
        return b"".join(ber.base128(g.pick([0, 1, 2, 3, 39, 40, 41, 119, 120, 127, 128, 255, g.pick(ARC_EDGES)])) for _ in range(n))

    names = []
    for i in range(g.int(1, 6)):
        if i == 0 and g.p(0.8) or g.p(0.25):
            c = g.weighted([(b"", 2), (b"\x2b", 2), (b"\x80", 1), (b"\x2b\x86", 1), (b"\xff" * 3, 0.5), (ber.oid_content(g.rarcs()), 4), (b"\x2b" + subs(g.int(0, 4)), 2)])
            names.append(ber.tlv(6, c, g.lf()))
        else:
            c = g.weighted([(b"", 1.5), (subs(g.int(1, 3)), 4), (subs(g.int(3, 12)), 3), (g.bytes(g.int(1, 6)), 2), (b"\x80", 0.7), (bytes([g.int(0, 255), g.int(0, 255)]), 2),
                            (bytes([g.pick([2, 3, 5, 6, 7, 255]), g.pick([39, 40, 47, 48, 175, 176, 255])]) + subs(g.int(0, 3)), 2), (b"\x81" * g.int(1, 200), 0.3)])
            names.append(ber.tlv(13, c, g.lf()))
    return b"".join(ber.tlv(0x30, n + bytes.fromhex(g.value(big=False) if g.p(0.7) else g.pick(DEAD))) for n in names).hex()


def c01(g):
    ags, ss, mibs = world(g, mib_n=g.pick([0, 3, 10]), big=False)
    for s in ss:
        s["timeout"] = g.pick([0.05, 0.3])
        mib, bases = mibs[s["agent"]]
        if s["version"] == "v3":
            op = g.enter(s, ags, clean=1)
            if g.p(0.35):
                op["emits"] = [[hostile(g, s, ags, op)] + ([{"k": "reply", "d": 3000}] if g.p(0.7) else []) for _ in range(2)]
                s["ops"].append(op)
                op = {"op": "refresh"}
            s["ops"].append(op)
        for _ in range(g.int(1, 8)):
            op = g.read_op(s, mib, bases)
            if g.p(0.08):
                op = {"op": "refresh"}
            op["max"] = 8
            em = [hostile(g, s, ags, op)]
            while g.p(0.3):
                em.append(hostile(g, s, ags, op))
            if g.p(0.6):
                em.append(g.good(s, d=3000))
            ems = [em]
            if op["op"] in ("getnext", "getbulk", "fetch"):
                # Hostile step in the middle of the walk
                pre = [[{"k": "reply", "f": {"vb": [["$0.%d" % g.int(0, 3), g.value(big=False)]]}}] for _ in range(g.int(0, 2))]
                ems = pre + ems
                op["retry"] = g.int(0, 2)
            op["emits"] = ems
            if g.p(0.05) and s["mode"] == "async":
                op["cancel"] = g.dly(s["timeout"], 0, 1)
            s["ops"].append(op)
    return g.scen(ags, ss, twin=g.p(0.5))


def bad_name(g):
    """Name which is not an encoding of an OID, or which is a padded one."""
    n = g.int(1, 6)
    return g.weighted([
        (b"\x06\x00", 1), (b"\x06" + ber.enc_len(n) + g.bytes(n), 3), (b"\x06\x81\x05" + g.bytes(5), 1), (b"\x06\x01\x80", 1), (b"\x06\x02\x2b\x80", 1),
        (b"\x06\x06\x2b\x90\x80\x80\x80\x00", 1), (b"\x06\x05\xff\xff\xff\xff\xff", 1), (b"\x06\x06\x80\x2b\x06\x01\x02\x01", 1),
        (b"\x06\x05\x80\x80\x2b\x06\x01", 1), (b"\x06\x05\x2b\x06\x80\x01\x02", 1), (b"\x06\x05\x88\x37\x06\x01\x02", 1),
    ])


def odd_walk(g, s, mib, bases):
    """Walk through names at the edges of the encoding, some of them malformed."""
    op = g.read_op(s, mib, bases)
    while op["op"] not in ("getnext", "getbulk", "fetch"):
        op = g.read_op(s, mib, bases)
    op["max"] = 6
    op["retry"] = g.int(0, 1)
    if g.p(0.3):
        # Wide subtree: names of any first subidentifier stay inside of it
        op["oid"] = g.pick(["0.0", "1.3", "2.39", "2.5", "1.3.6", op["oid"]])
    ems = []
    for _ in range(g.int(1, 4)):
        f = {}
        n = g.int(1, 4) if op["op"] != "getnext" else 1
        a = g.pick(["$0", "$b"])
        f["vb"] = [["%s.%d" % (a, g.pick(ARC_EDGES)) if g.p(0.7) else a + "".join(".%d" % g.pick(ARC_EDGES) for _ in range(g.int(1, 6))), g.value(big=False)]
                   for _ in range(n)]
        if g.p(0.4):
            f["rawvb"] = ber.tlv(0x30, bad_name(g) + bytes.fromhex(g.value(big=False))).hex()
            if g.p(0.6):
                f["vb"] = f["vb"][1:]
        ems.append([{"k": "reply", "f": f}])
    op["emits"] = ems
    return op


def crowd(g, root):
    """Hundreds of small varbinds in one reply, all of them different."""
    n = g.pick([63, 64, 65, 127, 128, 129, 199, 200, 201, 255, 256, 257, g.int(30, 330)])
    at = g.int(0, 100)
    step = g.pick([1, 1, 2, 40])
    dead = g.pick([0, 0, 0.02, 0.2])
    out = []
    for _ in range(n):
        out.append(["%s.%d" % (root, at) if not g.p(0.1) else "%s.%d.%d" % (root, at, g.int(0, 127)),
                    g.weighted([("020101", 3), (ber.enc_int(g.int(-128, 127)).hex(), 4), ("0400", 1), ("0101ff", 1), ("0900", 0.5)]) if not g.p(dead) else g.pick(DEAD)])
        at += g.int(1, step)
    return out


# ---------------------------------------------------------------- C02
def c02(g):
    tags = None if g.p(0.7) else g.pick([[2], [0x46, 0x42], [6], [9], [4], [1, 7, 0x44, 0x40]])
    ags, ss, mibs = world(g, mib_n=g.pick([3, 10, 30]), tags=tags)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        start(g, s, ags)
        for _ in range(g.int(3, 10)):
            op = g.read_op(s, mib, bases, many=25)
            f = {}
            if g.p(0.3):
                f["lf"] = g.pick([1, 2, 3, 4])
            if g.p(0.3):
                f["vblf"] = [g.pick([0, 0, 1, 2, 3, 4]) for _ in range(g.int(1, 4))]
            k = g.r.random()
            if op["op"] == "get_many" and k < 0.6:
                # Any values at any position
                f["vb"] = [[g.oid(), g.value() if g.p(0.85) else g.pick(DEAD)] for _ in range(g.int(1, 25))]
                if g.p(0.12):
                    f["vb"] = crowd(g, "1.3")
            elif op["op"] == "get" and k < 0.5:
                f["vb"] = [["$0" if g.p(0.7) else g.oid(), g.value()]]
            elif op["op"] in ("getnext", "fetch", "getbulk") and k < 0.5:
                f["vb"] = [["$0.%d" % (i + 1), g.value(big=False)] for i in range(g.int(1, 12) if op["op"] == "getbulk" else 1)]
                if op["op"] == "getbulk" and g.p(0.15):
                    f["vb"] = crowd(g, "$b" if len(op["oid"]) < 12 else "$0")
            op["emit"] = [{"k": "reply", "f": f}]
            if g.p(0.1):
                op["emit"] = [g.noise(s, ags)] + op["emit"]
            s["ops"].append(op)
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C03
def odd_op(g, s, mib, bases):
    """Call, which leaves dirt in the pooled buffers: huge, failing, answered with garbage."""
    k = g.int(0, 4)
    if k == 0:
        return {"op": "get_many", "oids": [g.oid(g.int(20, 60)) for _ in range(g.int(50, 120))], "emits": [[]]}
    if k == 1:
        return {"op": "get_many", "oids": [g.oid(10) for _ in range(g.int(1, 30))] + [g.pick(["1", "1.3.x", "", "3.1", "1.3.4294967296"])]}
    if k == 2:
        return {"op": "get", "oid": g.target(mib, bases), "emits": [[{"k": "bytes", "hex": g.garbage().hex()}]]}
    if k == 3:
        return {"op": "get", "oid": g.oid(), "emits": [[{"k": "reply", "f": {"vb": [["$0", ber.tlv(4, b"\xa5" * g.int(0, 3500)).hex()]]}}]]}
    return {"op": "get_many", "oids": [g.oid() for _ in range(g.int(1, 40))], "emits": [[{"k": "senderr", "errno": g.pick([111, 105, 101])}]]}


def c03(g):
    ags, ss, mibs = world(g, mib_n=g.pick([2, 10]), big=False)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        start(g, s, ags)
        for _ in range(g.weighted([(g.int(2, 10), 6), (g.int(20, 60), 1)])):
            if g.p(0.25):
                op = odd_op(g, s, mib, bases)
            elif g.p(0.2):
                op = odd_walk(g, s, mib, bases)
            else:
                op = g.read_op(s, mib, bases, many=30)
                if op["op"] == "getbulk" and g.p(0.6):
                    op["mr"] = g.pick([1, 2, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 2147483647])
                if op["op"] in ("get", "get_many") and g.p(0.5):
                    if op["op"] == "get":
                        op["oid"] = g.oid()
                    else:
                        op["oids"] = [g.oid() for _ in op["oids"]]
                        if g.p(0.1):
                            # Lots of short names
                            n = g.pick([63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, g.int(30, 340)])
                            op["oids"] = ["1.3" + (".%d" % g.int(0, 127)) * g.int(0, 2) for _ in range(n)]
                if g.p(0.2):
                    op["emit"] = [{"k": "reply", "f": {"boots": ["set", g.pick(g.BOOTS + INT_EDGES)], "time": ["set", g.pick(g.BOOTS + INT_EDGES)]}}] if s["version"] == "v3" else []
                    op["max"] = 3
                elif g.p(0.3):
                    op["emits"] = g.emissions(s, ags, 2)
            s["ops"].append(op)
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C04
def c04(g):
    ags, ss, mibs = world(g, mib_n=g.pick([3, 10]), big=False)
    kinds = [("forge", g.pick([1, 5])), ("stale", g.pick([1, 5])), ("reflect", g.pick([0, 1])), ("cross", g.pick([0, 1])), ("report", 0.3),
             ("garbage", g.pick([0, 0, 0.5])), ("mut", g.pick([0, 0, 0.5])), ("ver", g.pick([0, 0, 0.5]))]
    kw = {"noise": g.pick([0.2, 0.5, 0.7]), "loss": g.pick([0, 0.1, 0.4]), "late": g.pick([0, 0.1, 0.5]), "dup": g.pick([0, 0.3, 0.8]), "kinds": kinds}
    for s in ss:
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, **kw)
        if len(mib) > 1 and g.p(0.3):
            # Counter, which changes with every request
            o = g.pick(mib)[0]
            for i in range(g.int(3, 12)):
                s["ops"].append({"op": "get", "oid": o, "ev": [[["mib", [[o, ber.enc_int(1000 + i).hex()]]]]],
                                 "emits": [g.emission(s, ags, **kw)]})
            continue
        for _ in range(g.int(3, 12)):
            op = g.read_op(s, mib, bases)
            op["emits"] = g.emissions(s, ags, 6, **kw)
            if g.p(0.05):
                op["emits"][g.pick([0, 0, 1])] = g.swarm(s, ags)
            if op["op"] in ("getnext", "getbulk", "fetch"):
                op["retry"] = g.int(0, 3)
            if s["mode"] == "async" and g.p(0.1):
                op["cancel"] = g.dly(s["timeout"], 0, 1)
            s["ops"].append(op)
            if g.p(0.1):
                s["ops"].append({"op": "sleep", "us": g.dly(s["timeout"], 0, 3)})
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C05
def long_table(g):
    """MIB of some hundreds of small entries, whose varbinds fit the receive buffer together."""
    root = (1, 3) + tuple(g.int(0, 127) for _ in range(g.int(0, 3)))
    n = g.pick([130, 260, g.int(100, 330)])
    step = g.pick([1, 1, 3, 120])
    at = g.int(0, 300)
    out = []
    for _ in range(n):
        out.append((root + (at,), ber.enc_int(g.int(-128, 127)).hex()))
        at += g.int(1, step)
    if g.p(0.5):
        out.append((root[:-1] + (root[-1] + 1,), "020107"))
    return [[ber.oid_text(k), v] for k, v in out], [ber.oid_text(root), ber.oid_text(root[:-1] if len(root) > 2 else root)]


def c05(g):
    ags, ss, mibs = world(g, n_sessions=g.weighted([(1, 3), (2, 3), (4, 1)]), mib_n=None, big=False)
    quiet = g.p(0.5)
    table = g.p(0.12)
    for i, a in enumerate(ags):
        a["lax"] = True
        if table:
            # Long table of small values, which goes in the replies of hundreds of varbinds
            a["mib"], bases = long_table(g)
            mibs[i] = (a["mib"], bases)
            a["maxbytes"] = g.pick([1500, 3000, 3800])
            a["cap"] = g.pick([100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 65536])
        elif g.p(0.5):
            a["cap"] = g.pick([1, 2, 3, 4, 7, 19, 20, 21])
    for s in ss:
        s["timeout"] = g.pick([1.0, 10.0])
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, clean=1)

        def em():
            out = []
            if not quiet and g.p(0.4):
                n = g.noise(s, ags, [("forge", 2), ("stale", 3), ("reflect", 0.5)])
                n.pop("d", None)
                if n["k"] == "reflect" and n["back"] == 0:
                    n["back"] = 1
                out.append(n)
            e = {"k": "reply"}
            if g.p(0.2):
                e["d"] = g.dly(s["timeout"], 0, 0.5)
            if not quiet and g.p(0.2):
                e["dup"] = [g.pick([0, 10, 1000, 100000])]
            out.append(e)
            return out

        def walk():
            kind = g.pick(["getnext", "getbulk", "fetch"])
            if s["version"] == "v1" and kind == "getbulk":
                kind = "getnext"
            w = {"kind": kind, "oid": g.base(mib, bases), "strict": True}
            if kind == "getbulk" and g.p(0.8):
                w["mr"] = g.weighted([(g.int(1, 12), 0 if table else 5), (g.pick([20, 50, 126, 127, 128, 129, 255, 256, 257, 1000, 65535]), 1)])
            return w

        if s["version"] == "v3" and g.p(0.5):
            # No stale reply of the discovery phases is possible
            pass
        if g.p(0.4):
            # Interleaved iterators
            n = g.int(2, 4)
            for i in range(n):
                s["ops"].append(dict(walk(), op="iter", it=i))
            for _ in range(g.int(2, 30)):
                s["ops"].append({"op": "next", "it": g.int(0, n - 1), "n": g.int(1, 8), "emits": [em() for _ in range(4)]})
                if g.p(0.1):
                    s["ops"].append({"op": "get", "oid": g.target(mib, bases)})
            for i in range(n):
                s["ops"].append({"op": "next", "it": i, "n": 1000})
        else:
            for _ in range(g.int(1, 4)):
                w = walk()
                w["op"] = w.pop("kind")
                w["emits"] = [em() for _ in range(6)]
                s["ops"].append(w)
                if g.p(0.2):
                    s["ops"].append({"op": "get", "oid": g.target(mib, bases)})
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C06
def walk_reply(g, bulk):
    """Reply of an agent, which does what it wants."""

    def name():
        return g.weighted([
            ("$0.%d" % g.int(0, 300), 6), ("$b.%d" % g.int(0, 5), 2), ("$b.%d.%d" % (g.int(0, 3), g.int(0, 300)), 2), ("$0", 1.2), ("$b", 0.7),
            ("$p.%d" % g.int(0, 300), 1), ("$p", 0.2), (g.oid(), 0.7), ("$b.%d" % g.pick(ARC_EDGES), 1), ("$0.%d" % g.pick(ARC_EDGES), 1),
            ("1.3", 0.2), ("2.39.1", 0.2), ("0.0", 0.2),
        ])

    def val():
        return g.value(big=False) if g.p(0.9) else g.pick(DEAD)

    k = g.r.random()
    if k < 0.05:
        return []
    if k < 0.1:
        return [[g.pick(["$0", "$0.1", "$b.1", "$p.1"]), g.pick(DEAD)] for _ in range(g.int(1, 3) if bulk else 1)]
    if bulk:
        if g.p(0.03):
            out = crowd(g, g.pick(["$0", "$b"]))
            if g.p(0.4):
                # The reason to stop is far in the list
                out.insert(g.int(0, len(out)), [name(), val()])
            return out
        n = g.weighted([(1, 2), (g.int(2, 6), 5), (g.int(7, 30), 1)])
        if g.p(0.6):
            # Mostly increasing
            base = g.pick(["$0", "$0", "$b.%d" % g.int(0, 40)])
            start = g.int(0, 100)
            out = []
            for i in range(n):
                start += g.weighted([(1, 6), (0, 0.3), (-1, 0.3), (g.int(1, 200), 2)])
                out.append(["%s.%d" % (base, max(0, start)), val()])
            if g.p(0.35):
                out.insert(g.int(0, len(out)), [name(), val()])
            if g.p(0.2):
                out.insert(g.int(0, len(out)), [g.pick(["$0.1", "$b.1", "$p.9", "$0"]), g.pick(DEAD)])
            if g.p(0.2):
                out += [[out[-1][0], EOM]] * g.int(1, 3)
            return out
        return [[name(), val()] for _ in range(n)]
    if g.p(0.05):
        return [[name(), val()] for _ in range(2)]
    return [[name(), val()]]


def c06(g):
    ags, ss, mibs = world(g, mib_n=g.pick([0, 5, 30]), big=False)
    loss = g.pick([0, 0, 0.1, 0.25])
    for s in ss:
        s["timeout"] = g.pick([0.05, 0.5])
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, clean=1)

        def em(bulk):
            out = []
            if g.p(0.15):
                out.append(g.noise(s, ags))
            if not g.p(loss):
                if g.p(0.25):
                    out.append(g.good(s))
                else:
                    f = {"vb": walk_reply(g, bulk)}
                    if g.p(0.1):
                        f["es"] = g.pick([2, 5, 13])
                    if g.p(0.04):
                        f["rawvb"] = ber.tlv(0x30, bad_name(g) + bytes.fromhex(g.value(big=False))).hex()
                        if g.p(0.5):
                            f["vb"] = []
                    out.append({"k": "reply", "f": f})
            return out

        def walk():
            kind = g.pick(["getnext", "getbulk", "fetch"])
            if s["version"] == "v1" and kind == "getbulk":
                kind = "getnext"
            bulk = kind == "getbulk" or (kind == "fetch" and s["version"] != "v1" and s.get("allow_bulk", True))
            w = {"kind": kind, "oid": g.base(mib, bases)}
            if kind == "getbulk" and g.p(0.8):
                w["mr"] = g.pick([1, 2, 3, 5, 10, 40])
            return w, bulk

        if g.p(0.35):
            n = g.int(2, 3)
            ws = [walk() for _ in range(n)]
            for i, (w, b) in enumerate(ws):
                s["ops"].append(dict(w, op="iter", it=i))
            for _ in range(g.int(3, 20)):
                i = g.int(0, n - 1)
                s["ops"].append({"op": "next", "it": i, "n": g.int(1, 6), "emits": [em(ws[i][1]) for _ in range(4)], "retry": g.int(0, 1)})
        else:
            for _ in range(g.int(1, 5)):
                w, b = walk()
                w["op"] = w.pop("kind")
                w["emits"] = [em(b) for _ in range(g.int(1, 10))]
                if g.p(0.15):
                    # The agent which repeats the same forever
                    w["emit"] = [{"k": "reply", "f": {"vb": walk_reply(g, b)}}]
                w["retry"] = g.int(0, 3)
                w["max"] = g.pick([5, 40, 200])
                if s["mode"] == "async" and g.p(0.1):
                    w["cancel"] = g.dly(s["timeout"], 0, 1)
                s["ops"].append(w)
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C07
def c07(g):
    ags, ss, mibs = world(g, mib_n=g.pick([2, 10]), big=False)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        v3 = s["version"] == "v3"
        start(g, s, ags, clean=1)

        def val():
            return g.weighted([(g.value(big=False), 5), (NULLH, 1), (NSO, 1), (NSI, 1), (EOM, 1)])

        for _ in range(g.int(3, 14)):
            many = g.p(0.5)
            n = g.int(1, 8)
            oids = [g.target(mib, bases) for _ in range(n)]
            op = {"op": "get_many", "oids": oids} if many else {"op": "get", "oid": oids[0]}
            k = g.r.random()
            e = {"k": "reply"}
            f = {}
            if v3 and k < 0.25:
                e = {"k": "report", "why": g.pick(["timewindow", "user", "engine", "digest", "decrypt"]), "sec": g.pick([None, "none", "auth", "priv"])}
                if g.p(0.3):
                    f["vb"] = [[g.oid(), val()] for _ in range(g.int(0, 3))]
            elif k < 0.35:
                f["vb"] = []
            elif k < 0.75:
                cnt = g.weighted([(1, 4), (n, 3), (g.int(2, 4), 2)]) if not many else g.weighted([(n, 4), (g.int(0, 12), 3)])
                f["vb"] = [[g.pick(["$%d" % i, "$%d" % i, g.oid()]), val()] for i in range(cnt)]
                if g.p(0.2) and f["vb"]:
                    f["vb"].append(g.pick(f["vb"]))
            elif k < 0.85:
                f["vbmap"] = [g.int(0, n - 1) for _ in range(g.int(0, n + 2))]
            if g.p(0.25):
                f["es"] = g.pick([0, 1, 2, 3, 5, 13, 16, 18])
                f["ei"] = g.int(0, 3)
            if f:
                e["f"] = f
            op["emits"] = [[e]]
            if g.p(0.2):
                op["emits"][0].insert(0, g.noise(s, ags))
            s["ops"].append(op)
            if v3 and g.p(0.1):
                s["ops"].append({"op": "refresh", "emits": [[{"k": "report", "why": g.pick(["timewindow", "user"]), "sec": g.pick([None, "auth", "priv", "none"])}]]})
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C08
BAD_OIDS = [
    "", ".", "1", "1.", "1..3", "1.3.", "1.3..6", "a", "a.b", "1.a", "1.3.6.x", "1.3.-1", "-1.3", "1.-3", "+1.3", "1.+3", "1.3.+6", " 1.3", "1.3 ", "1. 3",
    "1.3\n", "1.3\t6", "1,3", "1.3,6", "1/3", "1.3.6\x00", "1.3\x00.6", "0x1.3", "1.0x3", "1e1.3", "1.3e0", "3.1", "3.0", "3", "4.1.1", "10.1", "1.40", "0.40",
    "1.47", "1.100", "0.128", "1.256", "1.295", "1.4294967295", "1.4294967296", "0.4294967297", "255.1", "256.1", "257.3.6", "4294967296.1", "4294967297.3", "1.3.4294967296",
    "1.3.4294967297", "1.3.6.8589934593", "1.3.18446744073709551616", "1.3.18446744073709551617", "1.3.99999999999999999999999", "1.3.6.1.2.1.4294967296.1", "1.3.0.4294967299",
    "\u0661.\u0663", "1.\u0663", "1.3.\u00b2", "\uff11.\uff13", "1.3.6.1\u200b", "iso.3", "1.3.6_1", "1.3.1_0", "2.40.1", "2.100.3", "2.999", "2.47", "2.48", "2.4294967295",
    "1.3.6.1.", "..1.3", "1.3.6.1..", "1.3.6.1.2.1.1.1.0.", "1.3.(6)", "#1.3", "1:3", "1.3;", "1.3.6.1e", "1.3.6.NaN", "1.3.6.inf", "1.3.1.5.",
]


def c08(g):
    ags, ss, mibs = world(g, mib_n=g.pick([3, 10]), tags=[6, 2] if g.p(0.5) else None, big=False)

    def text():
        k = g.r.random()
        if k < 0.45:
            return g.pick(BAD_OIDS)
        if k < 0.9:
            n = g.weighted([(0, 1), (1, 1), (g.int(2, 12), 5), (g.int(13, 128), 1), (g.int(129, 600), 0.2)])
            return g.oid(n)
        # Almost an OID
        t = g.oid(g.int(0, 6))
        i = g.int(0, len(t))
        if g.p(0.3):
            # Any sign, which is not of the OID
            c = chr(g.pick([g.int(33, 126), g.int(33, 126), g.int(0, 32), g.int(127, 255), 0x660 + g.int(0, 9), 0xFF10 + g.int(0, 9), 0x2024, 0xFF0E, 0x3002, 0x200B, 0xFEFF]))
            if g.p(0.5):
                # At the edge of an arc
                i = g.pick([j for j in range(len(t) + 1) if j in (0, len(t)) or "." in (t[j], t[j - 1])])
            return t[:i] + c + t[i:]
        c = g.pick([".", "..", " ", "-", "+", "0", "00", "9999999999", "x", "\x00", "\n", "4294967296"])
        return t[:i] + c + t[i:]

    for s in ss:
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, clean=1)
        for _ in range(g.int(4, 16)):
            k = g.weighted([("get", 4), ("get_many", 3), ("getnext", 2), ("getbulk", 1), ("fetch", 1)])
            if s["version"] == "v1" and k == "getbulk":
                k = "getnext"
            if k == "get":
                op = {"op": k, "oid": text()}
            elif k == "get_many":
                n = g.int(1, 6)
                op = {"op": k, "oids": [text() if g.p(0.3) else g.oid() for _ in range(n)]}
            else:
                op = {"op": k, "oid": text(), "max": 4}
                if g.p(0.5):
                    op["emit"] = [{"k": "reply", "f": {"vb": [["$0.%d" % g.pick(ARC_EDGES), g.value(big=False, tag=6)]]}}]
            if k in ("get", "get_many") and g.p(0.6):
                # Received names and values
                op["emit"] = [{"k": "reply", "f": {"vb": [[g.oid() if k == "get_many" else "$0", g.value(big=False, tag=6)] for _ in range(1 if k == "get" else g.int(1, 6))]}}]
            s["ops"].append(op)
    return g.scen(ags, ss)


# ---------------------------------------------------------------- USM
def v3_world(g, auth=None, priv=None, **kw):
    ags, ss, mibs = world(g, version="v3", mib_n=g.pick([2, 8]), big=False, **kw)
    twins = len(ss) > 1 and all(s.get("user") is ss[0]["user"] for s in ss)
    u0 = g.user(auth, priv)
    for s in ss:
        s["user"] = u0 if twins else g.user(auth, priv)
    return ags, ss, mibs


def agent_events(g, n, heavy=0.3):
    """Life of the authoritative engine."""
    out = []
    for _ in range(n):
        ev = []
        if g.p(heavy):
            k = g.weighted([("reboot", 3), ("skew", 3), ("set", 2)])
            if k == "reboot":
                ev.append(["reboot", g.pick([1, 1, 2, 100])])
            elif k == "skew":
                ev.append(["skew", g.pick([1, -1, 10, 149, 150, 151, 200, -200, 100000])])
            else:
                b, t = g.boots_time()
                ev.append(["set", b, t])
        out.append(ev)
    return out


def usm_ops(g, s, ags, mib, bases, n, noise=0.15, loss=0.05, events=0.1, walks=True, kinds=None, many=8, dirt=0.05):
    for _ in range(n):
        if g.p(dirt):
            op = odd_op(g, s, mib, bases)
        elif g.p(0.08):
            op = {"op": "refresh"}
        elif g.p(0.04):
            op = {"op": "engine_id"}
        else:
            op = g.read_op(s, mib, bases, walks=walks, many=many)
        if "emits" not in op:
            op["emits"] = g.emissions(s, ags, 3, noise=noise, loss=loss, kinds=kinds)
        if events:
            op["ev"] = agent_events(g, 3, events)
        if op["op"] in ("getnext", "getbulk", "fetch"):
            op["retry"] = g.int(0, 2)
        if s["mode"] == "async" and g.p(0.04):
            op["cancel"] = g.dly(s["timeout"], 0, 1)
        s["ops"].append(op)
        if g.p(0.05):
            s["ops"].append({"op": "sleep", "us": g.pick([1000000, 149000000, 151000000, 3600000000])})


def usm_profile(g, auth=None, priv=None, long=0.15, **kw):
    ags, ss, mibs = v3_world(g, auth, priv)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        if "engine_id" not in s or g.p(0.85):
            op = g.enter(s, ags, clean=0.7, noise=0.2)
            if g.p(0.3):
                op["ev"] = agent_events(g, 2, 0.5)
            s["ops"].append(op)
            if "emits" in op:
                s["ops"].append({"op": "refresh"})
        n = g.int(25, 80) if g.p(long) else g.int(2, 12)
        usm_ops(g, s, ags, mib, bases, n, **kw)
    return g.scen(ags, ss)


def c09(g):
    return usm_profile(g, auth=g.p(0.9), noise=0.1, dirt=0.1, many=30)


def c10(g):
    kinds = [("forge", 6), ("stale", 1), ("reflect", 0.3), ("report", 0.4)]
    ags, ss, mibs = v3_world(g, auth=True)
    for s in ss:
        s["timeout"] = g.pick([0.05, 0.5])
        mib, bases = mibs[s["agent"]]
        clean = g.p(0.7)
        s["ops"].append(g.enter(s, ags, clean=1 if clean else 0, noise=0.6))
        if not clean:
            s["ops"].append({"op": "refresh"})
        for _ in range(g.int(3, 12)):
            op = g.read_op(s, mib, bases)
            ems = []
            for _ in range(3):
                em = []
                for _ in range(g.int(1, 3)):
                    f = g.forge(s, ags, kinds={"mac", "noauth", "authp", "clear", "wrongkey"})
                    n = {"k": "reply", "f": f}
                    if g.p(0.7):
                        f["vb"] = g.other_vb()
                    if g.p(0.15):
                        f["boots"] = ["set", g.pick(g.BOOTS)]
                        f["time"] = ["set", g.pick(g.BOOTS)]
                    if g.p(0.1):
                        # Somebody else's user with a valid MAC of his own
                        f["user"] = g.near(s["user"]["name"].encode()).hex()
                        f.pop("mac", None)
                    em.append(n)
                if g.p(0.2):
                    em.append(g.noise(s, ags, kinds))
                if g.p(0.7):
                    em.append(g.good(s, d=g.dly(s["timeout"], 0.01, 0.5)))
                if g.p(0.03):
                    em = g.swarm(s, ags, dict(em[0]))
                ems.append(em)
            op["emits"] = ems
            op["retry"] = g.int(0, 1)
            s["ops"].append(op)
    return g.scen(ags, ss)


def c11(g):
    scen = usm_profile(g, auth=True, priv=True, noise=0.1, dirt=0.12, many=20)
    for s in scen["sessions"]:
        des = s["user"]["priv"]["alg"] == "des"
        for op in s["ops"]:
            if op["op"] in ("get", "get_many") and g.p(0.35):
                f = {}
                if g.p(0.6):
                    n = 1 if op["op"] == "get" else g.int(1, 20)
                    f["vb"] = [["$%d" % i, g.value()] for i in range(n)]
                if not des and g.p(0.4):
                    f["encpad"] = g.int(0, 15)
                if g.p(0.3):
                    f["salt"] = g.pick([bytes(8), b"\xff" * 8, g.bytes(8)]).hex()
                op["emits"] = [[{"k": "reply", "f": f}]]
    return scen


def c12(g):
    r = g.r.random()
    if r < 0.55:
        ags, ss, mibs = v3_world(g, auth=True, n_sessions=g.int(1, 4))
        for s in ss:
            mib, bases = mibs[s["agent"]]
            ags[s["agent"]]["lax"] = True
            if "engine_id" not in s or g.p(0.6):
                s["ops"].append({"op": "enter"})
            for _ in range(g.int(1, 3)):
                s["ops"].append(g.read_op(s, mib, bases, walks=False))
        if g.p(0.2):
            # The agent is replaced: the keys still belong to the discovered engine
            ss[-1]["ops"].append({"op": "get", "oid": "1.3.6", "ev": [[["engine", g.engine()]]]})
        return g.scen(ags, ss)
    ags, ss, mibs = world(g, n_sessions=1, version="v2c", mode="sync", mib_n=1)
    done = []
    for _ in range(g.int(1, 8)):
        op = key_op(g)
        old = g.pick(done) if done and g.p(0.35) else None
        if old and old["op"] == op["op"]:
            # The same secrets in the other context
            if op["op"] == "raw_v3":
                for a in [op["args"]] + ([op["set"]] if "set" in op else []):
                    for k in ("auth_key", "priv_key", "auth_alg", "priv_alg", "engine"):
                        if k in a and g.p(0.5):
                            a[k] = old["args"][k]
            else:
                for k in ("passwd", "key", "engine"):
                    if k in op and "rep" not in op and g.p(0.6):
                        op[k] = old[k]
        done.append(op)
        ss[0]["ops"].append(op)
    return g.scen(ags, ss)


def key_op(g):
    k = g.weighted([("master_key", 2), ("localized_key", 3), ("raw_v3", 3)])
    alg = g.pick(["md5", "sha1"])
    size = 16 if alg == "md5" else 20
    if k == "master_key":
        n = g.weighted([(0, 0.7), (1, 1), (g.int(2, 40), 5), (g.pick([63, 64, 65, 127, 128, 255, 256, 1000, 4096, 10007]), 2)])
        p = g.bytes(n)
        op = {"op": k, "alg": alg, "passwd": p.hex()}
        if g.p(0.03):
            op["passwd"] = g.bytes(7).hex()
            op["rep"] = g.pick([149796, 149797, 150000, 300000])
        if g.p(0.2):
            del op["alg"]
            op["alg_code"] = g.pick([1, 2, 3, 4, 63, 65, 66, 67, 129, 130, 193, 194, 255, 17, 18, 33, 34, 49, g.int(0, 255)])
        return op
    if k == "localized_key":
        n = g.weighted([(size, 6), (g.pick([0, 1, size - 1, size + 1, 16, 20, 32, 64]), 2)])
        e = g.bytes(g.weighted([(g.int(5, 32), 5), (g.pick([0, 1, 4, 33, 63, 64, 65, 128, 255, 256, 1000]), 2)]))
        op = {"op": k, "alg": alg, "key": g.bytes(n).hex(), "engine": e.hex()}
        if g.p(0.2):
            del op["alg"]
            op["alg_code"] = g.pick([1, 2, 3, 4, 63, 65, 66, 67, 129, 130, 193, 194, 255, 17, 18, 33, 34, 49, g.int(0, 255)])
        return op

    def args():
        code = g.weighted([(1, 4), (2, 4), (0, 1), (3, 0.5), (g.int(0, 63), 0.5)])
        size = {1: 16, 2: 20}.get(code, 16)
        t = g.weighted([(0, 2), (1, 2), (2, 2), (3, 0.4)])
        pcode = g.weighted([(0, 2), (1, 3), (2, 3), (3, 0.5), (g.int(0, 63), 0.5)])
        pt = g.weighted([(0, 2), (1, 2), (2, 2), (3, 0.4)])

        def key(tt):
            if tt == 0:
                return g.bytes(g.weighted([(0, 1), (g.int(1, 30), 4)])).hex()
            return g.bytes(g.weighted([(size, 6), (g.pick([0, 1, 7, 8, 15, 16, 17, 19, 20, 21, 32]), 3)])).hex()

        return {"engine": g.engine(), "user": "u", "auth_alg": code | t << 6, "auth_key": key(t), "priv_alg": pcode | pt << 6, "priv_key": key(pt)}

    op = {"op": "raw_v3", "args": args()}
    if g.p(0.15):
        op["args"]["engine"] = g.pick(["", "80", "8000", "00" * 5, "ff" * 12, "80" + "00" * 31])
    if g.p(0.7):
        op["send"] = g.int(1, 2)
    if g.p(0.3):
        op["set"] = args()
    return op


def c13(g):
    ags, ss, mibs = v3_world(g)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        if g.p(0.8):
            s.pop("engine_id", None)
        if "engine_id" not in s or g.p(0.6):
            op = {"op": g.pick(["enter", "refresh"])}
            if g.p(0.35):
                op["emits"] = g.emissions(s, ags, 2, noise=0.3, loss=0.2)
                op["ev"] = agent_events(g, 2, 0.5)
                s["ops"].append(op)
                op = {"op": "refresh"}
            if g.p(0.3):
                op["ev"] = agent_events(g, 2, 0.6)
            s["ops"].append(op)
        s["ops"].append({"op": "engine_id"})
        usm_ops(g, s, ags, mib, bases, g.int(3, 14), noise=0.2, loss=0.08, events=0.35)
        for op in s["ops"]:
            if op["op"] in ("get", "get_many") and g.p(0.25):
                f = {"boots": ["set", g.pick(g.BOOTS)], "time": ["set", g.pick(g.BOOTS)]}
                if g.p(0.4):
                    # Forged time, which must not be used
                    f = dict(g.forge(s, ags), **f)
                op["emits"] = [[{"k": "reply", "f": f}] + ([g.good(s, d=2000)] if g.p(0.5) else [])]
        s["ops"].append({"op": "engine_id"})
    return g.scen(ags, ss)


def c14(g):
    scen = usm_profile(g, auth=True, priv=True, long=0.4, noise=0.1, dirt=0.15, events=0.15)
    return scen


# ---------------------------------------------------------------- C15
def c15(g):
    ags, ss, mibs = world(g, mib_n=g.pick([1, 5]), big=False)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, clean=1)
        v3 = s["version"] == "v3"
        for _ in range(g.int(4, 20)):
            k = g.weighted([("own", 3), ("times", 3 if v3 else 0), ("reflect", 2), ("mr", 1), ("plain", 1), ("walk", 2)])
            if k == "walk":
                s["ops"].append(odd_walk(g, s, mib, bases))
            elif k == "plain":
                s["ops"].append(g.read_op(s, mib, bases))
            elif k == "own":
                # Elements which the library has encoded come back as values
                n = g.int(1, 6)
                oids = [g.oid() for _ in range(n)]
                s["ops"].append({"op": "get_many", "oids": oids, "emits": [[]]} if g.p(0.4) else {"op": "get_many", "oids": oids})
                s["ops"].append({"op": "get", "oid": g.oid(), "emit": [{"k": "reply", "f": {"vb": [["$0", "@%d" % g.int(0, 60)]]}}]})
                s["ops"].append({"op": "get_many", "oids": oids, "emit": [{"k": "reply", "f": {"vb": [["$%d" % i, "@%d" % g.int(0, 60)] for i in range(n)]}}]})
            elif k == "times":
                v = [g.pick(INT_EDGES) if g.p(0.7) else g.r.getrandbits(64) - (1 << 63) for _ in range(2)]
                s["ops"].append({"op": "get", "oid": g.oid(), "emit": [{"k": g.pick(["reply", "report"]), "f": {"boots": ["set", v[0]], "time": ["set", v[1]]}}]})
                s["ops"].append({"op": "get", "oid": g.oid(), "emit": [{"k": "reply"}]})
            elif k == "reflect":
                s["ops"].append(g.read_op(s, mib, bases, walks=False, many=40))
                s["ops"].append({"op": "get", "oid": g.oid(), "emits": [[{"k": "reflect", "back": g.int(1, 3)}, {"k": "reply", "d": 1000}]]})
            elif k == "mr" and s["version"] != "v1":
                s["ops"].append({"op": "getbulk", "oid": g.oid(), "mr": g.pick([x for x in INT_EDGES if 0 < x < 1 << 31]), "max": 2})
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C16
def whole_value(g):
    """Value which may be malformed on the inside, but declares its own extent."""
    for _ in range(20):
        b = bytes.fromhex(g.weird_value())
        try:
            if ber.Reader(b).tl()[2] == len(b):
                return b.hex()
        except ber.BerError:
            pass
    return NULLH


def c16(g):
    ags, ss, mibs = world(g, mib_n=3, big=False)
    tails = g.p(0.4)
    for s in ss:
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, clean=1)
        v3 = s["version"] == "v3"
        for _ in range(g.int(4, 14)):
            n = g.int(1, 5) if not tails or g.p(0.3) else 1
            op = {"op": "get_many", "oids": [g.oid() for _ in range(n)]} if g.p(0.6 if not tails else 0.3) else {"op": g.pick(["get", "get", "getnext"]), "oid": g.oid(), "max": 2}
            f = {}
            e = {"k": "reply", "f": f}
            k = "inner" if tails and g.p(0.85) else g.weighted([("follow", 4), ("overrun", 3), ("append", 2), ("len", 3), ("cut", 1.5), ("scoped", 2 if v3 else 0), ("inner", 1), ("pdu", 2)])
            cnt = n if op["op"] == "get_many" else 1
            if k == "follow":
                # Element followed by something which continues it, when read too far
                f["vb"] = [["$%d" % i if op["op"] != "getnext" else "$0.1", g.value(big=False) if g.p(0.8) else g.weird_value()] for i in range(cnt)]
                if g.p(0.3):
                    f["lf"] = g.pick([1, 2, 3])
            elif k == "overrun":
                v = bytes.fromhex(g.value(big=False))
                cut = g.int(1, 3)
                x = g.pick([v[:-cut] if len(v) > 2 + cut else v[:1] + bytes([v[1] + 1]) + v[2:], v[:1] + bytes([(v[1] + g.int(1, 40)) & 0x7F]) + v[2:], v[:1] + b"\x82\x01\x00" + v[2:],
                            v[:1] + b"\x81" + bytes([g.int(128, 255)]) + v[2:], v[:1] + b"\x84\x7f\xff\xff\xff" + v[2:], v[:1] + b"\x88\xff\xff\xff\xff\xff\xff\xff" + bytes([g.int(0, 255)]) + v[2:]])
                at = g.int(0, cnt - 1)
                f["vb"] = [["$%d" % i, (x.hex() if i == at else g.value(big=False))] for i in range(cnt)]
            elif k == "append":
                e["mut"] = [["append", g.bytes(g.pick([1, 1, 2, 3, 10, 100])).hex() if g.p(0.6) else g.pick(["00", "0500", "3000", "0000", "020100"])]]
            elif k == "len":
                e["mut"] = [["len", g.int(0, 14 if not v3 else 30), g.pick([1, 1, 2, -1, -2, 3, 10, 50, g.int(-60, 60) or 4])]]
                if g.p(0.3):
                    e["mut"].append(["append", g.bytes(g.int(1, 4)).hex()])
            elif k == "pdu":
                # The PDU goes on after its varbinds
                f["tail"] = {"pdu": (g.bytes(g.pick([1, 1, 2, 3, 9])) if g.p(0.6) else g.pick([b"\0", b"\x05\x00", b"\x30\x00", b"\x02\x01\x00"])).hex()}
                f["vb"] = [["$%d" % i if op["op"] != "getnext" else "$0.1", g.value(big=False)] for i in range(cnt)]
                if g.p(0.5):
                    f["pdu"] = g.pick([0xA0, 0xA1, 0xA5])
                    f["es"] = f["ei"] = 0
                    f["vb"] = [[n, NULLH] for n, _ in f["vb"]]
            elif k == "cut":
                e["mut"] = [g.pick([["cut", g.int(1, 30)], ["cut", g.int(1, 80)], ["trunc", g.int(0, 8)]])]
                if g.p(0.5):
                    f["lf"] = g.pick([1, 2, 3, 4])
            elif k == "scoped":
                f["badscoped"] = [g.pick([["len", g.int(0, 14), g.pick([1, 2, -1, 5, 50, g.int(-60, 60) or 4])], ["len", 0, g.int(-60, 60) or 4], ["cut", g.int(1, 10)], ["append", g.bytes(g.int(1, 8)).hex()]])]
            else:
                # The twin run gets other octets there
                at = ["vb", "vb", "vb", "vb", "pdu", "pdu", "msg"] + (["scoped", "usm", "glob"] if v3 else ["vbs"])
                f["tail"] = {g.pick(at): (g.bytes(g.pick([1, 1, 2, 3, 8, 9, 20])) if g.p(0.7) else g.pick([b"\0", b"\x7f", b"\xff" * 9, b"\x05\x00", b"\x2e"])).hex()
                             for _ in range(g.pick([1, 1, 2]))}
                f["vb"] = [["$%d" % i if op["op"] != "getnext" else "$0.1",
                            g.weighted([(g.value(big=False), 2), (whole_value(g), 2), (bytes([g.pick([1, 2, 4, 5, 6, 7, 9, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47]), 0]).hex(), 2),
                                        (ber.tlv(g.pick([2, 0x41, 0x42, 0x43, 0x46, 0x47]), g.bytes(g.int(1, 9))).hex(), 1)])] for i in range(cnt)]
            op["emits"] = [[e] + ([{"k": "reply", "d": 2000}] if g.p(0.4) else [])]
            s["ops"].append(op)
    return g.scen(ags, ss, twin="tail" if tails else True)


# ---------------------------------------------------------------- C17
def vb_size(text):
    return len(ber.tlv(ber.SEQ, ber.enc_oid(ber.parse_oid_text(text)) + b"\x05\x00"))


def size_of(s, ag, n, tag=ber.GET, rid=0x40000000):
    """Octets of the request with n octets of varbinds."""
    vbs = bytes(n)
    pdu = ber.tlv(tag, ber.enc_int(rid) + ber.enc_int(0) + ber.enc_int(0) + ber.tlv(ber.SEQ, vbs))
    if s["version"] != "v3":
        return len(ber.tlv(ber.SEQ, ber.enc_int(1) + ber.tlv(ber.OCT, s["community"].encode()) + pdu))
    e = bytes.fromhex(ag["engine"])
    scoped = ber.tlv(ber.SEQ, ber.tlv(ber.OCT, e) + ber.tlv(ber.OCT, b"") + pdu)
    u = s["user"]
    a, p = "auth" in u, "auth" in u and "priv" in u
    n = len(scoped)
    if p:
        n += -n % (8 if u["priv"]["alg"] == "des" else 16)
        scoped = ber.tlv(ber.OCT, bytes(n))
    sec = (ber.tlv(ber.OCT, e) + ber.enc_int(ag["boots"]) + ber.enc_int(ag["time"]) + ber.tlv(ber.OCT, u["name"].encode())
           + ber.tlv(ber.OCT, bytes(12 if a else 0)) + ber.tlv(ber.OCT, bytes(8 if p else 0)))
    gl = ber.tlv(ber.SEQ, ber.enc_int(rid) + ber.enc_int(4080) + ber.tlv(ber.OCT, b"\x03") + ber.enc_int(3))
    return len(ber.tlv(ber.SEQ, ber.enc_int(3) + gl + ber.tlv(ber.OCT, ber.tlv(ber.SEQ, sec)) + scoped))


def small_arcs(g, n):
    """Arcs of one octet each."""
    return "".join([".%d" % (x & 127) for x in g.bytes(n)])


def fit(g, s, ag, target, style):
    """OIDs which make the request of about the target size."""
    oids = []
    have = 0
    if style != "one":
        k = g.pick([5, 20, 60, 127])
        left = target - size_of(s, ag, 9) - k - 160
        while left > have and len(oids) < 700:
            n = k if style == "same" else g.int(1, k)
            oids.append(g.oid(n) if n < 30 and g.p(0.3) else g.oid(1) + small_arcs(g, n - 1))
            have += vb_size(oids[-1])
    last = g.oid(1)
    oids.append(last)
    n = max(0, target - size_of(s, ag, have + vb_size(last)))
    for _ in range(12):
        oids[-1] = last + small_arcs(g, n)
        x = size_of(s, ag, have + vb_size(oids[-1]))
        if x == target or (n == 0 and x > target):
            break
        n = max(0, n + target - x)
    return oids


def c17(g):
    ags, ss, mibs = world(g, n_sessions=g.weighted([(1, 5), (2, 2)]), mib_n=2, big=False)
    for s in ss:
        ag = ags[s["agent"]]
        ag["lax"] = True
        s["timeout"] = 0.05
        long = g.weighted([(0, 6), (g.int(100, 300), 1), (g.int(3900, 4090), 1), (5000, 0.2)])
        if long:
            if s["version"] == "v3":
                s["user"]["name"] = "n" * long
            else:
                s["community"] = "c" * long
        start(g, s, ags, clean=1)
        for _ in range(g.int(2, 7)):
            k = g.r.random()
            if k < 0.6:
                t = g.weighted([(4080 + g.int(-6, 6), 5), (4080 + g.int(-40, 40), 3), (g.int(3900, 4400), 1)])
            elif k < 0.85:
                # Boundaries of the length forms
                t = g.pick([127, 128, 129, 130, 131, 132, 133, 135, 140, 150, 160, 170, 180, 190, 200, 250, 255, 256, 257, 258, 259, 260, 265, 270, 280, 300]) + g.int(-3, 3)
            else:
                t = g.weighted([(5000, 3), (8000, 2), (20000, 1), (66000, 0.2)])
            style = g.pick(["one", "same", "mix"])
            if k >= 0.85:
                oids = [g.oid(20) + small_arcs(g, 80) for _ in range(t // 120)]
            else:
                oids = fit(g, s, ag, t, style)
            if len(oids) == 1 and g.p(0.6):
                kind = g.pick(["get", "getnext", "getbulk"]) if s["version"] != "v1" else g.pick(["get", "getnext"])
                op = {"op": kind, "oid": oids[0], "max": 1}
            else:
                op = {"op": "get_many", "oids": oids}
            op["emits"] = [[{"k": "reply", "f": {"vb": [["1.3.6", "020101"]]}}]]
            s["ops"].append(op)
            if g.p(0.4):
                s["ops"].append({"op": "get", "oid": g.oid(), "emits": [[{"k": "reply", "f": {"vb": [["$0", "020105"]]}}]]})
    return g.scen(ags, ss, twin=g.p(0.3))


# ---------------------------------------------------------------- C18
def storm(g):
    """The peer sends mismatching datagrams faster than the slow client reads them."""
    tick = g.pick([20, 50, 100])
    ags, ss, mibs = world(g, n_sessions=1, mib_n=2, big=False)
    s = ss[0]
    s["timeout"] = g.pick([0.001, 0.003, 0.01, 0.02])
    mib, bases = mibs[s["agent"]]
    start(g, s, ags, clean=1)
    for _ in range(g.int(1, 3)):
        op = g.read_op(s, mib, bases)
        if s["version"] == "v3" and g.p(0.15):
            op = {"op": "refresh"}
        op["max"] = 2
        gap = g.pick([1, tick // 2, tick - 1, tick, tick + 1, tick * 3])
        span = int(s["timeout"] * 1e6) + g.int(25000, 60000)
        em = []
        if g.p(0.3):
            em.append({"k": "reply", "d": g.int(0, int(s["timeout"] * 1e6))})
        x = g.noise(s, ags, [("forge", 5), ("stale", 1)])
        x.pop("dup", None)
        # Up to the time when the client, which never looks at the clock, would finish
        em.append(dict(x, d=g.int(0, 300), rep=[span // max(gap, tick), gap]))
        op["emits"] = [em]
        s["ops"].append(op)
        if g.p(0.5):
            s["ops"].append({"op": "sleep", "us": g.pick([1000, 100000])})
            s["ops"].append(dict(g.read_op(s, mib, bases), max=1))
    return g.scen(ags, ss, tick=tick)


def c18(g):
    if g.p(0.06):
        return storm(g)
    ags, ss, mibs = world(g, mib_n=g.pick([2, 6]), big=False)
    for s in ss:
        s["timeout"] = g.pick([0.001, 0.01, 0.05, 0.1, 0.3, 0.999999, 1.0, 1.5, 2.0000001, 5.0, 10.0, 30.0])
        T = int(s["timeout"] * 1e6)
        mib, bases = mibs[s["agent"]]
        start(g, s, ags, clean=1)
        for _ in range(g.int(2, 8)):
            op = g.read_op(s, mib, bases)
            if s["version"] == "v3" and g.p(0.15):
                op = {"op": "refresh"}
            op["max"] = 3
            ems = []
            for _ in range(3):
                em = []
                k = g.weighted([("silent", 2), ("flood", 5), ("late", 2), ("edge", 2), ("good", 2)])
                if k == "flood":
                    n = g.int(1, 30)
                    gap = g.pick([T // 3, T // 2, int(T * 0.9), T // 10, T // max(1, n)])
                    x = g.noise(s, ags, [("forge", 5), ("stale", 1), ("reflect", 0)])
                    if x["k"] == "reflect":
                        x["back"] = max(1, x["back"])
                    for i in range(n):
                        y = x if g.p(0.8) else g.noise(s, ags, [("forge", 5), ("stale", 1)])
                        em.append(dict(y, d=i * gap + g.int(0, 10)))
                    if g.p(0.5):
                        em.append({"k": "reply", "d": g.int(0, int(T * 1.5))})
                elif k == "late":
                    em.append({"k": "reply", "d": T + g.pick([25000, 100000, T, 5 * T])})
                elif k == "edge":
                    em.append({"k": "reply", "d": max(0, T - g.pick([500, 5000, 20000, T // 10, T // 3]))})
                elif k == "good":
                    em.append(g.good(s))
                if g.p(0.05):
                    em.append({"k": "spurious", "d": g.int(0, T)})
                if g.p(0.04):
                    em.append({"k": "err", "errno": g.pick(SKIPPABLE_ERRNOS + [4, 4]), "d": g.int(0, T)})
                ems.append(em)
            op["emits"] = ems
            op["retry"] = g.int(0, 2)
            if g.p(0.04):
                op["unwritable"] = g.int(0, 2 * T)
            if s["mode"] == "async" and g.p(0.05):
                op["cancel"] = g.int(0, 2 * T)
            s["ops"].append(op)
            if g.p(0.1):
                s["ops"].append({"op": "sleep", "us": g.int(0, 3 * T)})
    return g.scen(ags, ss)


# ---------------------------------------------------------------- C19
def rps_value(g):
    return g.weighted([
        (g.int(1, 1000), 5), (g.r.uniform(0.01, 2000), 4), (g.pick([3, 7, 0.3, 1e-3, 1.5, 1e9, 1e8, 999999999, 333333333.3, 1e6, 1e7, 299792458, 1, 10, 60, 1000000 / 3]), 2),
        (10 ** g.r.uniform(-3, 9), 2),
    ])


def policer_op(g):
    if g.p(0.12):
        return {"op": "policer", "rps": g.pick([0, -1, -0.5, -1e-9, 1e10, 5e9, 1e300, 2.5e9, float("inf"), -1e300, 0.0, float("-inf")]), "gaps": [0, 1, 2]}
    rps = rps_value(g)
    d = 1e9 / rps
    n = g.weighted([(g.int(2, 12), 4), (g.int(12, 80), 2)])
    style = g.pick(["zero", "mix", "slow", "edge", "burst"])
    gaps = []
    for i in range(n):
        if style == "zero":
            x = 0
        elif style == "mix":
            x = g.r.uniform(0, 2.5) * d
        elif style == "slow":
            x = d * g.r.uniform(0.9, 1.1)
        elif style == "edge":
            x = d * g.pick([0, 0.5, 1, 1, 1.5, 2, 3]) + g.pick([-1, 0, 1, 0, 2])
        else:
            x = g.pick([0, 0, 0, 1, d * g.pick([g.int(1, 20), g.int(1, 20), 300, 10**5]) * g.r.uniform(0.8, 1.3)])
        gaps.append(max(0, int(x)))
    return {"op": "policer", "rps": rps, "start": g.pick([0, 1, 10**9, 123456789012345, g.r.getrandbits(40)]), "gaps": gaps}


def c19(g):
    if g.p(0.35):
        ags, ss, mibs = world(g, n_sessions=1, version="v2c", mode="sync", mib_n=1)
        for _ in range(g.int(2, 10)):
            ss[0]["ops"].append(policer_op(g))
        return g.scen(ags, ss)
    ags, ss, mibs = world(g, mib_n=g.pick([3, 20]), big=False)
    for s in ss:
        s["timeout"] = g.pick([0.01, 0.05, 1.0])
        rps = g.weighted([(g.pick([1, 2, 3, 5, 7, 10, 30, 100, 0.5, 0.3, 2.5]), 4), (g.r.uniform(0.1, 300), 3), (g.pick([1000, 3000]), 1)])
        s["limit_rps"] = rps if g.p(0.97) else g.pick([-1, -0.5, -1000])
        d = 1e6 / abs(rps)
        mib, bases = mibs[s["agent"]]
        ags[s["agent"]]["lax"] = True
        start(g, s, ags, clean=0.7, loss=0.3)
        for _ in range(g.int(3, 15)):
            op = g.read_op(s, mib, bases)
            if s["version"] == "v3" and g.p(0.2):
                op = {"op": "refresh"}
            if g.p(0.4):
                op["emits"] = g.emissions(s, ags, 4, noise=0.2, loss=0.2, late=0.1)
            op["max"] = g.pick([3, 12])
            s["ops"].append(op)
            if g.p(0.5):
                s["ops"].append({"op": "sleep", "us": int(d * g.pick([0.1, 0.5, 0.9, 0.99, 1.0, 1.01, 1.2, 1.9, 2.0, 2.1, 3.5, 10.2, 150]))})
            if g.p(0.1):
                n = g.int(2, 3)
                for i in range(n):
                    s["ops"].append({"op": "iter", "kind": g.pick(["getnext", "fetch"]), "it": i, "oid": g.base(mib, bases)})
                for _ in range(g.int(2, 8)):
                    s["ops"].append({"op": "next", "it": g.int(0, n - 1), "n": g.int(1, 4)})
    return g.scen(ags, ss, latency=g.pick([1, 50, 200, 5000]))


PROFILES = {
    "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
    "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19,
}


def wall_steps(g, prop):
    """When the wall clock of the client's host is set, and by how much (us)."""
    if not g.p(0.6 if prop in ("C18", "C19") else 0.2):
        return []
    out = []
    for _ in range(g.pick([1, 2, 5, 20, 60])):
        t = int(10 ** g.r.uniform(2, 7.5))
        d = g.pick([500, 20_000, 100_000, 1_000_000, 5_000_000, 60_000_000, 3_600_000_000, 86_400_000_000])
        out.append([t, d if g.p(0.5) else -d])
    return sorted(out)


def scenario(prop, seed, i):
    """The i-th scenario of the property under the master seed."""
    key = f"{prop}/{seed}/{i}"
    g = G(key)
    s = PROFILES[prop](g)
    if prop not in ("C05", "C12", "C17"):
        g.spice(s)
    w = wall_steps(G(key + "/wall"), prop)
    if w:
        s["wall"] = w
    s["prop"] = prop
    s["seed"] = key
    return s
