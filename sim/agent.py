"""Simulated agents: MIB, RFC 3416 responder, RFC 3414 authoritative engine, and the faults on the way back."""
import bisect
import errno as _errno
import hashlib

import ber
import usm
from core import BASE_NS, MS, SEC, US

USMSTATS = {
    "timewindow": (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0),
    "user": (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0),
    "engine": (1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0),
    "digest": (1, 3, 6, 1, 6, 3, 15, 1, 1, 5, 0),
    "decrypt": (1, 3, 6, 1, 6, 3, 15, 1, 1, 6, 0),
}
NULL_TLV = b"\x05\x00"
NOSUCHOBJECT_TLV = b"\x80\x00"
NOSUCHINSTANCE_TLV = b"\x81\x00"
ENDOFMIB_TLV = b"\x82\x00"
VERSIONS = {"v1": 0, "v2c": 1, "v3": 3}


def user_keys(user, engine):
    """Localized (auth alg, auth key, priv alg, priv key) of the scenario's user."""
    a, p = user.get("auth"), user.get("priv")
    if not a:
        return None, None, None, None
    alg = a["alg"]

    def loc(k):
        key = bytes.fromhex(k["key"])
        if k["type"] == "password":
            return usm.localize(alg, usm.password_to_key(alg, key), engine)
        size = usm.ALG[alg][1]
        key = key[:size].ljust(size, b"\x00")
        if k["type"] == "master":
            return usm.localize(alg, key, engine)
        return key

    akey = loc(a)
    if not p:
        return alg, akey, None, None
    return alg, akey, p["alg"], loc(p)[:16]


class Agent:
    """One SNMP agent."""

    def __init__(self, cfg, sim):
        self.cfg = cfg
        self.sim = sim
        self.mib = sorted((ber.parse_oid_text(k), bytes.fromhex(v)) for k, v in cfg.get("mib", []))
        self.keys = [k for k, _ in self.mib]
        self.engine = bytes.fromhex(cfg.get("engine", "80001f8804ffffff"))
        self.boots = cfg.get("boots", 1)
        self.time0 = cfg.get("time", 0)
        self.started = sim.now if sim else BASE_NS
        self.cap = cfg.get("cap", 1000)
        self.stats = 0
        self.salt = 0

    def time(self):
        return self.time0 + (self.sim.now - self.started) // SEC

    def event(self, ev):
        if ev[0] == "reboot":
            # Crash and restart: only boots survives
            self.boots += ev[1]
            self.time0 = 0
            self.started = self.sim.now
        elif ev[0] == "skew":
            self.time0 = max(0, self.time0 + ev[1])
        elif ev[0] == "engine":
            self.engine = bytes.fromhex(ev[1])
        elif ev[0] == "set":
            self.boots, self.time0 = ev[1], ev[2]
            self.started = self.sim.now
        elif ev[0] == "mib":
            d = dict(self.mib)
            for k, v in ev[1]:
                k = ber.parse_oid_text(k)
                if v is None:
                    d.pop(k, None)
                else:
                    d[k] = bytes.fromhex(v)
            self.mib = sorted(d.items())
            self.keys = [k for k, _ in self.mib]

    # ---- RFC 3416 / RFC 1157 command responder
    def find(self, oid):
        i = bisect.bisect_left(self.keys, oid)
        if i < len(self.keys) and self.keys[i] == oid:
            return self.mib[i][1]
        return None

    def next(self, oid):
        i = bisect.bisect_right(self.keys, oid)
        return self.mib[i] if i < len(self.mib) else None

    def answer(self, ver, pdu):
        """Returns (error status, error index, varbinds)."""
        names = [v[0] for v in pdu.vbs]
        if pdu.tag == ber.GET:
            out = []
            for i, n in enumerate(names):
                v = self.find(n)
                if v is None:
                    if ver == 0:
                        return 2, i + 1, [(x, NULL_TLV) for x in names]
                    # Object of the same parent exists
                    same = any(k[: len(n) - 1] == n[:-1] for k in self.keys)
                    v = NOSUCHINSTANCE_TLV if same else NOSUCHOBJECT_TLV
                out.append((n, v))
            return 0, 0, out
        if pdu.tag == ber.GETNEXT:
            out = []
            for i, n in enumerate(names):
                e = self.next(n)
                if e is None:
                    if ver == 0:
                        return 2, i + 1, [(x, NULL_TLV) for x in names]
                    e = (n, ENDOFMIB_TLV)
                out.append(e)
            return 0, 0, out
        if pdu.tag == ber.GETBULK:
            reps = min(max(0, pdu.b), self.cap)
            out = []
            cur = list(names)
            limit = self.cfg.get("maxbytes", 3000)
            size = 0
            for _ in range(reps):
                ended = 0
                for j, n in enumerate(cur):
                    e = self.next(n)
                    if e is None:
                        e = (n, ENDOFMIB_TLV)
                        ended += 1
                    size += len(e[1]) + len(ber.enc_oid(e[0])) + 4
                    if size > limit and out:
                        return 0, 0, out
                    cur[j] = e[0]
                    out.append(e)
                if ended == len(cur) and self.cfg.get("eomv") != "all":
                    break
            return 0, 0, out
        return 5, 0, [(x, NULL_TLV) for x in names]


class Tap:
    """Owner of the raw socket: nobody answers, everything sent is kept."""

    def __init__(self):
        self.out = []

    def on_setopt(self, opt, us):
        pass

    on_send_error = on_recv_error = on_recv = on_setopt


class Net:
    """Everything between the sockets: turns each request into scheduled deliveries."""

    def __init__(self, sim, agents, latency_us=200):
        self.sim = sim
        self.agents = agents
        self.latency = latency_us
        self.sessions = []
        self.fired = {}
        self.probes = {}

    def hit(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ---- request arrival
    def on_send(self, sock, data):
        s = sock.owner
        sim = self.sim
        if s is None:
            return 0
        if isinstance(s, Tap):
            s.out.append(data)
            return 0
        op = s.op or {}
        k = s.req_i
        s.req_i += 1
        ems = op.get("emits") or []
        em = ems[k] if k < len(ems) else op.get("emit", [{"k": "reply"}])
        for e in em:
            if e["k"] == "senderr":
                self.hit("send_error")
                s.rec("senderr", data, e["errno"])
                return -e["errno"]
        s.rec("send", data)
        sim.note("send", s.idx, data.hex())
        s.sent.append(data)
        evs = op.get("ev") or []
        agent = self.agents[s.cfg["agent"]]
        if k < len(evs) and evs[k]:
            for ev in evs[k]:
                agent.event(ev)
                self.hit("agent_" + ev[0])
        req = self.parse(s, data, agent)
        s.reqs.append(req)
        if not em:
            self.hit("loss")
        for e in em:
            self.emit(s, sock, agent, data, req, e)
        return 0

    def parse(self, s, data, agent):
        """Decode the request, as the agent does."""
        try:
            m = ber.decode_msg(data)
            if m.ver == 3:
                if m.enc is not None:
                    _, _, palg, pkey = s.keys_for(m.engine, agent)
                    if not palg:
                        return None
                    if palg == "des" and len(m.enc) % 8 or len(m.privp) != 8:
                        return None
                    plain = usm.decrypt(palg, pkey, m.boots, m.time, m.privp, m.enc)
                    ber.decode_scoped(plain, m, padded=True)
                else:
                    ber.decode_scoped(m.plain, m)
            return m
        except ber.BerError:
            return None

    def emit(self, s, sock, agent, data, req, e):
        kind = e["k"]
        delay = (e.get("d", 0) + self.latency) * US
        sim = self.sim
        if kind == "err":
            self.hit(f"recv_error_{_errno.errorcode.get(e['errno'], e['errno'])}")

            def fail():
                if not sock.closed:
                    sock.errs.append(e["errno"])

            sim.after(delay, fail)
            return
        if kind == "spurious":
            self.hit("spurious_wakeup")

            def wake():
                sock.spurious += 1

            sim.after(delay, wake)
            return
        out = None
        if kind in ("reply", "report"):
            if req is None:
                return
            if kind == "report" and req.ver != 3:
                return
            out = self.reply(s, agent, req, e)
        elif kind == "stale":
            if not s.emitted:
                return
            self.hit("stale_replay")
            out = s.emitted[-1 - e.get("back", 0) % len(s.emitted)]
        elif kind == "cross":
            others = [x for x in self.sessions if x is not s and x.emitted]
            if not others:
                return
            self.hit("foreign_datagram")
            x = others[e.get("n", 0) % len(others)]
            out = x.emitted[-1 - e.get("back", 0) % len(x.emitted)]
        elif kind == "bytes":
            self.hit("garbage")
            out = bytes.fromhex(e["hex"])
        elif kind == "reflect":
            back = e.get("back", 0)
            if back >= len(s.sent):
                return
            self.hit("reflect")
            out = s.sent[-1 - back]
        if out is None:
            return
        if kind in ("reply", "report"):
            s.emitted.append(out)
            if not any(x in ("rid", "msgid") for x in e.get("f") or ()):
                s.answers.setdefault(out, set()).add(len(s.sent) - 1)
        for m in e.get("mut") or []:
            out = self.mutate(out, m)
        if e.get("d", 0) > 0:
            self.hit("delay")

        def deliver():
            if not sock.closed:
                sock.rx.append(out)
                s.rec("arrive", len(out))

        sim.after(delay, deliver)
        if "rep" in e:
            # The storm of the same datagrams
            left, gap = e["rep"]
            self.hit("storm")

            def again():
                nonlocal left
                if left > 0 and not sock.closed:
                    left -= 1
                    deliver()
                    sim.after(gap * US, again)

            sim.after(delay + gap * US, again)
        for extra in e.get("dup") or []:
            self.hit("duplicate")
            sim.after(delay + extra * US, deliver)

    def mutate(self, b, m):
        k = m[0]
        self.hit("mut_" + k)
        if k == "append":
            return b + bytes.fromhex(m[1])
        if not b:
            return b
        if k == "trunc":
            return b[: m[1] % (len(b) + 1)]
        if k == "cut":
            return b[: max(0, len(b) - m[1])]
        p = m[1] % len(b)
        if k == "xor":
            return b[:p] + bytes([b[p] ^ (m[2] & 0xFF)]) + b[p + 1 :]
        if k == "set":
            return b[:p] + bytes([m[2] & 0xFF]) + b[p + 1 :]
        if k == "ins":
            return b[:p] + bytes.fromhex(m[2]) + b[p:]
        if k == "del":
            return b[:p] + b[p + m[2] :]
        if k == "len":
            # Tamper the length octet of the m[1]-th TLV
            pos = tlv_positions(b)
            if not pos:
                return b
            p = pos[m[1] % len(pos)] + 1
            if p >= len(b):
                return b
            return b[:p] + bytes([(b[p] + m[2]) & 0xFF]) + b[p + 1 :]
        if k == "edit":
            return edit(b, m[1], m[2], m[3])
        if k == "tag":
            pos = tlv_positions(b)
            if not pos:
                return b
            p = pos[m[1] % len(pos)]
            return b[:p] + bytes([m[2] & 0xFF]) + b[p + 1 :]
        return b

    # ---- reply construction
    def reply(self, s, agent, q, e):
        f = e.get("f") or {}
        for k in f:
            self.hit("rewrite_" + k)
        if "fit" not in f:
            return self.build(s, agent, q, e, f)
        # The last value takes the rest of the datagram of the given size
        n, k, best = f["fit"], 0, None
        state = agent.salt, agent.stats
        for _ in range(8):
            agent.salt, agent.stats = state
            out = self.build(s, agent, q, e, dict(f, fitlen=k))
            if best is None or len(best) < len(out) <= n:
                best = out
            if len(out) == n or k + n - len(out) < 0:
                break
            k += n - len(out)
        return best

    def build(self, s, agent, q, e, f):
        lf = f.get("lf", 0)
        prev = [r for r in s.reqs if r is not None]

        def rewrite(name, v, getter):
            x = rewrite1(name, v, getter)
            return x ^ 1 if x == v and name in f and name in ("rid", "msgid") else x

        def rewrite1(name, v, getter):
            w = f.get(name)
            if w is None:
                return v
            if w[0] == "set":
                return w[1]
            if w[0] == "add":
                return v + w[1]
            if w[0] == "xor":
                return v ^ w[1]
            if w[0] == "neg":
                return -v
            if w[0] == "prev":
                if len(prev) > 0:
                    return getter(prev[-1 - w[1] % len(prev)])
                return v ^ 1
            return v

        ver = f.get("ver", q.ver)
        if q.ver != 3:
            es, ei, vbs = agent.answer(q.ver, q.pdu)
            rid = rewrite("rid", q.pdu.rid, lambda r: r.pdu.rid)
            body = self.pdu(s, f, f.get("pdu", ber.RESPONSE), rid, es, ei, vbs, q, lf) + self.tails(f).get("msg", b"")
            comm = bytes.fromhex(f["comm"]) if "comm" in f else q.comm
            return ber.tlv(ber.SEQ, ber.enc_int(ver) + ber.tlv(ber.OCT, comm, lf) + body, lf)
        # v3: RFC 3414 3.2
        engine = agent.engine
        boots, tm = agent.boots, agent.time()
        alg, akey, palg, pkey = s.keys_for(engine, agent)
        want_auth = bool(q.flags & 1)
        want_priv = bool(q.flags & 2)
        why = None
        if e["k"] == "report":
            why = e.get("why", "timewindow")
        elif q.engine != engine:
            why = "engine"
        elif q.user != s.agent_user(q.user):
            why = "user"
        elif want_auth and not agent.cfg.get("lax"):
            if abs(q.time - tm) > 150 or q.boots != boots:
                why = "timewindow"
        if why is None:
            es, ei, vbs = agent.answer(3, q.pdu)
            tag = ber.RESPONSE
            auth, priv = want_auth, want_priv
        else:
            self.hit("report_" + why)
            agent.stats += 1
            es = ei = 0
            vbs = [(USMSTATS[why], ber.enc_int(agent.stats, tag=0x41))]
            tag = ber.REPORT
            auth = why == "timewindow" and want_auth
            priv = False
            if e.get("sec") == "auth":
                auth = want_auth
            elif e.get("sec") == "priv":
                auth, priv = want_auth, want_priv
            elif e.get("sec") == "none":
                auth = False
        rid = rewrite("rid", q.pdu.rid, lambda r: r.pdu.rid)
        body = self.pdu(s, f, f.get("pdu", tag), rid, es, ei, vbs, q, lf)
        ctx = bytes.fromhex(f["ctx"]) if "ctx" in f else engine
        tail = self.tails(f)
        scoped = ber.tlv(
            ber.SEQ, ber.tlv(ber.OCT, ctx, lf) + ber.tlv(ber.OCT, bytes.fromhex(f.get("ctxname", "")), lf) + body + tail.get("scoped", b""), lf
        )
        msgid = rewrite("msgid", q.msgid, lambda r: r.msgid)
        boots = rewrite("boots", boots, lambda r: r.boots)
        tm = rewrite("time", tm, lambda r: r.time)
        engine = bytes.fromhex(f["engine"]) if "engine" in f else engine
        user = bytes.fromhex(f["user"]) if "user" in f else q.user
        enc = f.get("enc", "ok")
        privp = b""
        if "badscoped" in f:
            for m in f["badscoped"]:
                scoped = self.mutate(scoped, m)
        if priv and pkey and enc != "clear":
            agent.salt += 1
            salt = bytes.fromhex(f["salt"]) if "salt" in f else hashlib.sha256(
                f"{self.sim.seed_key}/salt/{agent.salt}".encode()
            ).digest()[:8]
            key = pkey
            if enc == "wrongkey":
                key = hashlib.sha256(pkey).digest()[:16]
            pad = hashlib.sha256(scoped).digest()
            data = usm.encrypt(palg, key, boots, tm, salt, scoped, pad)
            if "encpad" in f and palg == "aes":
                # padding after the scoped PDU
                data = usm.encrypt(palg, key, boots, tm, salt, scoped + pad[: f["encpad"]], pad)
            if enc == "badlen":
                data += b"\x00"
            if enc == "empty":
                data = b""
            privp = salt
            if "privp" in f:
                privp = bytes.fromhex(f["privp"])
            data = ber.tlv(ber.OCT, data, lf)
        else:
            if enc == "clear":
                priv = f.get("privflag", False)
            data = scoped
        mac = f.get("mac", "ok")
        flags = (1 if auth else 0) | (2 if priv else 0)
        if "flags" in f:
            flags = f["flags"]
        if f.get("authflag") == 0:
            flags &= ~1
        flags |= f.get("orflags", 0)
        authp = bytes(12) if auth and akey else b""
        if mac == "absent":
            authp = b""
        elif mac == "short":
            authp = authp[:11]
        elif mac == "long":
            authp += b"\x00"
        elif mac in ("longok", "fulldig", "shortok", "padok"):
            authp = bytes({"longok": 13 + f.get("macpos", 0), "fulldig": 20 if alg == "sha1" else 16, "shortok": f.get("macpos", 0), "padok": 24}[mac])
        if "authp" in f:
            authp = bytes.fromhex(f["authp"])
        sec = (
            ber.tlv(ber.OCT, engine, lf)
            + ber.enc_int(boots)
            + ber.enc_int(tm)
            + ber.tlv(ber.OCT, user, lf)
            + ber.tlv(ber.OCT, authp)
        )
        off_in_sec = len(sec) - len(authp)
        sec += ber.tlv(ber.OCT, privp) + tail.get("usm", b"")
        usmp = ber.tlv(ber.SEQ, sec, lf)
        off = len(usmp) - len(sec) + off_in_sec
        head = ber.enc_int(ver) + ber.tlv(
            ber.SEQ,
            ber.enc_int(msgid)
            + ber.enc_int(f.get("maxsize", 65507))
            + ber.tlv(ber.OCT, bytes([flags]))
            + ber.enc_int(f.get("secmodel", 3)) + tail.get("glob", b""),
            lf,
        )
        o = ber.tlv(ber.OCT, usmp, lf)
        off += len(head) + len(o) - len(usmp)
        body = head + o + data + tail.get("msg", b"")
        whole = ber.tlv(ber.SEQ, body, lf)
        off += len(whole) - len(body)
        if auth and akey and mac in ("longok", "fulldig", "shortok", "padok") and "authp" not in f:
            # Field of a wrong length, whose octets are those of the right digest
            n = len(authp)
            full = usm.full_mac(alg, akey, whole)
            if mac == "longok":
                full = full[:12]
            elif mac == "padok":
                full = bytes(12) + full[:12]
            whole = whole[:off] + (full + bytes(40))[:n] + whole[off + n :]
        elif auth and akey and len(authp) == 12 and mac != "zero" and "authp" not in f:
            key = akey
            a = alg
            if mac == "wrongkey":
                key = hashlib.sha256(akey).digest()[: len(akey)]
            if mac == "otheralg":
                a = "sha1" if alg == "md5" else "md5"
            whole = usm.sign(a, key, whole, off)
            if mac == "rand":
                r = hashlib.sha256(whole).digest()[:12]
                whole = whole[:off] + r + whole[off + 12 :]
            elif mac == "flip":
                p = off + f.get("macpos", 0) % 12
                whole = whole[:p] + bytes([whole[p] ^ (1 << f.get("macbit", 0) % 8)]) + whole[p + 1 :]
        return whole

    def pdu(self, s, f, tag, rid, es, ei, vbs, q, lf):
        if "vb" in f:
            vbs = [(self.oid(s, q, o), self.own(s, v) if v.startswith("@") else bytes.fromhex(v)) for o, v in f["vb"]]
        if "vbmap" in f:
            # Permute, drop or repeat the varbinds of the correct answer
            vbs = [vbs[i % len(vbs)] for i in f["vbmap"]] if vbs else vbs
        if "fitlen" in f and vbs:
            k = f["fitlen"]
            vbs = vbs[:-1] + [(vbs[-1][0], ber.tlv(ber.OCT, bytes((i * 11 + k) & 255 for i in range(k)), lf))]
        es = f.get("es", es)
        ei = f.get("ei", ei)
        vb = b""
        tail = self.tails(f)
        for i, (o, v) in enumerate(vbs):
            form = lf if not f.get("vblf") else f["vblf"][i % len(f["vblf"])]
            name = ber.tlv(ber.OID, o, form) if isinstance(o, bytes) else ber.enc_oid(o, form)
            vb += ber.tlv(ber.SEQ, name + v + tail.get("vb", b""), form)
        vb += bytes.fromhex(f.get("rawvb", "")) + tail.get("vbs", b"")
        return ber.tlv(
            tag,
            ber.enc_int(rid) + ber.enc_int(es) + ber.enc_int(ei) + ber.tlv(ber.SEQ, vb, lf) + tail.get("pdu", b""),
            lf,
        )

    def tails(self, f):
        """Octets after the elements, which their enclosing elements end with. The twin run gets the inverted ones."""
        x = self.sim.tailxor
        return {k: bytes(c ^ (x if k != "vbs" else 0) for c in bytes.fromhex(v)) for k, v in (f.get("tail") or {}).items()}

    def own(self, s, ref):
        """Primitive element, which the library itself has encoded in one of the previous requests."""
        out = []
        for b in s.sent[-4:]:
            for p in tlv_positions(b):
                r = ber.Reader(b, p)
                try:
                    t, _, e = r.tl()
                except ber.BerError:
                    continue
                if t in (2, 5, 6) or (t == 4 and e - p < 300):
                    out.append(b[p:e])
        self.hit("own_element")
        return out[int(ref[1:]) % len(out)] if out else b"\x05\x00"

    def oid(self, s, q, text):
        """OID of the override: dotted, `$n[.suffix]` - requested one, `$b[.suffix]` - base of the walk, `#hex` - raw."""
        if text.startswith("#"):
            return bytes.fromhex(text[1:])
        if text.startswith("$"):
            head, _, rest = text[1:].partition(".")
            if head == "b":
                base = s.base()
            elif head == "p":
                # Prefix of the base
                base = s.base()
                base = base[:-1] if len(base) > 2 else base
            else:
                base = q.pdu.vbs[int(head) % len(q.pdu.vbs)][0] if q.pdu.vbs else (1, 3)
            return base + (ber.parse_oid_text(rest) if rest else ())
        return ber.parse_oid_text(text)


def edit(b, at, what, arg):
    """Change an element of the message, all the lengths around are corrected."""
    total = len(tlv_positions(b))
    if not total:
        return b
    at %= total
    seen = 0

    def walk(x, depth):
        nonlocal seen
        out = b""
        pos = 0
        while pos < len(x) and depth < 8:
            here = seen
            seen += 1
            p = pos + 2
            if p > len(x):
                return out + x[pos:]
            n = x[pos + 1]
            if n & 0x80:
                k = n & 0x7F
                n = int.from_bytes(x[p : p + k], "big")
                p += k
            if p + n > len(x):
                return out + x[pos:]
            tag, c = x[pos], x[p : p + n]
            if tag & 0x20 or (tag == 4 and n > 16 and c[0] == 0x30):
                c = walk(c, depth + 1)
            e = ber.tlv(tag, c)
            if here == at:
                if what == "drop":
                    e = b""
                elif what == "dup":
                    e += e
                elif what == "empty":
                    e = ber.tlv(tag, b"")
                elif what == "short":
                    e = ber.tlv(tag, c[: max(0, len(c) - arg)])
                elif what == "trail":
                    e = ber.tlv(tag, c + bytes.fromhex(arg))
                elif what == "repl":
                    e = bytes.fromhex(arg)
            out += e
            pos = p + n
        return out + x[pos:]

    return walk(b, 0)


def tlv_positions(b, pos=0, end=None, depth=0):
    """Offsets of the TLVs of the (well-formed) message."""
    out = []
    end = len(b) if end is None else end
    while pos < end and depth < 8:
        out.append(pos)
        tag = b[pos]
        p = pos + 1
        if p >= end:
            break
        n = b[p]
        p += 1
        if n & 0x80:
            k = n & 0x7F
            n = int.from_bytes(b[p : p + k], "big")
            p += k
        if p + n > end:
            break
        if tag & 0x20 or (tag == 4 and n > 16 and b[p] == 0x30):
            out += tlv_positions(b, p, p + n, depth + 1)
        pos = p + n
    return out
