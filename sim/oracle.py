"""The oracle: judges the recorded history of every session against the properties.

It knows nothing about how the client works.  It replays the history of one session with its own codec and its own
USM, keeps the few facts the properties talk about (pending request id, engine, boots, time, salts, walk position),
classifies every datagram by what the properties allow to happen with it, and compares what the caller saw.
"""
import asyncio
import re

import ber
import usm
from ber import BerError
from core import BASE_NS, MS, SEC, US

ALL = tuple(f"C{i:02d}" for i in range(1, 20))
SLACK = 20 * MS
BUF = 4080
# What must not get lost or changed, when the matching reply arrives
MATCHED = ("C02", "C04", "C05", "C06", "C07", "C11", "C13", "C15", "C16", "C18", "C09", "C10", "C12", "C08")
OID_RE = re.compile(r"[0-9]+(\.[0-9]+)+\Z")
SKIP, DECODE, DELIVER, ANY = "skip", "decode", "deliver", "any"
RPT = "report"  # may be taken for the Report


class Violation:
    def __init__(self, tags, cls, msg, sess, t):
        self.tags = tuple(sorted(set(tags)))
        self.cls = cls
        self.msg = msg
        self.sess = sess
        self.t = t

    def as_dict(self):
        return {
            "properties": list(self.tags), "class": self.cls, "message": self.msg, "session": self.sess,
            "t_us": (self.t - BASE_NS) // US,
        }


def denote(text):
    """Arcs of the dotted OID or None, if the text denotes nothing."""
    if not isinstance(text, str) or not OID_RE.match(text):
        return None
    return tuple(int(x) for x in text.split("."))


def must_accept(text):
    """Texts which property C08 obliges to accept. Arcs with the leading zeros are left open."""
    a = denote(text)
    if a is None or ber.oid_text(a) != text:
        return False
    return a[0] <= 2 and a[1] <= 39 and all(x <= 0xFFFFFFFF for x in a)


def category(exc, M):
    """Category of the exception."""
    if exc is None:
        return "value"
    f = M.fast
    if isinstance(exc, (StopIteration, StopAsyncIteration)):
        return "stop"
    if isinstance(exc, asyncio.CancelledError):
        return "cancel"
    if not isinstance(exc, Exception):
        return "panic"
    for cls, name in (
        (f.SnmpDecodeError, "decode"), (f.SnmpEncodeError, "encode"), (f.NoSuchInstance, "nosuch"),
        (f.SnmpAuthError, "auth"), (f.SnmpError, "snmp"), (BlockingIOError, "blocking"), (TimeoutError, "timeout"),
        (OSError, "oserror"), (ValueError, "valueerror"),
    ):
        if isinstance(exc, cls):
            return name
    return "other"


class Iter:
    """Position of the walk."""

    def __init__(self, base, kind, mr):
        self.base = base
        self.kind = kind
        self.mr = mr
        self.last = base
        self.accepted = base  # OID to be requested next
        self.queue = []  # GetBulk: what is still buffered
        self.weak = False  # Rest of the reply is left open
        self.stopped = False
        self.unknown = False
        self.items = []


class Dgram:
    __slots__ = ("t", "data", "allow", "why", "msg", "tags")

    def __init__(self, t, data, allow, why, msg=None, tags=()):
        self.t = t
        self.data = data
        self.allow = allow
        self.why = why
        self.msg = msg
        self.tags = tags

    def __repr__(self):
        return f"{self.why} {self.data.hex()}"


class SessOracle:
    def __init__(self, sess, scen, M, out, probes):
        self.s = sess
        self.cfg = c = sess.cfg
        self.scen = scen
        self.M = M
        self.out = out
        self.probes = probes
        self.ver = {"v1": 0, "v2c": 1, "v3": 3}[c["version"]]
        self.sync = c["mode"] == "sync"
        self.comm = c.get("community", "public").encode()
        self.timeout = int(c.get("timeout", 10.0) * SEC)
        self.hz = scen.get("hz", 0)
        self.iters = {}
        self.rid = None
        self.msgid = None
        self.pending = None
        self.nsent = 0
        self.t_send = None
        self.sends = []
        u = c.get("user") or {}
        self.user_name = u.get("name", "").encode()
        self.has_auth = bool(u.get("auth"))
        self.has_priv = bool(u.get("priv")) and self.has_auth
        self.engine = bytes.fromhex(c.get("engine_id") or "")
        self.deferred = self.ver == 3 and not self.engine
        self.late_user = self.deferred  # the keys are localized after the discovery
        self.wild_engine = False
        self.boots = self.time = 0
        self.wild_bt = False
        self.salt = None
        self.salt_seen = set()
        self.fails = 0
        self.rx_seen = 0
        self.rx_last = -(1 << 62)
        self.arrivals = []
        self.keys_broken = False

    # ---- reporting
    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def bad(self, tags, cls, msg, t=None):
        self.out.append(Violation(tags, cls, msg, self.s.idx, self.t if t is None else t))

    # ---- state
    def cur_user(self):
        return b"" if self.deferred else self.user_name

    def cur_auth(self):
        return self.has_auth and not self.deferred

    def cur_priv(self):
        return self.has_priv and not self.deferred

    def keys(self, engine):
        return self.s.keys_for(engine)

    # ---- history
    def run(self):
        call = None
        for e in self.s.trace:
            self.t, kind = e[0], e[1]
            if kind == "call":
                call = Call(e[2], e[3], e[4], e[0])
                self.dgrams = []
                self.begin(call)
            elif kind == "send":
                self.on_send(call, e[2])
            elif kind == "senderr":
                call.senderr.append(e[3])
                call.attempts.append(e[2])
                self.fails += 1
            elif kind == "recv":
                self.rx_seen += 1
                self.rx_last = e[0]
                call.last_io = "recv"
                self.dgrams.append(self.classify(call, e[2], e[3]))
            elif kind == "recverr":
                if e[2] != 11:
                    call.recverr.append(e[2])
                    call.last_io = "err"
            elif kind == "arrive":
                self.arrivals.append((e[0], e[2]))
            elif kind == "ret":
                self.on_ret(call, e[2])
                call = None
        return call

    def begin(self, call):
        k = call.op["op"]
        it = self.iters.get(call.it)
        call.iter = it
        if it is not None and it.stopped:
            it.unknown = True  # Asked again after the end
        call.kind = it.kind if k == "next" and it else k

    # ---- requests
    def expected_request(self, call):
        """(pdu tag, non-repeaters, max-repetitions, oids) or None for anything."""
        op = call.op
        k = call.kind
        if k in ("refresh", "enter"):
            return ber.GET, 0, 0, []
        if k == "get":
            return ber.GET, 0, 0, [op["oid"]]
        if k == "get_many":
            return ber.GET, 0, 0, list(op["oids"])
        it = call.iter
        if it is None:
            return None
        if k == "getbulk":
            return ber.GETBULK, 0, it.mr, [it.accepted]
        return ber.GETNEXT, 0, 0, [it.accepted]

    def on_send(self, call, data):
        walk = call.kind in ("getnext", "getbulk")
        refresh = call.kind in ("refresh", "enter")
        if call.kind in ("new", "iter", "engine_id", "master_key", "localized_key", "raw_v3", "policer"):
            self.bad(("C03",), "unexpected-send", f"{call.kind} sent a datagram {data.hex()}")
            return
        if call.sends:
            if not refresh:
                self.bad(
                    ("C03", "C04") + (("C06", "C05") if walk else ()), "extra-request",
                    f"{call.kind} sent one more request before it returned: {data.hex()}",
                )
            else:
                answered = bool(self.dgrams)
                self.phase_done(call)
                if answered:
                    call.t_first = None  # Otherwise it is the same request once more
        call.sends += 1
        self.dgrams = []
        call.t_send = self.t
        if call.t_first is None:
            call.t_first = self.t
        self.nsent += 1
        self.sends.append((call.t, self.t, call))
        m = ber.Msg()
        tags = ("C03", "C15", "C17", "C13" if refresh else "C03")
        stage = "message"
        try:
            ber.decode_msg(data, minimal=True, msg=m)
            if m.ver == 3:
                if m.enc is not None:
                    plain = self.check_cipher(call, data, m)
                    if plain is None:
                        self.learn(m)
                        return
                    stage = "decrypted scoped PDU"
                    tags = ("C11", "C03", "C15", "C17")
                    ber.decode_scoped(plain, m, minimal=True, padded=True)
                else:
                    ber.decode_scoped(m.plain, m, minimal=True)
        except BerError as e:
            self.bad(tags, "malformed-request", f"{stage} of {call.kind} is not well-formed minimal BER: {e}: {data.hex()}")
            self.learn(m)
            return
        self.check_request(call, data, m)
        self.learn(m)

    def learn(self, m):
        self.rid = m.pdu.rid if m.pdu is not None else None
        self.msgid = m.msgid

    def check_request(self, call, data, m):
        bad = self.bad
        what = f"{call.kind} request {data.hex()}"
        if m.ver != self.ver:
            bad(("C03",), "version", f"version {m.ver} instead of {self.ver} in {what}")
            return
        if m.ver != 3:
            if m.comm != self.comm:
                bad(("C03", "C15"), "community", f"community {m.comm!r} instead of {self.comm!r} in {what}")
        else:
            self.check_v3(call, data, m, what)
        p = m.pdu
        if not 0 <= p.rid <= 0x7FFFFFFF:
            bad(("C03",), "request-id", f"request-id {p.rid} is out of range in {what}")
        for v, t, c in p.vbs:
            if t != 5 or c:
                bad(("C03",), "not-null", f"OID {ber.oid_text(v)} is bound to tag {t:#x} {c.hex()} in {what}")
        exp = self.expected_request(call)
        if exp is None:
            return
        tag, a, b, oids = exp
        walk = call.kind in ("getnext", "getbulk")
        if p.tag != tag:
            bad(("C03", "C05") if walk else ("C03",), "pdu-type", f"PDU {p.tag:#x} instead of {tag:#x} in {what}")
            return
        if (p.a, p.b) != (a, b):
            bad(("C03", "C05") if walk else ("C03",), "pdu-fields",
                f"fields ({p.a}, {p.b}) instead of ({a}, {b}) in {what}")
        got = [v for v, _, _ in p.vbs]
        if walk and call.iter.base == ("?",):
            if got:
                self.check_oid(got[0], call.iter.text)
            return
        if walk and call.iter.unknown:
            return
        if walk:
            want = oids
            if got != want:
                bad(("C06", "C05", "C03"), "follow-up",
                    f"walk asked for {[ber.oid_text(x) for x in got]} instead of the last accepted "
                    f"{[ber.oid_text(x) for x in want]}")
            return
        if len(got) != len(oids):
            bad(("C03", "C17", "C08"), "oid-count", f"{len(got)} OIDs instead of {len(oids)} in {what}")
            return
        for g, text in zip(got, oids):
            self.check_oid(g, text)

    def check_oid(self, got, text):
        """The OID on the wire against the text."""
        want = denote(text)
        if want is None and isinstance(text, str) and text.startswith("."):
            want = denote(text[1:])  # left open
        if want is None:
            self.bad(("C08", "C03"), "oid-accepted", f"{text!r} is not an OID, but {ber.oid_text(got)} was sent")
        elif got != want:
            self.bad(("C08", "C03", "C15"), "oid-changed", f"{ber.oid_text(got)} was sent for {text!r}")

    def check_v3(self, call, data, m, what):
        bad = self.bad
        if not 0 <= m.msgid <= 0x7FFFFFFF:
            bad(("C03",), "msgid", f"msgID {m.msgid} is out of range in {what}")
        if not 484 <= m.maxsize <= 0x7FFFFFFF:
            bad(("C03",), "maxsize", f"msgMaxSize {m.maxsize} is out of range in {what}")
        if m.flags & 0xF8:
            bad(("C03",), "flags", f"reserved flags {m.flags:#x} in {what}")
        if call.kind in ("refresh", "enter") and not m.flags & 4:
            bad(("C13", "C03"), "reportable", f"refresh is not reportable: {what}")
        if self.keys_broken and self.deferred and m.user == self.user_name != b"":
            self.deferred = False
        if m.user != self.cur_user():
            bad(("C03", "C13", "C15"), "user", f"user {m.user!r} instead of {self.cur_user()!r} in {what}")
        if not self.wild_engine:
            if m.engine != self.engine:
                bad(("C03", "C13", "C15"), "engine",
                    f"engine id {m.engine.hex()} instead of {self.engine.hex()} in {what}")
            if m.ctx != self.engine:
                bad(("C03", "C13", "C15"), "context-engine",
                    f"context engine id {m.ctx.hex()} instead of {self.engine.hex()} in {what}")
        if m.ctxname:
            bad(("C03",), "context-name", f"context name {m.ctxname!r} in {what}")
        if not self.wild_bt and (m.boots, m.time) != (self.boots, self.time):
            bad(("C13", "C03", "C15"), "boots-time",
                f"boots/time {m.boots}/{m.time} instead of {self.boots}/{self.time} in {what}")
        if self.wild_engine:
            # Either reading was legitimate, now it is known
            self.engine = m.engine
            self.wild_engine = False
        if self.wild_bt:
            self.boots, self.time = m.boots, m.time
            self.wild_bt = False
        auth, priv = self.cur_auth(), self.cur_priv()
        if bool(m.flags & 1) != auth:
            bad(("C09", "C03", "C13"), "auth-flag", f"auth flag is {m.flags & 1}, key {'is' if auth else 'is not'} set: {what}")
        if bool(m.flags & 2) != priv:
            bad(("C14", "C03", "C11") + (("C13",) if self.late_user else ()), "priv-flag", f"priv flag is {m.flags & 2}, key {'is' if priv else 'is not'} set: {what}")
        alg, akey, _, _ = self.keys(m.engine)
        if auth:
            if self.keys_broken:
                pass
            elif len(m.authp) != 12:
                bad(("C09", "C03"), "mac-size", f"{len(m.authp)} octets of msgAuthenticationParameters in {what}")
            elif not usm.verify(alg, akey, data, m.auth_off, m.authp):
                bad(("C09", "C12", "C13", "C11"), "mac", f"HMAC-96 does not verify ({alg}): {what}")
            else:
                self.probe("mac_verified")
        elif m.authp:
            bad(("C09", "C03"), "mac-unexpected", f"msgAuthenticationParameters without a key in {what}")
        if priv and m.enc is None:
            bad(("C14", "C11"), "clear", f"scoped PDU is sent in clear: {what}")
        if not priv:
            if m.enc is not None:
                bad(("C03", "C11"), "encrypted", f"encrypted without a key: {what}")
            if m.privp:
                bad(("C03", "C11"), "privp", f"msgPrivacyParameters without a key in {what}")

    def check_cipher(self, call, data, m):
        """Returns the plain text."""
        bad = self.bad
        what = f"{call.kind} request {data.hex()}"
        if not self.cur_priv():
            bad(("C03", "C11"), "encrypted", f"encrypted without a key: {what}")
            return None
        _, _, palg, pkey = self.keys(m.engine)
        if self.keys_broken:
            return None
        if len(m.privp) != 8:
            bad(("C14", "C11"), "salt-size", f"{len(m.privp)} octets of msgPrivacyParameters in {what}")
            return None
        # Salt
        if m.privp in self.salt_seen:
            bad(("C14",), "salt-repeat", f"salt {m.privp.hex()} is repeated in {what}")
        self.salt_seen.add(m.privp)
        if palg == "des":
            if m.privp[:4] != (m.boots & 0xFFFFFFFF).to_bytes(4, "big"):
                bad(("C14",), "salt-boots", f"DES salt {m.privp.hex()} does not start with boots {m.boots} in {what}")
            n, mod = int.from_bytes(m.privp[4:], "big"), 1 << 32
        else:
            n, mod = int.from_bytes(m.privp, "big"), 1 << 64
        if self.salt is not None:
            step = (n - self.salt) % mod
            if step == 0:
                bad(("C14",), "salt-repeat", f"salt counter {n} is repeated in {what}")
            elif step > 1 + self.fails:
                bad(("C14",), "salt-step", f"salt counter moved {self.salt} -> {n} in {what}")
            if n < self.salt:
                self.probe("salt_wrap")
        self.salt = n
        self.fails = 0
        if palg == "des" and (len(m.enc) % 8 or not m.enc):
            bad(("C11",), "cipher-size", f"{len(m.enc)} octets of DES ciphertext in {what}")
            return None
        plain = usm.decrypt(palg, pkey, m.boots, m.time, m.privp, m.enc)
        # Does it decode?
        x = ber.Msg()
        try:
            ber.decode_scoped(plain, x, padded=True)
        except BerError as e:
            bad(("C11", "C12") + (("C13",) if self.late_user else ()), "cipher",
                f"msgData does not decrypt to a scoped PDU ({palg}): {e}: plain {plain.hex()} in {what}")
            return None
        if len(x.pad) >= (8 if palg == "des" else 16):
            bad(("C11",), "padding", f"{len(x.pad)} octets of padding in {what}")
            return None
        self.probe("decrypted_" + palg)
        # Leaks
        outside = data.replace(m.enc, b"\x00\x00")
        if m.user:
            outside = outside.replace(m.user, b"\x00\x00")
        runs = [x.ctx] if x.ctx and x.ctx != m.engine else []
        runs += [ber.enc_oid(v)[2:] for v, _, _ in x.pdu.vbs]
        for c in runs:
            # Short runs may meet there by chance
            if len(c) >= 8 and any(c[i : i + 8] in outside for i in range(len(c) - 7) if len(set(c[i : i + 8])) > 3):
                bad(("C14",), "leak", f"octets of {c.hex()} of the scoped PDU are sent in clear in {what}")
                break
        return plain

    # ---- datagrams
    def classify(self, call, data, full):
        """What the properties allow to happen with the datagram."""
        if full > len(data):
            return Dgram(self.t, data, {SKIP, DECODE, ANY}, "cut by the receive buffer")
        own = ("C15",) if data in self.s.sent else ()
        m = ber.Msg()
        try:
            ber.decode_msg(data, msg=m)
        except BerError as e:
            miss = self.mismatch(m)
            if self.ver != 3 and m.ptag is not None and m.ptag & 0x1F == 8 and m.ver == self.ver:
                # Nobody looks inside of the report
                return Dgram(self.t, data, {SKIP, DECODE}, f"irregular report ({e})", m, ("C04",))
            if e.kind in ber.HARD:
                if miss:
                    return Dgram(self.t, data, {SKIP, DECODE}, f"malformed ({e}) and {miss}", m, ("C16", "C04"))
                return Dgram(self.t, data, {DECODE}, f"malformed ({e})", m, ("C16", "C04"))
            if miss:
                return Dgram(self.t, data, {SKIP, DECODE}, f"irregular ({e}) and {miss}", m, ("C04",))
            return Dgram(self.t, data, {SKIP, DECODE, ANY}, f"irregular ({e})", m)
        if m.ver != self.ver:
            return Dgram(self.t, data, {DECODE}, f"version {m.ver}", m, ("C04",))
        if m.ver != 3:
            miss = self.mismatch(m)
            if miss:
                return Dgram(self.t, data, {SKIP, DECODE} if self.odd(m) else {SKIP}, miss, m, ("C04",) + own)
            if m.pdu.tag != ber.RESPONSE:
                return Dgram(self.t, data, {SKIP, DECODE, ANY}, f"PDU {m.pdu.tag:#x}", m)
            return Dgram(self.t, data, {DELIVER}, "matching reply", m)
        return self.classify_v3(data, m, own)

    @staticmethod
    def odd(m):
        """The PDU is well-formed on the outside, but some of its values denote nothing."""
        try:
            for i, (_, t, c) in enumerate(m.pdu.vbs):
                ber.value(t, c, f"vb{i}")
                if m.pdu.tag not in (ber.RESPONSE, ber.REPORT) and t != 5:
                    return True
            if m.pdu.tag in (ber.GET, ber.GETNEXT) and (m.pdu.a or m.pdu.b):
                return True
        except BerError:
            return True
        return False

    def mismatch(self, m):
        """Reason why the (perhaps partially) decoded message does not match."""
        if m.ver is None:
            return ""
        if m.ver != self.ver:
            return f"version {m.ver}"
        if m.ver != 3:
            if m.comm is not None and m.comm != self.comm:
                return f"community {m.comm!r}"
        else:
            if m.user is not None and m.user != self.cur_user():
                return f"user {m.user!r}"
            if m.engine is not None and self.engine and not self.wild_engine and m.engine != self.engine:
                return f"engine id {m.engine.hex()}"
            if m.msgid is not None and m.msgid != self.msgid:
                return f"msgID {m.msgid}"
        if m.pdu is not None and m.pdu.rid != self.rid:
            return f"request-id {m.pdu.rid}"
        return ""

    def classify_v3(self, data, m, own):
        loose = set()
        if self.keys_broken:
            return Dgram(self.t, data, {SKIP, DECODE, ANY}, "keys of unknown engine", m)
        if m.enc is not None:
            if not self.cur_priv():
                return Dgram(self.t, data, {SKIP, DECODE}, "encrypted, no key", m, ("C04",))
            _, _, palg, pkey = self.keys(m.engine)
            if len(m.privp) != 8 or (palg == "des" and len(m.enc) % 8) or not m.enc:
                return Dgram(self.t, data, {SKIP, DECODE}, "not decipherable", m, ("C04", "C11"))
            plain = usm.decrypt(palg, pkey, m.boots, m.time, m.privp, m.enc)
            try:
                ber.decode_scoped(plain, m, padded=True)
            except BerError as e:
                if m.ptag is not None and m.ptag & 0x1F == 8 and not self.mismatch(m):
                    # Nobody looks inside of the report
                    return Dgram(self.t, data, {SKIP, DECODE, ANY}, f"irregular report ({e})", m)
                if m.ptag is None and e.kind not in ber.HARD and not self.mismatch(m) and self.insecure(data, m):
                    return Dgram(self.t, data, {SKIP, DECODE, RPT}, f"irregular payload ({e})", m, ("C10", "C04"))
                if e.kind in ber.HARD or self.mismatch(m) or self.insecure(data, m):
                    return Dgram(self.t, data, {SKIP, DECODE}, f"malformed payload ({e})", m, ("C16", "C04", "C10"))
                return Dgram(self.t, data, {SKIP, DECODE, ANY}, f"irregular payload ({e})", m)
            if not m.flags & 2:
                loose.add(SKIP)
        else:
            try:
                ber.decode_scoped(m.plain, m)
            except BerError as e:
                miss = self.mismatch(m)
                sec = self.insecure(data, m)
                if m.ptag is not None and m.ptag & 0x1F == 8 and not miss:
                    return Dgram(self.t, data, {SKIP, DECODE, ANY}, f"irregular report ({e})", m)
                if e.kind in ber.HARD:
                    # Nobody is obliged to look inside of the message, which fails the outer checks
                    a = {SKIP, DECODE} if miss or sec else {DECODE}
                    return Dgram(self.t, data, a, f"malformed ({e}) {miss}", m, ("C16", "C04"))
                if miss or sec:
                    a = {SKIP, DECODE} if miss or m.ptag is not None else {SKIP, DECODE, RPT}
                    return Dgram(self.t, data, a, f"irregular ({e}) {miss}", m, ("C04",) if miss else ("C10", "C04"))
                return Dgram(self.t, data, {SKIP, DECODE, ANY}, f"irregular ({e})", m)
            if m.flags & 2:
                loose.add(SKIP)
        report = m.pdu.tag == ber.REPORT
        odd = self.odd(m)
        if odd and m.enc is not None:
            loose.add(SKIP)
        miss = self.mismatch(m)
        if self.wild_engine:
            loose.add(SKIP)
        if miss:
            if report and miss.startswith("request-id"):
                return Dgram(self.t, data, {SKIP, DELIVER}, f"report with {miss}", m)
            return Dgram(self.t, data, {SKIP, DECODE} if odd else {SKIP}, miss, m, ("C04",) + own)
        sec = self.insecure(data, m)
        if m.pdu.tag not in (ber.RESPONSE, ber.REPORT):
            a = {SKIP, DECODE} if sec else {SKIP, DECODE, ANY}
            return Dgram(self.t, data, a, f"PDU {m.pdu.tag:#x}", m, ("C10",))
        if report:
            if sec and (m.flags & 3 or m.authp):
                return Dgram(self.t, data, {SKIP, DELIVER}, f"report, {sec}", m)
            if sec and self.wild_engine:
                return Dgram(self.t, data, {SKIP, DELIVER}, f"report, {sec}", m)
            return Dgram(self.t, data, {DELIVER} | loose, "report", m)
        if sec:
            return Dgram(self.t, data, {SKIP, DECODE} if odd else {SKIP}, sec, m, ("C10",))
        if m.flags & 1 and not self.cur_auth():
            loose.add(SKIP)
        if m.ctx != m.engine or m.ctxname:
            loose.add(SKIP)
        if not self.engine and not m.engine:
            loose.add(SKIP)
        if m.flags & 2 and not m.flags & 1:
            loose.add(SKIP)
        if loose:
            loose.add(DECODE)
        return Dgram(self.t, data, {DELIVER} | loose, "matching reply", m)

    def insecure(self, data, m):
        """Reason why the message does not reach the security level of the session."""
        if self.cur_auth():
            if not m.flags & 1:
                return "auth flag is clear"
            alg, akey, _, _ = self.keys(m.engine)
            if not usm.verify(alg, akey, data, m.auth_off, m.authp):
                return "MAC does not verify"
        if self.cur_priv() and m.enc is None:
            return "sent in clear"
        return ""

    # ---- acceptance
    def accept(self, call, d):
        """The client accepted the datagram."""
        m = d.msg
        sure = d.allow == {DELIVER}
        if self.ver == 3:
            if m is None or m.boots is None or m.time is None or not (sure or d.allow <= {DELIVER, SKIP, DECODE}):
                self.wild_bt = True
                if not self.engine:
                    self.wild_engine = True
            elif not sure and SKIP in d.allow:
                # Nobody knows, whether it was accepted: two readings of the same outcome
                if (m.boots, m.time) != (self.boots, self.time):
                    self.wild_bt = True
                if not self.engine:
                    self.wild_engine = True
            else:
                self.boots, self.time = m.boots, m.time
                self.wild_bt = False
                if not self.engine and not self.wild_engine:
                    self.engine = m.engine
                    if m.engine:
                        self.probe("engine_learned")
                    else:
                        self.wild_engine = True

    def unsure(self):
        """Nobody knows, what was taken from the last datagram."""
        self.wild_bt = True
        if not self.engine:
            self.wild_engine = True

    def install_user(self):
        if self.deferred:
            self.deferred = False
            self.probe("user_installed")
            if not self.engine or self.wild_engine:
                # The discovery was answered without the engine id, nobody knows what the keys are localized to
                self.keys_broken = True

    def phase_done(self, call, final=False):
        """Refresh: the phase was completed, as the next one is started."""
        if not self.dgrams:
            self.bad(("C13", "C03"), "refresh-blind", "refresh went on without any answer of the agent")
        else:
            self.skipped(call, self.dgrams[:-1])
            d = self.dgrams[-1]
            self.delivered(call, d, None, None)
        self.install_user()
        self.time_check(call, "refresh-phase")

    def skipped(self, call, dgrams):
        for d in dgrams:
            if SKIP not in d.allow:
                if DELIVER in d.allow and len(d.allow) == 1:
                    self.bad(self.match_tags(call, d), "matching-skipped", f"{d.why} was not delivered by {call.kind}: {d.data.hex()}")
                elif DECODE in d.allow:
                    self.bad(d.tags or ("C04",), "malformed-skipped", f"datagram did not end {call.kind}: {d.why}: {d.data.hex()}")
            else:
                self.probe("skipped")

    def match_tags(self, call, d):
        t = set(MATCHED)
        if not self.cur_priv():
            t.discard("C11")
        return tuple(t)

    def delivered(self, call, d, out, cat):
        """The call was ended with the contents of the datagram d. cat is None for the refresh phase."""
        if RPT in d.allow and (cat in (None, "auth") or call.kind in ("refresh", "enter")):
            d.allow = d.allow | {ANY}
        if not d.allow & {DELIVER, ANY}:
            tags = d.tags or ("C04",)
            if DECODE in d.allow and SKIP not in d.allow:
                tags = tuple(tags) + ("C16",)
            self.bad(tuple(tags) + ("C04",) if "C10" not in tags else tags, "wrong-delivered",
                     f"{call.kind} ended with {out!r} by the datagram which must not be delivered ({d.why}): {d.data.hex()}")
        else:
            truth = self.s.answers.get(d.data)
            if truth and self.nsent - 1 not in truth and call.kind not in ("refresh", "enter"):
                if d.msg is None or d.msg.pdu is None or d.msg.pdu.tag == ber.RESPONSE:
                    self.bad(("C04", "C05"), "stale-delivered",
                             f"{call.kind} returned the answer to another request: {d.data.hex()}")
        self.accept(call, d)
        self.probe("delivered")

    # ---- results
    def on_ret(self, call, out):
        cat = category(out.exc, self.M)
        k = call.kind
        if cat == "panic":
            self.on_panic(call, out)
            return
        if cat == "cancel":
            if call.op.get("cancel") is None and call.kind not in ("getnext", "getbulk"):
                self.bad(("C01", "C18"), "cancelled", f"{k} raised CancelledError by itself")
            self.probe("cancelled")
            self.after_unknown(call)
            return
        f = getattr(self, "ret_" + k, None)
        if f is not None:
            f(call, out, cat)
            return
        if k in ("refresh", "enter"):
            self.ret_refresh(call, out, cat)
            return
        self.ret_request(call, out, cat)

    def after_unknown(self, call):
        """The call ended in the middle."""
        for d in self.dgrams:
            if d.allow & {DELIVER, ANY, RPT}:
                self.wild_bt = True
                if not self.engine:
                    self.wild_engine = True
        if call.iter is not None:
            call.iter.unknown = True
        if call.kind in ("refresh", "enter") and self.deferred:
            if any(d.allow & {DELIVER, ANY, RPT} for d in self.dgrams):
                # May be between the phases
                self.keys_broken = True

    def on_panic(self, call, out):
        name = type(out.exc).__name__
        tags = {"C01"}
        where = call.kind
        if self.dgrams:
            d = self.dgrams[-1]
            where += f" after {d.why}: {d.data.hex()}"
            if d.allow == {DELIVER}:
                tags |= set(self.match_tags(call, d))
            tags |= set(d.tags)
        else:
            tags = set(ALL) - {"C01", "C19"}
            if call.kind in ("new", "master_key", "localized_key", "raw_v3"):
                tags = {"C12", "C17", "C08"}
        self.bad(tags, "panic", f"{name}: {out.exc} in {where}")

    # -- local calls
    def ret_new(self, call, out, cat):
        c = self.cfg
        rps = c.get("limit_rps")
        if rps is not None and rps < 0:
            if out.exc is None:
                self.bad(("C19",), "rps-accepted", f"limit_rps={rps} is accepted")
            return
        if out.exc is not None and not c.get("may_refuse"):
            self.bad(("C12", "C13", "C17", "C03", "C09", "C18", "C19"), "refused", f"session is refused: {out!r}")

    def ret_iter(self, call, out, cat):
        op = call.op
        kind = op["kind"]
        if kind == "fetch":
            kind = "getbulk" if self.ver != 0 and self.cfg.get("allow_bulk", True) else "getnext"
        text = op["oid"]
        if out.exc is not None:
            if must_accept(text):
                self.bad(("C08", "C05", "C03"), "oid-refused", f"{kind}({text!r}) is refused: {out!r}")
            return
        arcs = denote(text)
        if arcs is None:
            arcs = denote(text[1:]) if text.startswith(".") else None
        if arcs is None:
            # Will be refused or reported on sending
            arcs = ("?",)
        mr = op.get("mr") or self.cfg.get("max_repetitions", 20)
        self.iters[call.it] = Iter(arcs, kind, mr)
        self.iters[call.it].text = text

    def ret_engine_id(self, call, out, cat):
        if self.ver != 3:
            if not isinstance(out.exc, NotImplementedError):
                self.bad(("C13",), "engine-id", f"get_engine_id() returned {out!r} without SNMPv3")
            return
        if cat != "value":
            self.bad(("C13",), "engine-id", f"get_engine_id() raised {out!r}")
        elif not self.wild_engine and out.value != self.engine:
            self.bad(("C13",), "engine-id", f"get_engine_id() returned {out.value.hex()}, agent is {self.engine.hex()}")

    def ret_master_key(self, call, out, cat):
        op = call.op
        if "alg_code" in op and isinstance(out.exc, (AttributeError, TypeError)):
            return  # The internals are arranged otherwise
        p = bytes.fromhex(op["passwd"]) * op.get("rep", 1)
        alg = op.get("alg") or {1: "md5", 2: "sha1"}.get(op["alg_code"] & 0x3F)
        if op.get("alg_code", 1) & 0x3F == 0:
            return  # left open
        if not p or alg is None:
            if cat == "value":
                self.bad(("C12",), "key-accepted", f"{op} returned {out!r}")
            return
        want = usm.password_to_key(alg, p)
        if out.value != want:
            self.bad(("C12",), "master-key", f"{op} returned {out!r} instead of {want.hex()}")
        else:
            self.probe("master_key")

    def ret_localized_key(self, call, out, cat):
        op = call.op
        if "alg_code" in op and isinstance(out.exc, (AttributeError, TypeError)):
            return  # The internals are arranged otherwise
        key, eng = bytes.fromhex(op["key"]), bytes.fromhex(op["engine"])
        alg = op.get("alg") or {1: "md5", 2: "sha1"}.get(op["alg_code"] & 0x3F)
        if op.get("alg_code", 1) & 0x3F == 0:
            return
        if alg is None or len(key) != usm.ALG[alg][1]:
            if cat == "value":
                self.bad(("C12",), "key-accepted", f"{op} returned {out!r}")
            return
        want = usm.localize(alg, key, eng)
        if out.value != want:
            self.bad(("C12",), "localized-key", f"{op} returned {out!r} instead of {want.hex()}")
        else:
            self.probe("localized_key")

    def ret_raw_v3(self, call, out, cat):
        op = call.op

        def valid(a):
            aa, pa = a["auth_alg"], a["priv_alg"]
            code = aa & 0x3F
            if code not in (0, 1, 2):
                return False
            size = {0: 0, 1: 16, 2: 20}[code]

            def key_ok(alg, key):
                t = alg >> 6
                n = len(bytes.fromhex(key))
                if t == 0:
                    return n > 0
                if t in (1, 2):
                    return n == size
                return False

            if code == 0:
                return None if pa & 0x3F else True
            if not key_ok(aa, a["auth_key"]):
                return False
            if pa & 0x3F == 0:
                return True
            if pa & 0x3F not in (1, 2):
                return False
            return key_ok(pa, a["priv_key"])

        def check(a, user, raw):
            """Message of the raw socket, against the keys derived independently."""
            eng = bytes.fromhex(op["args"]["engine"])
            aa, pa = a["auth_alg"], a["priv_alg"]
            alg = {1: "md5", 2: "sha1"}.get(aa & 0x3F)

            def loc(code, key):
                key = bytes.fromhex(key)
                if code >> 6 == 2:
                    return key
                return usm.localize(alg, usm.password_to_key(alg, key) if code >> 6 == 0 else key, eng)

            try:
                m = ber.decode_msg(raw, minimal=True)
                if m.engine != eng or m.user != user.encode() or m.flags & 3 != (1 if alg else 0) | (2 if alg and pa & 0x3F else 0):
                    return ("C12", "C03"), "raw-header"
                if alg is None:
                    return None
                if not usm.verify(alg, loc(aa, a["auth_key"]), raw, m.auth_off, m.authp):
                    return ("C12", "C09"), "raw-mac"
                if pa & 0x3F:
                    if m.enc is None or len(m.privp) != 8:
                        return ("C12", "C14"), "raw-clear"
                    ber.decode_scoped(usm.decrypt({1: "des", 2: "aes"}[pa & 0x3F], loc(pa, a["priv_key"])[:16], m.boots, m.time, m.privp, m.enc), m, padded=True)
                    if m.pdu.tag != ber.GET:
                        return ("C12", "C11"), "raw-pdu"
            except ber.BerError as e:
                return ("C12", "C11"), f"raw-encoding {e}"
            return None

        if isinstance(out.exc, (AttributeError, TypeError)):
            return  # The internals are arranged otherwise
        v = valid(op["args"])
        if v and cat == "value":
            a = op["args"]
            for raw in out.value:
                if raw is None:
                    a = op["set"]
                    if not valid(a):
                        break
                    continue
                x = check(a, a["user"], raw)
                if x:
                    self.bad(x[0], x[1], f"{op}: {raw.hex()}")
                    break
                self.probe("raw_message")
        if "set" in op and v:
            v = valid(op["set"])
        if v is None:
            return
        if v and cat != "value":
            self.bad(("C12",), "key-refused", f"{op} raised {out!r}")
        elif not v and cat == "value":
            self.bad(("C12",), "key-accepted", f"{op} is accepted")
        else:
            self.probe("key_refused" if not v else "key_accepted")

    def ret_policer(self, call, out, cat):
        op = call.op
        if cat != "value":
            self.bad(("C19",), "policer", f"{op} raised {out!r}")
            return
        rps = op["rps"]
        state, res = out.value
        finite = rps == rps and rps not in (float("inf"), float("-inf"))
        if state == "refused":
            if not isinstance(res, Exception):
                self.bad(("C19", "C01"), "policer", f"RPSPolicer({rps}) raised {res!r}")
            if finite and 1e-6 <= rps <= 1e9:
                self.bad(("C19",), "rps-refused", f"RPSPolicer({rps}) is refused: {res!r}")
            return
        if not finite or rps <= 0 or rps > 2e9:
            self.bad(("C19",), "rps-accepted", f"RPSPolicer({rps}) is accepted")
            return
        from fractions import Fraction

        delta = Fraction(10**9) / Fraction(rps)
        rel = []
        for ts, t in res:
            d = t or 0
            if d < 0:
                self.bad(("C19",), "policer-negative", f"RPSPolicer({rps}) delay {d} at {ts}")
            if d > delta + 1:
                self.bad(("C19",), "policer-delay", f"RPSPolicer({rps}) delayed {d}ns at {ts}, interval {float(delta)}ns")
                return
            rel.append(ts + max(0, d))
        # r[i+k] - r[i] > (k - 1) * delta for all i, k >= 1, i.e. r[j] - j*delta > r[i] - (i+1)*delta.
        best = None
        for j, r in enumerate(rel):
            v = r - j * delta
            if best is not None:
                i, w = best
                if j - i >= 1 and v + delta <= w - delta * Fraction(1, 10**9) and not (j - i == 1 and rel[j] == rel[i]):
                    self.bad(("C19",), "policer-rate",
                             f"RPSPolicer({rps}): {j-i+1} consecutive releases span {rel[j]-rel[i]}ns, which is not more "
                             f"than {j-i-1} intervals of {float(delta)}ns (requests {i}..{j})")
                    return
            if best is None or v > best[1]:
                best = (j, v)
        self.probe("policer_sequence")

    # -- network calls
    def time_check(self, call, what):
        """Did it last too long?"""
        el = self.t - (call.t_send if call.t_first is None else call.t_first)
        limit = max(self.timeout, 0) + SLACK
        if self.hz:
            limit += 2 * SEC // self.hz
        if what == "refresh-phase" and self.cfg.get("limit_rps", 0) > 0:
            limit += int(SEC / self.cfg["limit_rps"])  # The next request waits for its turn
        if el > limit:
            self.bad(("C18",), "too-late",
                     f"{what} lasted {el/SEC:.6f}s after sending, timeout is {self.timeout/SEC:.6f}s")

    def ret_refresh(self, call, out, cat):
        need = self.ver == 3 and (self.deferred or self.has_auth)
        if not call.sends:
            self.no_send(call, out, cat, need)
            return
        self.time_check(call, "refresh")
        if cat == "value":
            if out.value is not None:
                self.bad(("C13", "C07"), "refresh-value", f"refresh returned {out!r}")
            if not self.dgrams:
                self.bad(("C13", "C04"), "refresh-blind", "refresh returned without any answer of the agent")
                return
            self.skipped(call, self.dgrams[:-1])
            self.delivered(call, self.dgrams[-1], out, cat)
            self.install_user()
            return
        if cat == "encode" and self.deferred and self.dgrams and self.dgrams[-1].allow & {DELIVER, ANY}:
            # The first phase is done and the second one does not fit
            self.skipped(call, self.dgrams[:-1])
            self.delivered(call, self.dgrams[-1], None, None)
            self.install_user()
            self.no_send(call, out, cat)
            return
        self.failed(call, out, cat, refresh=True)

    def no_send(self, call, out, cat, need=True):
        """The call was ended without a sent request."""
        k = call.kind
        if cat != "value" or need:
            self.fails += 1
        if not need:
            if cat != "value":
                self.bad(("C13", "C01"), "refresh-failed", f"{k} raised {out!r} with nothing to do")
            return
        if call.senderr:
            if cat not in ("oserror", "blocking", "timeout"):
                self.bad(("C01", "C17", "C03"), "send-error", f"{k} ended with {out!r} after errno {call.senderr}")
            if 90 in call.senderr and cat != "encode":
                self.probe("emsgsize")
            return
        if cat in ("value", "stop"):
            if cat == "stop" and call.iter is not None and call.iter.stopped:
                return
            self.bad(("C03", "C04", "C13" if k in ("refresh", "enter") else "C06", "C05"), "no-request",
                     f"{k} ended with {out!r} without sending any request")
            return
        exp = self.expected_request(call)
        oids = [] if exp is None else exp[3]
        ok = all(must_accept(x) if isinstance(x, str) else True for x in oids)
        if call.iter is not None and call.iter.unknown:
            return
        if cat == "encode":
            if ok and exp is not None:
                n = self.max_size(exp)
                if n is not None and n <= BUF:
                    self.bad(("C17", "C03", "C08"), "encode-refused",
                             f"{k} of at most {n} octets raised {out!r}, buffer is {BUF}")
                else:
                    self.probe("encode_error")
            return
        if ok:
            n = self.max_size(exp) if exp is not None else 0
            if n is not None and n > BUF and exp is not None:
                self.bad(("C17",), "oversize-error", f"{k} of {n} octets raised {out!r} instead of SnmpEncodeError")
                return
            self.bad(("C08", "C03", "C17", "C05", "C01", "C13"), "call-refused", f"{k} {oids[:3]} raised {out!r}")
            return
        self.probe("oid_refused")

    def max_size(self, exp):
        """Octets of the largest message, which such a request may take."""
        tag, a, b, oids = exp
        arcs = [denote(x) if isinstance(x, str) else x for x in oids]
        if self.wild_engine or self.wild_bt:
            return None
        vbs = b"".join(ber.tlv(ber.SEQ, ber.enc_oid(x) + b"\x05\x00") for x in arcs)
        pdu = ber.tlv(tag, ber.enc_int(0x7FFFFFFF) + ber.enc_int(a) + ber.enc_int(b) + ber.tlv(ber.SEQ, vbs))
        if self.ver != 3:
            n = len(ber.tlv(ber.SEQ, ber.enc_int(self.ver) + ber.tlv(ber.OCT, self.comm) + pdu))
            return n
        scoped = ber.tlv(ber.SEQ, ber.tlv(ber.OCT, self.engine) + ber.tlv(ber.OCT, b"") + pdu)
        if self.cur_priv():
            _, _, palg, _ = self.keys(self.engine)
            n = len(scoped)
            n += -n % 16  # less than one block of padding is allowed
            data = ber.tlv(ber.OCT, bytes(n))
        else:
            data = scoped
        sec = (
            ber.tlv(ber.OCT, self.engine) + ber.enc_int(self.boots) + ber.enc_int(self.time)
            + ber.tlv(ber.OCT, self.cur_user()) + ber.tlv(ber.OCT, bytes(12 if self.cur_auth() else 0))
            + ber.tlv(ber.OCT, bytes(8 if self.cur_priv() else 0))
        )
        glob = ber.tlv(ber.SEQ, ber.enc_int(0x7FFFFFFF) + ber.enc_int(0x7FFFFFFF) + ber.tlv(ber.OCT, b"\x00")
                       + ber.enc_int(3))
        return len(ber.tlv(ber.SEQ, ber.enc_int(3) + glob + ber.tlv(ber.OCT, ber.tlv(ber.SEQ, sec)) + data))

    def failed(self, call, out, cat, refresh=False):
        """The request was sent and the call ended with an exception, which does not carry the contents of a reply."""
        k = call.kind
        ds = self.dgrams
        walk = call.iter is not None
        if cat in ("timeout", "blocking"):
            if cat == "blocking":
                self.bad(("C18", "C07"), "blocking", f"{k} raised {out!r} instead of TimeoutError")
            if call.last_io == "err" and call.recverr and call.recverr[-1] == 111:
                # Refused
                self.skipped(call, ds)
                return
            while ds and ds[-1].t + 2 * MS >= call.t_send + self.timeout and DELIVER in ds[-1].allow:
                # Read as the timeout was over: the deadline wins, and nobody knows what was taken from the reply
                self.probe("late_read")
                self.unsure()
                if walk:
                    call.iter.unknown = True
                ds = ds[:-1]
            self.skipped(call, ds)
            el = self.t - call.t_send
            if el + 2 * MS < self.timeout:
                self.bad(("C18", "C04"), "too-early",
                         f"{k} raised {out!r} {el/SEC:.6f}s after sending, timeout is {self.timeout/SEC:.6f}s")
            if len(self.arrivals) > self.rx_seen:
                t, n = self.arrivals[self.rx_seen]
                # The client, which is busy with the previous datagrams, may leave it
                if max(t, self.rx_last) + 2 * MS < min(self.t, call.t_send + self.timeout):
                    self.bad(("C18", "C04"), "not-received",
                             f"{k} raised {out!r}, though the datagram of {n} octets waits for {(self.t-t)/MS:.3f}ms")
            self.probe("timeout")
            return
        if cat == "decode":
            if not ds:
                self.bad(("C04", "C07"), "decode-nothing", f"{k} raised {out!r} without any datagram")
                return
            self.skipped(call, ds[:-1])
            d = ds[-1]
            if not d.allow & {DECODE, ANY} and not (DELIVER in d.allow and self.decode_ok(call, d)):
                if d.allow == {DELIVER}:
                    self.bad(self.match_tags(call, d), "matching-refused", f"{k} raised {out!r} on {d.why}: {d.data.hex()}")
                elif d.allow == {SKIP}:
                    self.bad(tuple(d.tags) + ("C04", "C18"), "skippable-ended",
                             f"{k} raised {out!r} on a datagram to be skipped ({d.why}): {d.data.hex()}")
            if d.allow & {DELIVER, ANY}:
                self.unsure()
            self.probe("decode_error")
            return
        if cat == "oserror":
            if not call.recverr and not call.senderr:
                self.bad(("C01", "C04", "C07"), "oserror", f"{k} raised {out!r} by itself")
            self.skipped(call, ds)
            self.probe("oserror")
            return
        if ds and ds[-1].allow & {ANY}:
            self.skipped(call, ds[:-1])
            self.wild_bt = True
            if not self.engine:
                self.wild_engine = True
            if cat == "other":
                self.bad(("C01",), "undocumented", f"{k} raised undocumented {out!r} on {ds[-1]!r}")
            return
        d = ds[-1] if ds else None
        tags = {"C07", "C04", "C01"}
        if d is not None and d.allow == {DELIVER}:
            tags |= set(self.match_tags(call, d))
        if refresh:
            tags |= {"C13"}
        if cat == "encode":
            tags |= {"C17"}
        self.bad(tags, "wrong-exception", f"{k} raised {out!r} after {d!r}")

    def ret_request(self, call, out, cat):
        it = call.iter
        if not call.sends:
            if it is not None and it.kind == "getbulk" and (it.queue or it.weak):
                if cat in ("value", "stop"):
                    self.buffered(call, out, cat)
                    return
            if it is not None and it.stopped and cat == "stop":
                return
            self.no_send(call, out, cat)
            return
        if it is not None and it.kind == "getbulk" and not it.weak and not it.unknown and any(
            x[0] != "maybe-stop" for x in it.queue
        ):
            self.bad(("C05", "C06", "C02"), "lost", f"walk dropped {len(it.queue)} received entries, first {it.queue[0]!r}")
        self.time_check(call, call.kind)
        ds = self.dgrams
        if cat in ("value", "stop", "nosuch", "auth", "snmp") or (
            cat == "decode" and ds and ds[-1].allow == {DELIVER} and self.decode_ok(call, ds[-1])
        ):
            if not ds:
                self.bad(("C04", "C07", "C06", "C05"), "result-nothing", f"{call.kind} ended with {out!r} without any datagram")
                return
            self.skipped(call, ds[:-1])
            d = ds[-1]
            if RPT in d.allow and cat == "auth":
                d.allow = d.allow | {ANY}
            if d.allow & {DELIVER, ANY}:
                self.delivered(call, d, out, cat)
                if cat == "decode":
                    self.unsure()
                if ANY in d.allow:
                    if it is not None:
                        self.weak_item(call, out, cat)
                    return
                self.compare(call, d, out, cat)
            else:
                self.delivered(call, d, out, cat)
            return
        self.failed(call, out, cat)

    def decode_ok(self, call, d):
        """SnmpDecodeError is a legitimate result of the matching reply."""
        p = d.msg.pdu
        if p.tag == ber.REPORT:
            return False
        try:
            for i, (_, t, c) in enumerate(p.vbs):
                ber.value(t, c, f"vb{i}")
        except BerError:
            return True
        return call.kind in ("get", "getnext") and len(p.vbs) > 1

    def compare(self, call, d, out, cat):
        """The result against the contents of the delivered reply."""
        p = d.msg.pdu
        k = call.kind
        tags = self.match_tags(call, d)
        if p.tag == ber.REPORT:
            if cat != "auth":
                self.bad(("C07", "C13", "C01"), "report", f"{k} ended with {out!r} on the Report {d.data.hex()}")
            else:
                self.probe("auth_error")
            return
        it = call.iter
        vals = []
        for i, (name, t, c) in enumerate(p.vbs):
            try:
                vals.append((name, ber.value(t, c, f"vb{i}")))
            except BerError as e:
                # Value which denotes nothing: any documented result
                if e.kind in ber.HARD and cat == "value":
                    self.bad(("C16",), "overrun", f"{k} returned {out!r} for {e}: {d.data.hex()}")
                self.probe("odd_value")
                if it is not None:
                    self.weak_item(call, out, cat)
                return

        def wrong(msg, extra=()):
            self.bad(set(tags) | set(extra), "wrong-result", f"{msg}: {d.data.hex()}")

        if k == "get":
            if len(vals) > 1:
                if cat not in ("snmp", "decode"):
                    wrong(f"get ended with {out!r} on {len(vals)} varbinds")
                return
            v = vals[0][1] if vals else None
            if v is ber.NULLV:
                v = None
            if v in ber.EXCEPTIONS:
                if cat != "nosuch":
                    wrong(f"get ended with {out!r} on {v}")
                else:
                    self.probe("nosuch")
                return
            if cat != "value" or not ber.same(out.value, v):
                wrong(f"get ended with {out!r} instead of {v!r}")
            elif not vals:
                self.probe("empty_reply")
            return
        if k == "get_many":
            want = {}
            for name, v in vals:
                if v is not ber.NULLV and v not in ber.EXCEPTIONS:
                    want.setdefault(ber.oid_text(name), []).append(v)
            if cat != "value" or type(out.value) is not dict:
                wrong(f"get_many ended with {out!r}")
                return
            got = out.value
            if set(got) != set(want):
                wrong(f"get_many returned keys {sorted(set(got) ^ set(want))[:4]} too many or too few")
                return
            for key, vs in want.items():
                if not any(ber.same(got[key], v) for v in vs):
                    wrong(f"get_many returned {key}={got[key]!r} instead of {vs[-1]!r}")
                    return
            return
        if k == "getnext":
            self.compare_next(call, vals, out, cat, wrong)
            return
        self.compare_bulk(call, vals, out, cat, wrong)

    # -- walks
    @staticmethod
    def inside(it, name):
        return len(name) > len(it.base) and name[: len(it.base)] == it.base

    def yielded(self, call, out, wrong=None):
        """Invariants of any yielded entry. Returns its arcs."""
        it = call.iter
        v = out.value
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str)):
            self.bad(("C06", "C05"), "walk-item", f"walk yielded {out!r}")
            return None
        name = denote(v[0])
        if name is None:
            self.bad(("C06", "C05", "C02", "C08"), "walk-item", f"walk yielded {out!r}")
            return None
        if it.base != ("?",):
            if name[: len(it.base)] != it.base:
                self.bad(("C06", "C05"), "walk-outside", f"walk of {ber.oid_text(it.base)} yielded {v[0]}")
            if it.items and name <= it.items[-1]:
                self.bad(("C06", "C05"), "walk-order", f"walk yielded {v[0]} after {ber.oid_text(it.items[-1])}")
        it.items.append(name)
        it.last = it.accepted = name
        return name

    def weak_item(self, call, out, cat):
        it = call.iter
        if cat == "value":
            self.yielded(call, out)
        if it.kind == "getbulk":
            it.weak = True
            it.queue = []
        it.unknown = it.unknown or cat != "value" or it.kind == "getbulk"
        if cat == "stop":
            it.stopped = True

    def compare_next(self, call, vals, out, cat, wrong):
        it = call.iter
        if it.unknown:
            self.weak_item(call, out, cat)
            return
        if len(vals) > 1:
            if cat not in ("stop", "snmp", "decode"):
                wrong(f"getnext ended with {out!r} on {len(vals)} varbinds")
                if cat == "value":
                    self.yielded(call, out)
            return
        if not vals:
            if cat != "stop":
                wrong(f"getnext ended with {out!r} on the empty reply")
            it.stopped = True
            return
        name, v = vals[0]
        dead = v is ber.NULLV or v in ber.EXCEPTIONS
        if dead or not (self.inside(it, name) or name == it.base):
            if cat != "stop":
                wrong(f"getnext ended with {out!r} on {ber.oid_text(name)} = {v!r}")
                if cat == "value":
                    self.yielded(call, out)
            else:
                self.probe("walk_end")
            it.stopped = True
            return
        if name == it.base or name <= it.accepted:
            # Must not be reported twice
            if cat == "value":
                self.yielded(call, out)
            elif cat not in ("stop", "snmp", "decode"):
                wrong(f"getnext ended with {out!r} on non-increasing {ber.oid_text(name)}")
            else:
                self.probe("walk_backwards")
            it.stopped = cat == "stop"
            return
        if cat != "value":
            wrong(f"getnext ended with {out!r} on {ber.oid_text(name)} = {v!r}")
            it.unknown = True
            return
        got = self.yielded(call, out)
        if got is not None and (got != name or not ber.same(out.value[1], v) or out.value[0] != ber.oid_text(name)):
            wrong(f"getnext yielded {out!r} instead of {ber.oid_text(name)} = {v!r}")

    def compare_bulk(self, call, vals, out, cat, wrong):
        it = call.iter
        if it.unknown:
            self.weak_item(call, out, cat)
            return
        q = []
        last = it.accepted
        weak = False
        data = 0
        for name, v in vals:
            dead = v is ber.NULLV or v in ber.EXCEPTIONS
            ins = self.inside(it, name)
            if dead:
                if not ins and name != it.base:
                    # Both skipping and stopping are allowed
                    q.append(("maybe-stop",))
                continue
            data += 1
            if not ins and name != it.base:
                q.append(("stop",))
                break
            if name <= last or name == it.base:
                weak = True
                q.append(("weak", [(n, x) for n, x in vals]))
                break
            last = name
            q.append(("item", name, v))
        if not any(x[0] in ("item", "weak", "stop") for x in q):
            # No data values
            if cat != "stop":
                wrong(f"getbulk ended with {out!r} on the reply without data")
                if cat == "value":
                    self.yielded(call, out)
            it.stopped = True
            return
        it.queue = q
        self.buffered(call, out, cat, wrong)

    def buffered(self, call, out, cat, wrong=None):
        """The next entry of the GetBulk reply."""
        it = call.iter
        if wrong is None:

            def wrong(msg):
                self.bad(("C05", "C06", "C02", "C07", "C04", "C11", "C16"), "wrong-result", msg)

        while it.queue and it.queue[0][0] == "maybe-stop":
            if cat == "stop":
                it.queue = []
                it.stopped = True
                return
            it.queue.pop(0)
        if it.weak or not it.queue:
            if cat == "value":
                self.yielded(call, out)
            elif cat == "stop":
                it.stopped = True
            return
        x = it.queue.pop(0)
        if x[0] == "stop":
            it.queue = []
            it.stopped = True
            if cat != "stop":
                wrong(f"getbulk ended with {out!r} instead of the end of walk")
                if cat == "value":
                    self.yielded(call, out)
            else:
                self.probe("walk_end")
            return
        if x[0] == "weak":
            self.probe("walk_backwards")
            it.weak = True
            it.queue = []
            if cat == "value":
                self.yielded(call, out)
            elif cat == "stop":
                it.stopped = True
            it.unknown = True
            return
        _, name, v = x
        if cat != "value":
            wrong(f"getbulk ended with {out!r} instead of {ber.oid_text(name)} = {v!r}")
            it.unknown = True
            it.queue = []
            return
        got = self.yielded(call, out)
        if got is not None and (got != name or not ber.same(out.value[1], v) or out.value[0] != ber.oid_text(name)):
            wrong(f"getbulk yielded {out!r} instead of {ber.oid_text(name)} = {v!r}")
        # Trailing exceptions are not visible
        if it.queue and all(y[0] == "maybe-stop" for y in it.queue):
            pass


class Call:
    """The API call being judged."""

    def __init__(self, i, op, it, t):
        self.i = i
        self.op = op
        self.it = it
        self.t = t
        self.iter = None
        self.kind = op["op"]
        self.sends = 0
        self.t_send = t
        self.t_first = None  # the clock of the call starts with its first request
        self.senderr = []
        self.attempts = []
        self.recverr = []
        self.last_io = None


# ---------------------------------------------------------------- whole-run checks
def check_walks(scen, r, out):
    """C05: the walk against the model of the MIB."""
    for s in r.sessions:
        c = s.cfg
        mib = sorted((ber.parse_oid_text(k), bytes.fromhex(v)) for k, v in scen["agents"][c["agent"]].get("mib", []))
        cur = {}
        for e in s.trace:
            if e[1] == "call":
                call = e
            elif e[1] == "ret":
                op = call[3]
                if op["op"] == "iter":
                    cur[call[4]] = (op, [])
                elif op["op"] == "next" and call[4] in cur:
                    o, got = cur[call[4]]
                    if e[2].exc is None:
                        got.append(e[2].value)
                        continue
                    if not isinstance(e[2].exc, (StopIteration, StopAsyncIteration)):
                        if o.get("strict"):
                            out.append(Violation(("C05",), "walk-failed", f"walk {o['kind']}({o['oid']}) raised {e[2]!r}",
                                                 s.idx, e[0]))
                        continue
                    if not o.get("strict"):
                        continue
                    base = ber.parse_oid_text(o["oid"])
                    want = []
                    for k, v in mib:
                        if len(k) > len(base) and k[: len(base)] == base:
                            val = ber.Reader(v)
                            t, a, b = val.tl()
                            try:
                                want.append((ber.oid_text(k), ber.value(t, v[a:b])))
                            except BerError:
                                want.append((ber.oid_text(k), Ellipsis))
                    okay = len(want) == len(got) and all(
                        isinstance(g, tuple) and g[0] == w[0] and ber.same(g[1], w[1]) for g, w in zip(got, want)
                    )
                    if not okay:
                        n = next(
                            (i for i, (g, w) in enumerate(zip(got, want)) if g[0] != w[0] or not ber.same(g[1], w[1])),
                            min(len(got), len(want)),
                        )
                        out.append(Violation(
                            ("C05",), "walk-result",
                            f"walk {o['kind']}({o['oid']}) returned {len(got)} entries of {len(want)}; at {n}: "
                            f"{got[n:n+1]} instead of {want[n:n+1]}", s.idx, e[0]))
                    else:
                        r.net.probe("walk_complete")
                        if want:
                            r.net.probe("walk_nonempty")


def check_rate(scen, r, out, orcs):
    """C19 on the session level."""
    for o in orcs:
        rps = o.cfg.get("limit_rps")
        if not rps or rps < 0:
            continue
        delta = SEC / rps
        tol = 6 * US
        rel = []
        for t_call, t_send, call in o.sends:
            rel.append(t_send)
            base = t_call
            if call.sends > 1:
                continue  # second request of the refresh: delay is measured from its own start
            if t_send - base > delta + tol:
                out.append(Violation(("C19",), "rate-delay",
                                     f"{call.kind} was delayed by {t_send-base}ns, interval is {delta}ns", o.s.idx, t_send))
        best = None
        for j, x in enumerate(rel):
            v = x - j * delta
            if best is not None and v + delta + tol <= best[1]:
                i = best[0]
                out.append(Violation(
                    ("C19",), "rate",
                    f"{j-i+1} consecutive requests span {rel[j]-rel[i]}ns, which is not more than {j-i-1} intervals of "
                    f"{delta}ns (rps={rps})", o.s.idx, x))
                break
            if best is None or v > best[1]:
                best = (j, v)
        if len(rel) > 2:
            r.net.probe("rate_sequence")


def judge(scen, r, M):
    """Returns (violations, probes)."""
    out = []
    probes = r.net.probes
    if r.hung:
        out.append(Violation(ALL, "hang", "the run does not end: the call never returned", -1, r.sim.now))
        return out, probes
    orcs = []
    for s in r.sessions:
        o = SessOracle(s, scen, M, out, probes)
        o.t = BASE_NS
        call = o.run()
        orcs.append(o)
        if call is not None and r.sim.aborted not in ("harness",):
            o.t = r.sim.now
            out.append(Violation(("C01", "C06", "C18"), "endless", f"{call.kind} never returned ({r.sim.aborted})",
                                 s.idx, r.sim.now))
    if r.sim.aborted in ("steps", "deadlock"):
        out.append(Violation(("C01", "C06", "C18"), "endless",
                             f"some call never returns: {r.sim.aborted} after {r.sim.steps} steps", -1, r.sim.now))
    check_walks(scen, r, out)
    check_rate(scen, r, out, orcs)
    return out, probes
