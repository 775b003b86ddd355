"""Scenario generator: one integer -> one explicit scenario.

Every property has its own workload profile; each run draws its own subset of fault kinds, sizes and session mix
("swarm"), so most runs make progress and all of them differ.
"""
import json
import os
import random
import struct

import ber

HERE = os.path.dirname(os.path.abspath(__file__))
try:
    with open(os.path.join(HERE, "seeds.json")) as _f:
        RNG_SEEDS = json.load(_f)
except OSError:
    RNG_SEEDS = {"rid": [], "wrap": []}

ARC_EDGES = [
    0, 1, 2, 39, 40, 47, 48, 79, 80, 126, 127, 128, 129, 254, 255, 256, 257, 16382, 16383, 16384, 16385, 32767, 32768,
    65535, 65536, 2097150, 2097151, 2097152, 2097153, 268435455, 268435456, 268435457, 2147483646, 2147483647,
    2147483648, 4294967294, 4294967295,
]
INT_EDGES = sorted(
    {s * ((1 << k) + d) for k in (0, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 62) for d in (-1, 0, 1)
     for s in (1, -1)} | {(1 << 63) - 1, -(1 << 63), (1 << 63) - 2, -(1 << 63) + 1}
)
U32_EDGES = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 2147483647,
             2147483648, 4294967294, 4294967295]
U64_EDGES = U32_EDGES + [1 << 32, (1 << 39) - 1, 1 << 39, (1 << 47) - 1, 1 << 47, (1 << 55) - 1, 1 << 55, (1 << 56) - 1,
                         1 << 56, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 2, (1 << 64) - 1]
LEN_EDGES = [0, 1, 2, 5, 16, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 700, 1200]
NULLH, NSO, NSI, EOM = "0500", "8000", "8100", "8200"
SKIPPABLE_ERRNOS = [111, 111, 104, 105, 12, 113, 101]


def decodable(v):
    """Is the value of the hex TLV known exactly?"""
    b = bytes.fromhex(v)
    try:
        t, s, e = ber.Reader(b).tl()
        ber.value(t, b[s:e])
    except ber.BerError:
        return False
    return True


class G:
    def __init__(self, key):
        self.r = random.Random(key)
        self.users = []

    # ---- primitives
    def p(self, x):
        return self.r.random() < x

    def pick(self, seq):
        return seq[int(self.r.random() * len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.r.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def int(self, a, b):
        return a + int(self.r.random() * (b - a + 1)) if b - a < 1 << 50 else self.r.randint(a, b)

    def bytes(self, n):
        return self.r.randbytes(n)

    # ---- OIDs
    def arc(self):
        k = self.r.random()
        if k < 0.55:
            return self.int(0, 130)
        if k < 0.9:
            return self.pick(ARC_EDGES)
        return self.r.getrandbits(self.int(1, 32))

    def head(self):
        if self.p(0.7):
            return (1, 3)
        return (self.int(0, 2), self.pick([0, 1, 5, 38, 39, self.int(0, 39)]))

    def arcs(self, n=None):
        if n is None:
            n = self.weighted([(self.int(0, 3), 1), (self.int(4, 12), 6), (self.int(13, 40), 1), (self.int(41, 118), 0.3)])
        if n > 100 and self.p(0.4):
            # Every arc takes five octets
            return self.head() + tuple(self.r.getrandbits(32) | 1 << 31 for _ in range(n + 8))
        return self.head() + tuple(self.arc() for _ in range(n))

    def rarcs(self, n=None):
        """OID, which only the agent emits: the second arc under 2 may be of any size."""
        a = self.arcs(n)
        if self.p(0.12):
            a = (2, self.pick([40, 47, 48, 79, 80, 127, 128, 200, 999, 16303, 16304, 2097071, 2097072, 268435375, 268435376,
                               4294967214, 4294967215, 4294967216, 4294967294, 4294967295, self.r.getrandbits(32)])) + a[2:]
        return a

    def oid(self, n=None):
        return ber.oid_text(self.arcs(n))

    # ---- values
    def lf(self):
        return self.weighted([(0, 8), (1, 1), (2, 1), (3, 0.5), (4, 0.3), (8, 0.1)])

    def value(self, big=True, tag=None):
        """Hex of the well-formed TLV of a real value."""
        t = tag if tag is not None else self.weighted(
            [(2, 4), (4, 3), (6, 2), (0x40, 1), (0x41, 1.5), (0x42, 1.5), (0x43, 1), (0x44, 0.7), (0x46, 2.5), (0x47, 0.7),
             (1, 0.7), (7, 0.5), (9, 2.5)]
        )
        f = self.lf()
        if t == 2:
            v = self.pick(INT_EDGES) if self.p(0.6) else self.r.getrandbits(64) - (1 << 63) if self.p(0.5) else self.int(-200, 200)
            c = ber.int_content(v)
        elif t in (4, 7, 0x44):
            n = self.weighted([(self.pick(LEN_EDGES), 3), (self.int(0, 20), 5)])
            if not big:
                n = min(n, 40)
            c = self.bytes(n)
            if self.p(0.2):
                c = bytes(n)
        elif t == 6:
            c = ber.oid_content(self.rarcs(None if big else self.int(0, 8)))
        elif t == 0x40:
            c = bytes(self.pick([0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 254, 255, self.int(0, 255)]) for _ in range(4))
        elif t in (0x41, 0x42, 0x43, 0x47):
            v = self.pick(U32_EDGES) if self.p(0.6) else self.r.getrandbits(self.int(1, 32))
            c = ber.int_content(v)
        elif t == 0x46:
            v = self.pick(U64_EDGES) if self.p(0.6) else self.r.getrandbits(self.int(1, 64))
            c = ber.int_content(v)
        elif t == 1:
            c = bytes([self.pick([0, 255, 1, 2, 127, 128, 254])])
        else:
            c = self.real()
        return ber.tlv(t, c, f).hex()

    def real(self):
        k = self.r.random()
        if k < 0.08:
            return b""
        if k < 0.2:
            return bytes([self.pick([0x40, 0x41, 0x42, 0x43])])
        if k < 0.6:
            # Decimal
            sign = self.pick(["", "", "+", "-"])
            a = self.pick(["0", "1", "12", "123456789", "9007199254740993", "0001", str(self.int(0, 10**12))])
            b = self.pick(["0", "5", "25", "125", "333333333333333", "000001", str(self.int(0, 10**9))])
            sp = self.pick(["", "", "", " ", "   "])
            dot = self.pick([".", ".", ","])
            kind = self.int(1, 3)
            if kind == 1:
                s = sp + sign + a
            elif kind == 2:
                s = sp + sign + a + dot + self.pick([b, b, ""])
            else:
                s = sp + sign + self.pick([a + dot + b, a + dot, a]) + self.pick(["E", "e"]) + self.pick(
                    ["0", "+0", "1", "-1", "+10", "-10", "99", "-99", str(self.int(-250, 250))]
                )
            return bytes([kind]) + s.encode()
        # Binary
        base = self.pick([0, 0x10, 0x20])
        scale = self.int(0, 3)
        m = self.pick([1, 1, 3, 255, 256, 65535, (1 << 53) - 1, (1 << 53) + 1, (1 << 64) - 1,
                       self.r.getrandbits(self.int(1, 64)) | 1])
        if self.p(0.3):
            m = self.wide()
        mb = bytes(self.weighted([(0, 8), (1, 1), (self.int(2, 20), 0.5)])) + m.to_bytes((m.bit_length() + 7) // 8, "big")
        e = self.pick([0, 1, -1, 5, -5, 10, -20, 100, -100, 127, -128, 128, -129, 200, -200, self.int(-240, 200)])
        lim = {0: 900, 0x10: 290, 0x20: 210}[base]
        e = max(-lim, min(lim, e))
        if self.p(0.25):
            # Near the limits of the range: 2^1024 and the subnormals
            x = self.pick([self.int(-1074, -1000), self.int(1000, 1023), -1074, -1023, -1022, 1023])
            if self.p(0.5):
                m = self.pick([1, 3, 5, (1 << self.int(1, 52)) - 1, (1 << 53) - 1])
                mb = m.to_bytes((m.bit_length() + 7) // 8, "big")
                x -= 0 if x < 0 else m.bit_length()
            else:
                x -= m.bit_length()
            e = (x - scale) // {0: 1, 0x10: 3, 0x20: 4}[base]
        n = 1 if -128 <= e < 128 else 2
        n = max(n, self.weighted([(1, 6), (2, 2), (3, 1), (4, 0.5)]))
        eb = e.to_bytes(n, "big", signed=True)
        form = n - 1 if n <= 3 and self.p(0.85) else 3
        head = bytes([0x80 | (0x40 if self.p(0.4) else 0) | base | scale << 2 | form])
        if form == 3:
            head += bytes([n])
        return head + eb + mb

    def half_real(self):
        """Contents of REAL with some of its parts missing or of the wrong length."""
        if self.p(0.3):
            c = self.real()
            return c[: self.int(0, len(c))]
        form = self.int(0, 3)
        head = bytes([0x80 | self.int(0, 31) << 2 | form])
        n = form + 1 if form < 3 else self.pick([0, 0, 1, 2, 3, 4, 8, 9, 127, 128, 255])
        have = self.pick([n, n, max(0, n - 1), 0])
        return head + (bytes([n]) if form == 3 else b"") + self.bytes(have) + self.bytes(self.pick([0, 0, 1, 8])) if self.p(0.9) else head

    def wide(self):
        """Mantissa of more bits than the double has: the rounding depends on all of them."""
        top = (1 << 52) | self.r.getrandbits(52)
        if self.p(0.3):
            top = self.pick([1 << 52, (1 << 53) - 1, (1 << 52) + 1])
        k = self.pick([1, 8, 11, 12, 32, 64, 74, 75, 76, self.int(1, 150)])
        low = self.pick([0, 1 << (k - 1), (1 << (k - 1)) + 1, max(0, (1 << (k - 1)) - 1), (1 << k) - 1, 1, self.r.getrandbits(k)])
        m = top << k | (low & ((1 << k) - 1))
        # The very last octets decide
        j = self.pick([0, 0, 1, 8, self.int(0, 80)])
        return m << j | self.pick([0, 1, (1 << j) - 1 if j else 0]) if j else m

    def weird_value(self):
        """Hex of a TLV, which may be malformed in any way."""
        k = self.r.random()
        if k < 0.25:
            b = bytearray(bytes.fromhex(self.value(big=False)))
            if b:
                i = self.int(0, min(len(b) - 1, 3)) if self.p(0.7) else self.int(0, len(b) - 1)
                b[i] = self.pick([0, 1, 0x7F, 0x80, 0x81, 0x82, 0x84, 0xFF, b[i] ^ (1 << self.int(0, 7))])
            return bytes(b).hex()
        t = self.pick([1, 2, 4, 5, 6, 7, 9, 9, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x80, 0x81, 0x82])
        if k < 0.32:
            t = self.pick([0, 3, 8, 0x0A, 0x0C, 0x1F, 0x30, 0x31, 0x45, 0x48, 0x5F, 0x7F, 0x83, 0x9F, 0xA0, 0xA2, 0xBF,
                           0xC0, 0xDF, 0xFF, self.int(0, 255)])
        c = self.bytes(self.weighted([(0, 3), (1, 3), (2, 2), (3, 2), (4, 1), (5, 1), (7, 1), (8, 1), (9, 1), (10, 0.5),
                                      (20, 0.5), (130, 0.3)]))
        if t == 9 and self.p(0.45):
            c = self.half_real()
        elif t == 9 and self.p(0.8):
            # REAL: half-written forms
            c = self.pick([b"\x80", b"\x81", b"\x83", b"\x83\x00", b"\x83\x01", b"\x83\xff", b"\x82\x01", b"\xb0\x00\x01", b"\x80\x01",
                           b"\x80\x00\x00", b"\x44", b"\x7f", b"\x01", b"\x02", b"\x03", b"\x03E", b"\x03.E1", b"\x021.2.3",
                           b"\x02\xff\xfe", b"\x01abc", b"\x00", b"\x04" + b"1", b"\x81\x7f\xff\x01", b"\x81\x80\x00\x01",
                           b"\x83\x04\x7f\xff\xff\xff\x01", b"\x83\x09" + bytes(9) + b"\x01", b"\x80\x00" + b"\xff" * 9,
                           b"\x80\x00" + b"\xff" * 130, b"\xac\x7f" + b"\xff" * 8, bytes([0x80 | self.int(0, 127)]) + self.bytes(self.int(0, 12))])
        if t == 6 and self.p(0.6):
            c = self.pick([b"", b"\x80", b"\xff", b"\x2b\x80", b"\x2b\xff\xff\xff\xff\xff\x7f", b"\x2b\x90\x80\x80\x80\x00", b"\x80\x01",
                           b"\xff\xff\xff\xff\x7f", b"\x2b" + b"\xff" * 20, b"\x2b" + b"\x81" * 40 + b"\x00", b"\x78", b"\x77", b"\xff"])
        n = len(c)
        b = bytes([t]) + self.weighted(
            [(ber.enc_len(n, self.lf()), 6), (bytes([(n + 1) & 0x7F]), 1), (bytes([max(0, n - 1) & 0x7F]), 1), (b"\x80", 0.5),
             (b"\xff", 0.5), (b"\x84\xff\xff\xff\xff", 0.5), (b"\x88" + b"\xff" * 8, 0.3), (b"\x89" + bytes(8) + b"\x01", 0.3),
             (b"\x82\xff\xff", 0.5), (b"\x81", 0.3)]
        ) + c
        return b.hex()

    # ---- MIB
    def mib(self, n=None, bases=None, tags=None, big=True):
        """MIB whose subtrees are neighbours in every sense. Returns (entries, interesting bases)."""
        n = self.weighted([(0, 0.4), (1, 1), (self.int(2, 8), 5), (self.int(9, 40), 3), (self.int(41, 120), 0.6)]) if n is None else n
        bases = list(bases or [])
        root = self.arcs(self.weighted([(self.int(1, 6), 8), (self.int(7, 24), 1.5), (self.int(25, 90), 0.7)]))
        cand = [root]
        last = root[-1] if len(root) > 2 else 1
        up = root[:-1] if len(root) > 2 else root
        for d in (last + 1, last * 10, last * 10 + 1, max(0, last - 1), last + 128):
            if d <= 0xFFFFFFFF:
                cand.append(up + (d,))
        cand.append(root + (self.arc(),))
        cand.append(root + (0,))
        cand.append(up)
        d = {}
        guard = 0
        while len(d) < n and guard < n * 5:
            guard += 1
            b = self.weighted([(root, 5), (self.pick(cand), 4), (self.rarcs(), 0.5)])
            k = b + tuple(
                self.weighted([(self.int(0, 12), 5), (self.pick(ARC_EDGES), 2)]) for _ in range(self.weighted([(0, 1), (1, 4), (2, 3), (3, 1)]))
            )
            if len(k) > 120:
                continue
            while True:
                v = self.value(big=big and self.p(0.3), tag=self.pick(tags) if tags else None)
                if decodable(v):
                    break
            d[k] = v
        ents = [[ber.oid_text(k), v] for k, v in sorted(d.items())]
        return ents, [ber.oid_text(c) for c in cand if c[1] < 40]

    # ---- users
    def key(self, alg):
        t = self.pick(["password", "master", "localized"])
        size = 16 if alg == "md5" else 20
        if t == "password":
            n = self.weighted([(self.int(1, 24), 6), (self.pick([1, 2, 7, 8, 63, 64, 65, 100, 127, 128, 1000]), 2)])
            k = self.bytes(n) if self.p(0.3) else bytes(self.int(33, 126) for _ in range(n))
        else:
            k = self.bytes(size)
            if self.p(0.15):
                # Padded or cut to the size, as documented
                k = self.bytes(self.pick([1, 8, 9, 15, 16, 17, 20, 21, 32, self.int(1, 40)]))
            elif self.p(0.1):
                k = self.pick([bytes(size), b"\xff" * size])
        return {"alg": alg, "key": k.hex(), "type": t}

    def user(self, auth=None, priv=None):
        name = self.weighted([("u", 1), ("user%d" % self.int(0, 99), 5), ("x" * self.int(1, 32), 1), ("".join(chr(self.int(33, 126)) for _ in range(self.int(1, 32))), 2),
                              (self.pick(["\u00fcser", "\u043f\u043e\u043b\u044c\u0437", "a b", " u ", "\u65e5\u672c", "\U0001f511", "u\x7f", "U", "u\t", "u\ufffd"]), 0.4),
                              ("n" * self.pick([33, 100, 127, 128, 130, 200, 255, 256]), 0.3)])
        u = {"name": name}
        auth = self.p(0.8) if auth is None else auth
        priv = self.p(0.65) if priv is None else priv
        old = self.pick(self.users) if self.users and self.p(0.25) else {}
        if auth:
            u["auth"] = dict(old["auth"]) if "auth" in old and self.p(0.7) else self.key(self.pick(["md5", "sha1"]))
            if "auth" in old and u["auth"]["type"] == "password" and self.p(0.3):
                # The same secret, maybe the other digest
                u["auth"]["key"] = old["auth"]["key"] if old["auth"]["type"] == "password" else u["auth"]["key"]
                u["auth"]["alg"] = self.pick(["md5", "sha1"])
            if priv:
                k = old.get("priv")
                if k and self.p(0.7) and (k["type"] == "password" or old["auth"]["alg"] == u["auth"]["alg"]):
                    # The same key for several users
                    k = dict(k)
                else:
                    k = self.key(u["auth"]["alg"])
                    if self.p(0.2):
                        # One secret for both purposes
                        k = dict(u["auth"])
                        if self.p(0.4):
                            # ... of different types
                            size = 16 if u["auth"]["alg"] == "md5" else 20
                            raw = bytes(self.int(33, 126) for _ in range(size)).hex()
                            u["auth"]["key"] = k["key"] = raw
                            u["auth"]["type"], k["type"] = self.r.sample(["password", "master", "localized"], 2)
                    k["alg"] = self.pick(["des", "aes"])
                u["priv"] = k
        self.users.append(u)
        return u

    def share(self, sessions):
        """Instances of users and keys, which are common for several sessions."""
        seen = {}
        for s in sessions:
            if s["version"] != "v3":
                continue
            u = s["user"]
            own = {}
            for what, x in (("user", u), ("auth", u.get("auth")), ("priv", u.get("priv"))):
                if x:
                    # The key of the privacy is fitted to the digest
                    alg = u["auth"]["alg"] if what == "priv" and x["type"] != "password" else ""
                    own[what] = seen.setdefault((what, json.dumps(x, sort_keys=True), alg), len(seen))
            s["own"] = own

    def engine(self):
        n = self.weighted([(5, 1), (8, 2), (11, 2), (12, 2), (17, 1), (32, 1), (self.int(28, 32), 1), (self.int(1, 32), 1)])
        b = self.bytes(n)
        return (b"\x80" + b[1:]).hex() if self.p(0.7) else b.hex()

    BOOTS = [0, 1, 2, 7, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 2147483646, 2147483647]

    def boots_time(self):
        b = self.pick(self.BOOTS) if self.p(0.5) else self.int(0, 1000)
        t = self.pick(self.BOOTS[:-2] + [2147483000]) if self.p(0.5) else self.int(0, 10**6)
        return b, t

    def agent(self, mib=None, **kw):
        b, t = self.boots_time()
        a = {"engine": self.engine(), "boots": b, "time": t, "mib": mib or []}
        if self.p(0.4):
            a["cap"] = self.pick([1, 2, 3, 5, 10, 50])
        if self.p(0.3):
            a["eomv"] = "all"
        if self.p(0.2):
            a["lax"] = True
        a.update(kw)
        return a

    def community(self):
        return self.weighted([
            ("public", 3), ("c", 1), ("private", 2), ("".join(chr(self.int(33, 126)) for _ in range(self.int(1, 40))), 2), ("", 0.2),
            (self.pick(["p\u00fcblic", "\u0441\u043e\u043e\u0431\u0449", "pub lic", " public", "\U0001f511", "Public", "c\x00d", "\n", "c\ufffd", "\ufffd"]), 0.5),
            ("k" * self.pick([126, 127, 128, 129, 200, 255, 256, 300]), 0.4),
        ])

    def session(self, agent=0, version=None, mode=None, **kw):
        v = version or self.weighted([("v1", 1), ("v2c", 2), ("v3", 3)])
        s = {"agent": agent, "version": v, "mode": mode or self.pick(["sync", "async"]), "ops": []}
        s["timeout"] = self.weighted([(0.05, 1), (0.2, 2), (1.0, 3), (2.5, 1), (10.0, 1)])
        if v == "v3":
            s["user"] = self.user()
        else:
            s["community"] = self.community()
        if self.p(0.3):
            s["max_repetitions"] = self.pick([1, 2, 3, 5, 10, 25, 50, 127, 128, 255, 256, 1000, 32767, 32768])
        if self.p(0.25):
            s["allow_bulk"] = self.p(0.5)
        s.update(kw)
        return s

    def known_engine(self, s, agents, p=0.35):
        """Sometimes the engine id is configured."""
        if s["version"] == "v3" and self.p(p):
            s["engine_id"] = agents[s["agent"]]["engine"]

    # ---- scenario
    def scen(self, agents, sessions, **kw):
        d = {"v": 1, "agents": agents, "sessions": sessions}
        if self.p(0.3):
            d["latency"] = self.pick([1, 50, 1000, 5000])
        if self.p(0.25):
            d["hz"] = self.pick([100, 250])
        if self.p(0.3):
            d["poison"] = self.pick([0, 0x30, 0x80, 0xFF, 0x01])
        if len(sessions) > 1 and self.p(0.6):
            self.share(sessions)
        for s in sessions:
            if self.p(0.06):
                s["tos"] = self.pick([1, 4, 0x10, 46 << 2, 255])
            if self.p(0.06):
                s["send_buffer"] = self.pick([1, 256, 4096, 65536, 1 << 20])
            if self.p(0.06):
                s["recv_buffer"] = self.pick([1, 256, 4096, 65536, 1 << 20])
            if self.p(0.06):
                s["addr"] = self.pick(["[::1]", "[2001:db8::161]", "[fe80::1]"])
            for op in s["ops"]:
                if op["op"] == "get_many" and self.p(0.1):
                    op["as"] = self.pick(["gen", "tuple"])
            if self.p(0.3):
                s["defaults"] = True
            if s.get("limit_rps", 0) > 0 and self.p(0.3):
                s["policer"] = self.pick([None, 0.001, 1e6, 1])
        n = 0
        multi = len({s.get("task", 0) for s in sessions}) > 1
        if multi:
            n = self.pick([0, 20, 200])
        if n:
            d["sched"] = [self.int(0, 7) for _ in range(n)]
        if self.p(0.35) and (RNG_SEEDS["rid"] or RNG_SEEDS["wrap"]):
            pool = RNG_SEEDS["rid"] + RNG_SEEDS["wrap"]
            d["rng"] = [self.pick(pool) for _ in range(len(sessions))]
        d.update(kw)
        return d

    def spice(self, d):
        """Size and error status of the replies, whatever the profile."""
        for s in d["sessions"]:
            for op in s["ops"]:
                for em in (op.get("emits") or []) + ([op["emit"]] if op.get("emit") else []):
                    for e in em:
                        if e["k"] != "reply":
                            continue
                        if self.p(0.012):
                            e["f"] = dict(e.get("f") or {}, fit=self.pick([4080, 4080, 4080, 4079, 4078, 4072, 4064, 2048, 1500, 1024,
                                                                           self.int(3900, 4080), self.int(300, 4080)]))
                        elif self.p(0.02):
                            e["f"] = dict(e.get("f") or {}, es=self.pick([1, 2, 3, 5, 13, 16, 18, -1, 256]), ei=self.pick([0, 1, 1, 2, 100, -1]))
        return d

    # ---- network behaviour
    def dly(self, timeout, lo=0.0, hi=0.9):
        return int(self.r.uniform(lo, hi) * timeout * 1e6)

    def rewrite_id(self):
        return self.weighted([
            (["add", self.pick([1, -1, 2, 256, 65536, 1 << 31, 1 << 32, -(1 << 32), 1 << self.int(8, 62)])], 3),
            (["xor", 1 << self.int(0, 62)], 4),
            (["neg"], 0.7),
            (["xor", self.pick([0x80000000, 0xFFFFFFFF, 0x7FFFFFFF, 0xFF, 0xFFFF])], 1),
            (["prev", self.int(1, 4)], 3),
            (["set", self.pick([0, 1, -1, 2147483647, 2147483648, -2147483648, (1 << 63) - 1, -(1 << 63)])], 2),
        ])

    def near(self, raw):
        """Something close to the octet string, but not the same."""
        x = self.near1(raw)
        return x if x != raw else raw + b"\x00"

    def near1(self, raw):
        k = self.r.random()
        if b"\xef\xbf\xbd" in raw and k < 0.6:
            # Octets which are not a text look like this one, when replaced
            return raw.replace(b"\xef\xbf\xbd", self.pick([b"\xff", b"\x80", b"\xc3"]), 1)
        if k < 0.2:
            return raw + self.bytes(1)
        if k < 0.4 and raw:
            return raw[:-1]
        if k < 0.5:
            return b""
        if k < 0.6 and raw:
            return raw[1:]
        if k < 0.7:
            return bytes(len(raw))
        if k < 0.8 and raw:
            return raw.swapcase() if raw.swapcase() != raw else raw + b"\x00"
        if k < 0.9 and raw:
            return raw + b"\x00"
        if raw:
            i = self.int(0, len(raw) - 1)
            return raw[:i] + bytes([raw[i] ^ (1 << self.int(0, 7))]) + raw[i + 1 :]
        return b"x"

    def other_vb(self, n=1):
        if n == 1 and self.p(0.07):
            return []
        return [["$0", self.value(big=False)]] if n == 1 else [[f"${i}", self.value(big=False)] for i in range(n)]

    def forge(self, s, agents, f=None, kinds=None):
        """Rewrites, which turn the correct reply into one not to be accepted."""
        f = dict(f or {})
        v3 = s["version"] == "v3"
        auth = v3 and "auth" in s["user"]
        priv = auth and "priv" in s["user"]
        ks = [("rid", 3)]
        if not v3:
            ks += [("comm", 3)]
        else:
            ks += [("msgid", 3), ("user", 2), ("engine", 2)]
            if auth:
                ks += [("mac", 3), ("noauth", 1.5), ("authp", 1)]
            if priv:
                ks += [("clear", 1.5), ("wrongkey", 1)]
        if kinds:
            ks = [x for x in ks if x[0] in kinds] or ks
        k = self.weighted(ks)
        if k == "rid":
            f["rid"] = self.rewrite_id()
        elif k == "msgid":
            f["msgid"] = self.rewrite_id()
        elif k == "comm":
            f["comm"] = self.near(s["community"].encode()).hex()
        elif k == "user":
            f["user"] = self.near(s["user"]["name"].encode()).hex()
        elif k == "engine":
            f["engine"] = self.near(bytes.fromhex(agents[s["agent"]]["engine"])).hex()
        elif k == "mac":
            f["mac"] = self.pick(["zero", "rand", "flip", "flip", "wrongkey", "otheralg", "absent", "short", "long", "longok", "fulldig", "shortok", "padok"])
            f["macpos"] = self.int(0, 11)
            f["macbit"] = self.int(0, 7)
            if self.p(0.1):
                f["orflags"] = 4
        elif k == "noauth":
            f["authflag"] = 0
            if self.p(0.5):
                f["mac"] = self.pick(["absent", "zero", "ok"])
            if self.p(0.35):
                # Reportable or reserved bits
                f["orflags"] = self.pick([4, 4, 4, 8, 0x80, 0xFC])
        elif k == "authp":
            f["authp"] = self.bytes(self.pick([0, 1, 4, 11, 12, 13, 16, 20])).hex()
        elif k == "clear":
            f["enc"] = "clear"
            if self.p(0.4):
                f["privflag"] = True
            if self.p(0.3):
                f["mac"] = self.pick(["zero", "absent"])
        elif k == "wrongkey":
            f["enc"] = self.pick(["wrongkey", "badlen" if s["user"]["priv"]["alg"] == "des" else "wrongkey", "empty"])
        if v3 and self.p(0.15):
            # As if the agent was restarted, or its clock was changed
            for x in self.pick([("boots",), ("time",), ("boots", "time"), ("boots", "time")]):
                f[x] = ["add", self.pick([1, 1, -1, 150, 151, -151, 1000, -1000, 1 << 20, -(1 << 20)])] if self.p(0.7) else ["set", self.pick(self.BOOTS)]
        return f

    def noise(self, s, agents, kinds=None, hi=0.9):
        """One unwanted datagram, which has to be skipped (mostly)."""
        k = self.weighted(kinds or [("forge", 5), ("stale", 2), ("reflect", 0.7), ("cross", 0.7), ("report", 0.3)])
        d = self.dly(s["timeout"], 0, hi)
        if self.p(0.5):
            d = 0
        if k == "forge":
            f = self.forge(s, agents)
            if self.p(0.6):
                f["vb"] = self.other_vb()
            return {"k": "reply", "d": d, "f": f}
        if k == "stale":
            return {"k": "stale", "back": self.weighted([(1, 4), (0, 2), (2, 1), (self.int(0, 8), 1)]), "d": d}
        if k == "reflect":
            return {"k": "reflect", "back": self.weighted([(1, 3), (2, 1), (0, 0.2)]), "d": d}
        if k == "cross":
            return {"k": "cross", "n": self.int(0, 3), "back": self.int(0, 2), "d": d}
        if k == "report":
            f = self.forge(s, agents, kinds=["rid", "msgid", "user", "engine"]) if s["version"] == "v3" else {"rid": self.rewrite_id()}
            return {"k": "report", "why": self.pick(["timewindow", "user", "engine", "digest", "decrypt"]), "d": d, "f": f}
        if k == "garbage":
            return {"k": "bytes", "hex": self.garbage().hex(), "d": d}
        if k == "ver":
            # Other versions, among them the ones which look the same when cut
            v = {"v1": 0, "v2c": 1, "v3": 3}[s["version"]]
            x = self.pick([v + (1 << self.pick([8, 8, 16, 32, 33])), v - 256, -v - 1, v ^ 1, v + 2, v ^ 0x80, v + 4])
            f = {"ver": x}
            if self.p(0.5):
                f["vb"] = self.other_vb()
            return {"k": "reply", "d": d, "f": f}
        if k == "mut":
            return {"k": "reply", "d": d, "mut": self.muts()}
        raise KeyError(k)

    def muts(self, n=None):
        out = []
        for _ in range(n or self.weighted([(1, 5), (2, 2), (3, 1), (6, 0.5)])):
            k = self.weighted([("trunc", 1), ("cut", 1), ("append", 1), ("xor", 2), ("set", 2), ("ins", 0.7), ("del", 0.7), ("len", 4), ("tag", 2), ("edit", 4)])
            pos = self.int(0, 400)
            if k == "trunc":
                out.append([k, self.int(0, 300)])
            elif k == "cut":
                out.append([k, self.int(1, 20)])
            elif k == "append":
                out.append([k, self.bytes(self.pick([1, 1, 2, 4, 20, 300])).hex()])
            elif k == "xor":
                out.append([k, pos, 1 << self.int(0, 7)])
            elif k == "set":
                out.append([k, pos, self.pick([0, 1, 0x7F, 0x80, 0x81, 0x84, 0xFF, 0x30, 2, 4, self.int(0, 255)])])
            elif k == "ins":
                out.append([k, pos, self.bytes(self.int(1, 4)).hex()])
            elif k == "del":
                out.append([k, pos, self.int(1, 6)])
            elif k == "edit":
                w = self.weighted([("drop", 3), ("dup", 1), ("empty", 2), ("short", 2), ("trail", 2), ("repl", 1)])
                out.append([k, self.int(0, 40), w, {"short": self.int(1, 6), "trail": self.bytes(self.pick([1, 2, 3, 8])).hex() if self.p(0.6) else self.pick(["00", "0500", "020100"]),
                                                    "repl": self.weird_value()}.get(w, 0)])
            elif k == "len":
                out.append([k, self.int(0, 40), self.pick([1, -1, 2, 3, -2, 5, 100, 0x7F, 0x80, 0x81, 127, self.int(0, 255)])])
            else:
                out.append([k, self.int(0, 40), self.pick([0, 1, 2, 4, 5, 6, 9, 0x1F, 0x30, 0x31, 0x40, 0x41, 0x46, 0x9F, 0xA0, 0xA2,
                                                           0xA8, 0xBF, 0x80, 0x82, 0xFF, self.int(0, 255)])])
        return out

    def garbage(self):
        k = self.r.random()
        if k < 0.1:
            return b""
        if k < 0.3:
            return self.bytes(self.int(1, 12))
        if k < 0.4:
            return self.bytes(self.pick([100, 1000, 4079, 4080, 4081, 5000]))
        if k < 0.6:
            return bytes([0x30]) + self.pick([b"", b"\x80", b"\x81", b"\x82\x01", b"\x84\xff\xff\xff\xff", b"\xff", b"\x00", b"\x7f", b"\x88" + b"\xff" * 8,
                                              b"\x03\x02\x01" + bytes([self.int(0, 4)]), b"\x05\x02\x01\x01\x04\x80",
                                              b"\x06\x02\x04\x7f\xff\xff\xff", b"\x04\x02\x02\x00\x01", b"\x02\x02\x00"]) + self.bytes(self.pick([0, 0, 3]))
        if k < 0.8:
            # Nested random TLVs
            def t(depth):
                if depth == 0 or self.p(0.3):
                    return bytes.fromhex(self.weird_value())
                return ber.tlv(self.pick([0x30, 0xA2, 0x04, 0xA8]), b"".join(t(depth - 1) for _ in range(self.int(0, 4))))

            return t(self.int(1, 6))
        if k < 0.9:
            return b"\x30" * self.int(1, 4000)
        b = b""
        for _ in range(self.int(1, 1000)):
            b = ber.tlv(0x30, b)
            if len(b) > 4000:
                break
        return b

    def good(self, s, d=None, f=None, **kw):
        e = {"k": "reply"}
        if d is None and self.p(0.3):
            d = self.dly(s["timeout"], 0, 0.8)
        if d:
            e["d"] = d
        if f:
            e["f"] = f
        e.update(kw)
        return e

    def emission(self, s, agents, noise=0.3, loss=0.05, kinds=None, dup=0.1, late=0.05):
        """What happens after one request."""
        em = []
        while self.p(noise) and len(em) < 6:
            em.append(self.noise(s, agents, kinds))
        if not self.p(loss):
            g = self.good(s)
            if self.p(late):
                # Comes, when nobody waits for it any more
                g["d"] = int(s["timeout"] * 1e6 * self.r.uniform(1.01, 2.5)) + 25000
            if self.p(dup):
                g["dup"] = [self.pick([0, 1, 100, 2000, int(s["timeout"] * 1e6), int(s["timeout"] * 1.5e6)])]
            em.append(g)
        return em

    def swarm(self, s, agents, x=None):
        """Long series of mismatching datagrams, then the right reply."""
        x = x or self.noise(s, agents, [("forge", 5), ("stale", 1)])
        x.pop("dup", None)
        n = self.pick([5, 9, 16, 17, 32, 33, 64, 65, 100, 101, 127, 128, 129, 200, 256, 257, 300])
        gap = self.int(0, max(0, min(100, int(s["timeout"] * 3e5) // n)))
        return [dict(x, d=self.int(0, 10), rep=[n, gap]), {"k": "reply", "d": n * gap + self.int(20, 2000)}]

    def emissions(self, s, agents, n, **kw):
        return [self.emission(s, agents, **kw) for _ in range(n)]

    def enter(self, s, agents, clean=0.8, **kw):
        """First operation of the v3 session."""
        op = {"op": self.pick(["enter", "refresh"])}
        if not self.p(clean):
            op["emits"] = self.emissions(s, agents, 2, **kw)
        return op

    # ---- operations
    def target(self, mib, bases):
        """OID to read."""
        if mib and self.p(0.75):
            return self.pick(mib)[0]
        if bases and self.p(0.5):
            return self.pick(bases)
        return self.oid()

    def base(self, mib, bases):
        k = self.r.random()
        if bases and k < 0.6:
            return self.pick(bases)
        if mib and k < 0.9:
            o = ber.parse_oid_text(self.pick(mib)[0])
            return ber.oid_text(o[: self.int(2, len(o))])
        return self.oid(self.int(0, 5))

    def read_op(self, s, mib, bases, walks=True, many=8):
        k = self.weighted([("get", 4), ("get_many", 3)] + ([("getnext", 1.5), ("getbulk", 1.5), ("fetch", 1)] if walks else []))
        if k == "getbulk" and s["version"] == "v1":
            k = "getnext"
        if k == "get":
            return {"op": "get", "oid": self.target(mib, bases)}
        if k == "get_many":
            n = self.weighted([(1, 1), (self.int(2, many), 5), (0, 0.15)])
            return {"op": "get_many", "oids": [self.target(mib, bases) for _ in range(n)]}
        op = {"op": k, "oid": self.base(mib, bases)}
        if k == "getbulk" and self.p(0.6):
            op["mr"] = self.pick([1, 2, 3, 4, 5, 7, 10, 20, 50, 100])
        op["max"] = self.pick([3, 10, 40])
        return op
