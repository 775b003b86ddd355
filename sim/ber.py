"""Independent BER / SNMP codec of the simulated parties and of the oracle.

The decoder is strict: whatever is not exactly what X.690 / the SNMP RFCs prescribe raises BerError with a kind.
`HARD` kinds are the ones, for which the properties demand the rejection; all the others leave the choice.
"""
import re
import struct
from fractions import Fraction


class BerError(Exception):
    """Decoding failure."""

    def __init__(self, kind, where=""):
        super().__init__(f"{kind} at {where}")
        self.kind = kind
        self.where = where


HARD = {"short", "overrun", "trailing_top", "trailing_pdu", "version", "notseq"}

INT, OCT, NULL, OID, SEQ = 0x02, 0x04, 0x05, 0x06, 0x30
GET, GETNEXT, RESPONSE, SET, TRAP1, GETBULK, INFORM, TRAP2, REPORT = range(0xA0, 0xA9)


# ---------------------------------------------------------------- encoding
def enc_len(n, form=0):
    """form: 0 - minimal, 1..8 - long form with exactly (or at least) so many octets."""
    if form == 0:
        if n < 128:
            return bytes([n])
        b = n.to_bytes((n.bit_length() + 7) // 8, "big")
        return bytes([0x80 | len(b)]) + b
    k = max(form, (n.bit_length() + 7) // 8, 1)
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


def tlv(tag, content, form=0):
    return bytes([tag]) + enc_len(len(content), form) + content


def int_content(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def enc_int(v, form=0, tag=INT):
    return tlv(tag, int_content(v), form)


def uint_content(v):
    return int_content(v)


def base128(a):
    chunk = [a & 0x7F]
    a >>= 7
    while a:
        chunk.append(0x80 | (a & 0x7F))
        a >>= 7
    return bytes(reversed(chunk))


def oid_content(arcs):
    return b"".join(base128(a) for a in (arcs[0] * 40 + arcs[1], *arcs[2:]))


def enc_oid(arcs, form=0):
    return tlv(OID, oid_content(arcs), form)


def parse_oid_text(s):
    return tuple(int(x) for x in s.split("."))


def oid_text(arcs):
    return ".".join(str(x) for x in arcs)


# ---------------------------------------------------------------- decoding
class Reader:
    """Cursor over the contents of one element."""

    __slots__ = ("b", "pos", "end", "minimal", "where")

    def __init__(self, b, pos=0, end=None, minimal=False, where=""):
        self.b = b
        self.pos = pos
        self.end = len(b) if end is None else end
        self.minimal = minimal
        self.where = where

    def tl(self, top=False):
        """Read tag and length. Returns (tag, start, end) and skips the element."""
        b, pos, end = self.b, self.pos, self.end
        miss = "short" if top else "overrun"
        if pos >= end:
            raise BerError("short" if top else "missing", self.where)
        tag = b[pos]
        pos += 1
        if tag & 0x1F == 0x1F:
            raise BerError("hightag", self.where)
        if pos >= end:
            raise BerError("short" if top else "header", self.where)
        n = b[pos]
        pos += 1
        if n & 0x80:
            k = n & 0x7F
            if k == 0:
                raise BerError("indefinite", self.where)
            if k == 0x7F:
                raise BerError("reserved", self.where)
            if pos + k > end:
                raise BerError("short" if top else "header", self.where)
            raw = b[pos : pos + k]
            n = int.from_bytes(raw, "big")
            pos += k
            if self.minimal and (n < 128 or raw[0] == 0):
                raise BerError("nonminimal_length", self.where)
        if pos + n > end:
            raise BerError(miss, self.where)
        self.pos = pos + n
        return tag, pos, pos + n

    def expect(self, tag, what, top=False):
        t, s, e = self.tl(top)
        if t != tag:
            raise BerError("notseq" if top and t & 0x3F != tag else "tag", f"{self.where}/{what}")
        return s, e

    def sub(self, tag, what, top=False):
        s, e = self.expect(tag, what, top)
        return Reader(self.b, s, e, self.minimal, f"{self.where}/{what}")

    def int(self, what):
        s, e = self.expect(INT, what)
        return int_value(self.b[s:e], f"{self.where}/{what}")

    def octets(self, what):
        s, e = self.expect(OCT, what)
        return self.b[s:e]

    def eof(self):
        return self.pos == self.end

    def finish(self, kind="inner_trailing"):
        if self.pos != self.end:
            raise BerError(kind, self.where)


def int_value(c, where=""):
    if not c:
        raise BerError("emptyint", where)
    if len(c) > 1 and (c[0] == 0 and c[1] < 0x80 or c[0] == 0xFF and c[1] >= 0x80):
        raise BerError("nonminimal_int", where)
    if len(c) > 8:
        raise BerError("bigint", where)
    return int.from_bytes(c, "big", signed=True)


def oid_value(c, where=""):
    if not c:
        raise BerError("emptyoid", where)
    if c[-1] & 0x80:
        raise BerError("cutoid", where)
    arcs = []
    v = 0
    fresh = True
    for x in c:
        if fresh and x == 0x80:
            raise BerError("padoid", where)
        fresh = False
        v = (v << 7) | (x & 0x7F)
        if not x & 0x80:
            if v > 0xFFFFFFFF + (0 if arcs else 80):
                raise BerError("bigarc", where)
            if not arcs:
                first = min(v // 40, 2)  # X.690 8.19.4
                arcs = [first, v - first * 40]
            else:
                arcs.append(v)
            v = 0
            fresh = True
    return tuple(arcs)


class Pdu:
    __slots__ = ("tag", "rid", "a", "b", "vbs")

    def __repr__(self):
        return f"Pdu({self.tag:#x}, rid={self.rid}, {self.a}, {self.b}, {self.vbs})"


class Msg:
    """Decoded message."""

    __slots__ = (
        "ver", "comm", "msgid", "maxsize", "flags", "secmodel", "engine", "boots", "time", "user", "authp", "privp",
        "auth_off", "enc", "plain", "plain_at", "pdu", "ptag", "ctx", "ctxname", "pad",
    )

    def __init__(self):
        for k in self.__slots__:
            setattr(self, k, None)

    def brief(self):
        d = {k: getattr(self, k) for k in self.__slots__ if getattr(self, k) is not None}
        return {k: v.hex() if isinstance(v, bytes) else repr(v) if k == "pdu" else v for k, v in d.items()}


def decode_pdu(r, msg=None):
    """Decode PDU from the reader."""
    t, s, e = r.tl()
    if msg is not None:
        msg.ptag = t
    p = Pdu()
    p.tag = t
    if t not in (GET, GETNEXT, RESPONSE, GETBULK, REPORT):
        raise BerError("pdutype", r.where)
    q = Reader(r.b, s, e, r.minimal, f"{r.where}/pdu")
    p.rid = q.int("rid")
    p.a = q.int("a")
    p.b = q.int("b")
    v = q.sub(SEQ, "vbs")
    q.finish("trailing_pdu")
    p.vbs = []
    while not v.eof():
        x = v.sub(SEQ, f"vb{len(p.vbs)}")
        s, e = x.expect(OID, "name")
        name = oid_value(x.b[s:e], x.where)
        t, s, e = x.tl()
        x.finish()
        p.vbs.append((name, t, x.b[s:e]))
    return p


def decode_msg(b, minimal=False, msg=None):
    """Decode the message up to scoped PDU. `msg` is filled as far as the decoding goes."""
    m = Msg() if msg is None else msg
    top = Reader(b, minimal=minimal, where="msg")
    r = top.sub(SEQ, "top", top=True)
    top.finish("trailing_top")
    m.ver = r.int("version")
    if m.ver in (0, 1):
        m.comm = r.octets("community")
        m.pdu = decode_pdu(r, m)
        r.finish()
        return m
    if m.ver != 3:
        raise BerError("version", r.where)
    g = r.sub(SEQ, "global")
    m.msgid = g.int("msgid")
    m.maxsize = g.int("maxsize")
    f = g.octets("flags")
    if len(f) != 1:
        raise BerError("flags", g.where)
    m.flags = f[0]
    m.secmodel = g.int("model")
    g.finish()
    if m.secmodel != 3:
        raise BerError("secmodel", g.where)
    s, e = r.expect(OCT, "sec")
    o = Reader(b, s, e, minimal, "sec")
    u = o.sub(SEQ, "usm")
    o.finish()
    m.engine = u.octets("engine")
    m.boots = u.int("boots")
    m.time = u.int("time")
    m.user = u.octets("user")
    s, e = u.expect(OCT, "auth")
    m.authp = b[s:e]
    m.auth_off = s
    m.privp = u.octets("priv")
    u.finish()
    at = r.pos
    t, s, e = r.tl()
    if t == OCT:
        m.enc = b[s:e]
    elif t == SEQ:
        m.plain = b[at:e]
    else:
        raise BerError("tag", "data")
    r.finish()
    return m


def decode_scoped(b, m, minimal=False, padded=False):
    """Decode scoped PDU."""
    top = Reader(b, minimal=minimal, where="scoped")
    s = top.sub(SEQ, "scoped")
    if padded:
        m.pad = b[top.pos :]
    else:
        top.finish()
    m.ctx = s.octets("ctx")
    m.ctxname = s.octets("ctxname")
    m.pdu = decode_pdu(s, m)
    s.finish()
    return m


# ---------------------------------------------------------------- values
class _Skip:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NULLV = _Skip("NULL")
NOSUCHOBJECT = _Skip("noSuchObject")
NOSUCHINSTANCE = _Skip("noSuchInstance")
ENDOFMIB = _Skip("endOfMibView")
EXCEPTIONS = (NOSUCHOBJECT, NOSUCHINSTANCE, ENDOFMIB)


def unsigned(c, bits, where):
    if not c:
        raise BerError("emptyint", where)
    if len(c) > 1 and c[0] == 0 and c[1] < 0x80:
        raise BerError("nonminimal_int", where)
    v = int.from_bytes(c, "big", signed=True)
    if v < 0 or v >> bits:
        raise BerError("unsigned", where)
    return v


NR1 = re.compile(rb" *[+-]?[0-9]+\Z")
NR2 = re.compile(rb" *[+-]?([0-9]+[.,][0-9]*|[.,][0-9]+)\Z")
NR3 = re.compile(rb" *[+-]?([0-9]+[.,]?[0-9]*|[.,][0-9]+)[Ee][+-]?[0-9]+\Z")


def real_value(c, where=""):
    """X.690 8.5."""
    if not c:
        return 0.0
    f = c[0]
    if f & 0x80:
        if f & 0x30 == 0x30:
            raise BerError("real", where)
        if f & 3 == 3:
            if len(c) < 2 or c[1] == 0:
                raise BerError("real", where)
            n, s = c[1], 2
        else:
            n, s = (f & 3) + 1, 1
        if len(c) < s + n + 1:
            raise BerError("real", where)
        e = int.from_bytes(c[s : s + n], "big", signed=True)
        mant = int.from_bytes(c[s + n :], "big")
        if mant == 0:
            raise BerError("real", where)
        e = e * {0: 1, 0x10: 3, 0x20: 4}[f & 0x30] + ((f >> 2) & 3)
        if abs(e) > 5000:
            raise BerError("realrange", where)
        x = Fraction(mant) * (Fraction(2) ** e)
        try:
            v = x.numerator / x.denominator
        except OverflowError:
            raise BerError("realrange", where) from None
        if v < 2.3e-308 and Fraction(v) != x:
            raise BerError("realrange", where)  # inexact subnormal: double rounding is legitimate
        return -v if f & 0x40 else v
    if f & 0x40:
        if len(c) != 1:
            raise BerError("real", where)
        try:
            return {0x40: float("inf"), 0x41: float("-inf"), 0x42: float("nan"), 0x43: -0.0}[f]
        except KeyError:
            raise BerError("real", where) from None
    body = c[1:]
    rx = {1: NR1, 2: NR2, 3: NR3}.get(f)
    if rx is None or not rx.match(body):
        raise BerError("real", where)
    v = float(body.decode().replace(",", ".").strip())
    if v in (float("inf"), float("-inf")) or (v == 0 and b"-" in body) or 0 < abs(v) < 2.3e-308:
        raise BerError("realrange", where)
    return v


def value(tag, c, where=""):
    """Python value, which the property demands for the varbind value, or one of the markers."""
    if tag == 0x01:
        if len(c) != 1:
            raise BerError("bool", where)
        return c[0] != 0
    if tag == 0x02:
        return int_value(c, where)
    if tag == 0x04:
        return c
    if tag == 0x05:
        if c:
            raise BerError("null", where)
        return NULLV
    if tag == 0x06:
        return oid_text(oid_value(c, where))
    if tag == 0x07:
        return c
    if tag == 0x09:
        return real_value(c, where)
    if tag == 0x40:
        if len(c) != 4:
            raise BerError("ipaddress", where)
        return ".".join(str(x) for x in c)
    if tag in (0x41, 0x42, 0x43, 0x47):
        return unsigned(c, 32, where)
    if tag == 0x44:
        return c
    if tag == 0x46:
        return unsigned(c, 64, where)
    if tag in (0x80, 0x81, 0x82):
        if c:
            raise BerError("exception", where)
        return EXCEPTIONS[tag - 0x80]
    raise BerError("valuetype", where)


def same(a, b):
    """Exact equality of type and value."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        if a != a:
            return b != b
        return struct.pack(">d", a) == struct.pack(">d", b)
    return a == b
