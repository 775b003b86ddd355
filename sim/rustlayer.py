"""Element layer: the library's buffers, encoders and decoders under seeded operation sequences.

What the simulated network cannot reach (sizes, values and orders of operations no session asks for) is driven directly: the
crate's own sources, copied from the working tree, get one more module, which executes the operations. The reference model is
in Python and shares nothing with the library.
"""
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import tomllib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sim"))
import ber  # noqa: E402
import build  # noqa: E402

FEATURES = ["buf", "elem", "msg"]
ALONE = {"buf": ["buf"], "elem": ["elem"], "msg": ["elem", "msg"]}


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml_value(x)}" for k, x in v.items()) + " }"
    return str(v)


def prepare():
    """The sources with the executor."""
    root = os.path.join(build.OUT, "rust")
    src = os.path.join(root, "src")
    os.makedirs(root, exist_ok=True)
    tmp = os.path.join(root, "src.new")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(build.REPO, "src"), tmp, ignore=shutil.ignore_patterns("gufo", "*.so", "__pycache__"))
    with open(os.path.join(tmp, "lib.rs"), "a") as f:
        f.write("\npub mod verif_harness;\n")
    shutil.copy2(os.path.join(HERE, "rust", "harness.rs"), os.path.join(tmp, "verif_harness.rs"))
    os.makedirs(os.path.join(tmp, "bin"), exist_ok=True)
    with open(os.path.join(tmp, "bin", "rustsim.rs"), "w") as f:
        f.write("fn main() {\n    rustsim::verif_harness::main()\n}\n")
    # Cargo goes by the times: what has not changed keeps its own
    for d, _, fs in os.walk(tmp):
        for n in fs:
            new = os.path.join(d, n)
            old = os.path.join(src, os.path.relpath(new, tmp))
            with open(new, "rb") as f:
                a = f.read()
            try:
                with open(old, "rb") as f:
                    same = f.read() == a
            except OSError:
                same = False
            if same:
                st = os.stat(old)
                os.utime(new, ns=(st.st_atime_ns, st.st_mtime_ns))
            else:
                os.utime(new)
    shutil.rmtree(src, ignore_errors=True)
    os.replace(tmp, src)
    with open(os.path.join(build.REPO, "Cargo.toml"), "rb") as f:
        c = tomllib.load(f)
    out = [
        "[package]", f"edition = {toml_value(c['package'].get('edition', '2024'))}", 'name = "rustsim"', 'version = "0.0.0"', "",
        "[lib]", 'name = "rustsim"', 'crate-type = ["rlib"]', "", "[[bin]]", 'name = "rustsim"', "", "[features]",
        *[f"{f} = []" for f in FEATURES], "", "[dependencies]",
        *[f"{k} = {toml_value(v)}" for k, v in c.get("dependencies", {}).items()], "", "[workspace]", "",
        "[lints.rust]", 'unexpected_cfgs = "allow"', "",
    ]
    text = "\n".join(out)
    p = os.path.join(root, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    shutil.copy2(os.path.join(build.REPO, "Cargo.lock"), os.path.join(root, "Cargo.lock"))
    return root


def compile_it():
    """Returns (path of the executor, parts in it)."""
    os.makedirs(build.OUT, exist_ok=True)
    with open(os.path.join(build.OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        root = prepare()
        env = build.vp_env()
        env["CARGO_TARGET_DIR"] = os.path.join(build.OUT, "target")
        env["CARGO_PROFILE_RELEASE_LTO"] = "off"
        env["CARGO_PROFILE_RELEASE_CODEGEN_UNITS"] = "16"
        env["CARGO_INCREMENTAL"] = "0"
        env.pop("LD_PRELOAD", None)
        exe = os.path.join(build.OUT, "target", "release", "rustsim")

        def attempt(features):
            r = subprocess.run(
                ["cargo", "rustc", "--release", "--offline", "--bin", "rustsim", "--features", ",".join(features), "--",
                 "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"],
                env=env, cwd=root, capture_output=True, text=True)
            return "" if r.returncode == 0 else r.stderr[-4000:]

        why = attempt(FEATURES)
        if not why:
            return exe, list(FEATURES), ""
        good = [f for f in FEATURES if not attempt(ALONE[f])]
        if good and not attempt(good):
            return exe, good, why
        return None, [], why


class Executor:
    def __init__(self, exe):
        env = build.vp_env()
        env.pop("LD_PRELOAD", None)
        env["RUST_BACKTRACE"] = "0"
        self.exe, self.env = exe, env

    def start(self, ls, limit):
        try:
            return subprocess.run([self.exe], input=("\n".join(ls) + "\n").encode(), capture_output=True, env=self.env, timeout=limit)
        except subprocess.TimeoutExpired:
            return None

    def run(self, lines):
        """Outcome of every case. A case which kills the executor is reported as `DIED`."""
        out = []
        rest = list(lines)
        while rest:
            r = self.start(rest, 90)
            if r is not None:
                got = r.stdout.decode().split("\n")
                got.pop()
                if r.returncode == 0 and len(got) == len(rest):
                    out += got
                    break
            # Find it one by one
            n = len(out)
            for ln in rest:
                q = self.start([ln], 10)
                if q is None:
                    out.append("DIED:hangs")
                    break
                g = q.stdout.decode().strip("\n")
                out.append(g if q.returncode == 0 else f"DIED:{q.returncode}")
                if q.returncode:
                    break
            rest = rest[len(out) - n:]
        return out


# ---------------------------------------------------------------- model of the buffer
SIZE = 4080


def h(b):
    return b.hex() if b else "-"


def uh(s):
    return b"" if s == "-" else bytes.fromhex(s)


def enc_len(n):
    return bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8 & 255, n & 255])


class Model:
    """Stack of octets which grows down. `None`: the octet was not written."""

    def __init__(self):
        self.mem = [None] * SIZE
        self.pos = SIZE
        self.mark = None

    def state(self):
        return f"{SIZE - self.pos}/{self.pos}/{int(self.pos == SIZE)}{int(self.pos == 0)}"

    def push(self, b):
        if len(b) > self.pos:
            return False
        self.pos -= len(b)
        self.mem[self.pos:self.pos + len(b)] = b
        return True

    def op(self, text):
        """Returns the expected outcome: text, list of octets (None: any), or a tuple of the alternatives."""
        k, *a = text.split(":")
        full = "E:OutOfBuffer"
        if k == "u":
            return "ok" if self.push(bytes([int(a[0])])) else full
        if k == "p":
            return "ok" if self.push(uh(a[0])) else full
        if k == "l":
            return "ok" if self.push(bytes([int(a[1])]) * int(a[0])) else full
        if k == "t":
            return "ok" if self.push(bytes([int(a[0])]) + enc_len(int(a[1]))) else full
        if k == "T":
            c = uh(a[1])
            if len(c) > self.pos:
                return full
            # Content may stay there when the header does not fit
            self.push(c)
            return "ok" if self.push(bytes([int(a[0])]) + enc_len(len(c))) else full
        if k == "i":
            c = ber.int_content(int(a[0]))
            for x in reversed(c):
                if not self.push(bytes([x])):
                    return full
            return "ok" if self.push(b"\x02" + enc_len(len(c))) else full
        if k == "o":
            c = uh(a[0])
            if not self.push(c):
                return full
            return "ok" if self.push(b"\x06" + enc_len(len(c))) else full
        if k == "n":
            return "ok" if self.push(b"\x05\x00") else full
        if k == "s":
            n = min(int(a[0]), self.pos)
            self.pos -= n
            self.mem[self.pos:self.pos + n] = [None] * n
            return "ok"
        if k == "r":
            self.pos = SIZE
            self.mark = None
            return "ok"
        if k == "e":
            return "ok" if int(a[0]) <= self.pos else full
        if k == "m":
            self.mark = self.pos + int(a[0])
            return "ok"
        if k == "g":
            return str(self.mark - self.pos)
        if k == "d":
            return self.mem[self.pos:]
        if k in ("D", "v"):
            off, v = int(a[0]), uh(a[1])
            if self.pos + off + len(v) <= SIZE:
                self.mem[self.pos + off:self.pos + off + len(v)] = v
                return "ok"
            return "PANIC"
        if k == "A":
            v = uh(a[0])
            self.mem[:len(v)] = v
            return str(SIZE)
        if k == "a":
            n = int(a[0])
            return self.mem[:n] if n <= SIZE else ("bounded", self.mem)
        raise KeyError(k)


def same_bytes(exp, got):
    g = uh(got)
    return len(g) == len(exp) and all(x is None or x == y for x, y in zip(exp, g))


def judge_ops(model_for, ops, got, tag):
    """Compare the outcomes with the model. Returns the message or None."""
    for i, o in enumerate(ops):
        if i >= len(got):
            return f"operation {i} {o[:80]} has no outcome"
        m, text = model_for(o)
        if m is None:
            continue
        before = m.state()
        exp = m.op(text)
        r, _, st = got[i].partition("@")
        what = f"operation {i} `{text[:80]}` on the buffer of {before.split('/')[0]} octets"
        if r == "PANIC":
            # Refusing to go out of the bounds is in bounds
            if exp == "PANIC" or (isinstance(exp, tuple) and exp[0] == "bounded"):
                return None
            return f"{what} panics"
        if exp == "PANIC":
            return f"{what} wrote outside of the message"
        if isinstance(exp, tuple):
            if len(uh(r)) > SIZE:
                return f"{what} reads {len(uh(r))} octets of the buffer of {SIZE}"
        elif isinstance(exp, list):
            if not same_bytes(exp, r):
                return f"{what} gives {r[:200]}, expected {''.join('??' if x is None else '%02x' % x for x in exp)[:200]}"
        elif r != exp:
            return f"{what} gives {r[:100]}, expected {exp[:100]}"
        if exp == "E:OutOfBuffer" and text[0] in "tTion" and r == exp:
            # What a refused composite leaves in the buffer is open
            if st.partition("/")[0].isdigit() and int(st.partition("/")[0]) >= int(before.partition("/")[0]):
                return None
        if st != m.state():
            return f"{what} leaves len/free/empty,full {st}, expected {m.state()}"
    return None


# ---------------------------------------------------------------- cases
ARCS = [0, 1, 39, 40, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153, 268435455, 268435456,
        268435457, 2147483647, 2147483648, 4294967294, 4294967295]
LENS = [0, 1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 510, 511, 512, 513]


class Gen:
    def __init__(self, key):
        self.r = random.Random(key)

    def pick(self, s):
        return s[self.r.randrange(len(s))]

    def n(self, a, b):
        return self.r.randint(a, b)

    def p(self, x):
        return self.r.random() < x

    def bytes(self, n):
        return self.r.randbytes(n)

    def i64(self):
        k = self.r.random()
        if k < 0.5:
            v = self.pick((1, -1)) * ((1 << self.n(0, 63)) + self.n(-2, 2))
        elif k < 0.7:
            v = self.n(-70000, 70000)
        else:
            v = self.r.getrandbits(self.n(1, 64)) - (1 << self.n(0, 63))
        return max(-(1 << 63), min((1 << 63) - 1, v))

    def arc(self):
        return self.pick(ARCS) if self.p(0.5) else self.r.getrandbits(self.n(1, 32))

    def arcs(self, n=None):
        n = self.pick([0, 1, 5, 10, self.n(0, 30), self.n(0, 128)]) if n is None else n
        return (self.n(0, 2), self.n(0, 39)) + tuple(self.arc() for _ in range(n))

    def octets(self, top=600):
        n = self.pick(LENS) if self.p(0.4) else self.n(0, 40) if self.p(0.7) else self.n(0, top)
        return self.bytes(min(n, top))


def buf_ops(g, m, n, handle=""):
    """Operations within the preconditions, interesting near the edges."""
    out = []
    for _ in range(n):
        free = m.pos
        k = g.r.random()
        if k < 0.14:
            o = "u:%d" % g.n(0, 255)
        elif k < 0.26:
            o = "p:" + h(g.octets(300))
        elif k < 0.40:
            # To the edge
            x = g.pick([free, free - 1, free + 1, free - 2, free - 3, free - 4, free - 5, free // 2, g.n(0, 200), 4080, 4081, 5000])
            o = "l:%d:%d" % (max(0, x), g.n(1, 255))
        elif k < 0.52:
            o = "t:%d:%d" % (g.n(0, 255), g.pick([g.pick(LENS), g.n(0, 4080), 4079, 4080]))
        elif k < 0.60:
            x = g.pick([len(g.octets(200)), max(0, min(700, free - g.n(0, 6)))])
            o = "T:%d:%s" % (g.n(0, 255), h(g.bytes(x)))
        elif k < 0.66:
            o = "s:%d" % g.pick([0, 1, 8, 12, 16, g.n(0, 100), free, free + 1, max(0, free - 1), 4080, 5000])
        elif k < 0.69:
            o = "r"
        elif k < 0.73:
            o = "e:%d" % g.pick([0, free, free + 1, max(0, free - 1), 4080, 4081, g.n(0, 5000)])
        elif k < 0.76:
            o = "m:%d" % g.n(0, min(20, SIZE - m.pos))
        elif k < 0.80 and m.mark is not None:
            o = "g"
        elif k < 0.84:
            ln = SIZE - m.pos
            off = g.n(0, ln)
            o = "%s:%d:%s" % (g.pick("Dv"), off, h(g.bytes(min(ln - off, g.n(0, 12)) if g.p(0.97) else ln - off + 1)))
        elif k < 0.87:
            o = "A:" + h(g.octets(500))
        elif k < 0.90:
            o = "a:%d" % g.pick([0, g.n(0, 600), 4079, 4080, 4081, 5000] if g.p(0.3) else [0, g.n(0, 300)])
        elif k < 0.93:
            o = "i:%d" % g.i64()
        elif k < 0.95:
            o = "o:" + h(ber.oid_content(g.arcs(g.n(0, 20))))
        elif k < 0.96:
            o = "n"
        else:
            o = "d"
        m.op(o)
        out.append(o)
        if o[0] in "DvaA" and m.pos == SIZE and o[0] == "D":
            pass
    out.append("d")
    m.op("d")
    return out


def case_buffer(g):
    c = g.n(0, 255)
    ops = buf_ops(g, Model(), g.pick([3, 6, 12, 25]))
    return {"k": "buffer", "ops": ops, "poison": c}


def case_pool(g):
    live = {}
    ops = []
    for _ in range(g.n(4, 24)):
        i = g.n(0, 3)
        if i not in live:
            ops.append(f"+{i}")
            live[i] = Model()
        elif g.p(0.3):
            ops.append(f"-{i}")
            del live[i]
        else:
            ops += [f"{i}={o}" for o in buf_ops(g, live[i], g.n(1, 6))]
    return {"k": "pool", "ops": ops, "poison": g.n(0, 255)}


def run_pool(c):
    live = {}

    def model(o):
        if o[0] == "+":
            live[o[1:]] = Model()
            return live[o[1:]], "d"
        if o[0] == "-":
            live.pop(o[1:], None)
            return None, ""
        i, x = o.split("=", 1)
        return live[i], x

    return model


TYPES = {"int": 2, "oid": 6, "null": 5, "octets": 4, "bool": 1, "real": 9, "sequence": 0x30, "option": 0xA0, "reloid": 13, "value": None, "header": None}
VALUE_TAGS = [1, 2, 4, 5, 6, 7, 9, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x80, 0x81, 0x82]
REALS = [b"", b"\x40", b"\x41", b"\x42", b"\x43", b"\x80\x00\x01", b"\xc0\x05\x03", b"\x81\xff\xff\x01", b"\x83\x02\x00\x01\x01", b"\x80\x00", b"\x80",
         b"\x83", b"\x83\x01", b"\x83\x05\x01", b"\x82\x01", b"\x031.5E2", b"\x01 12", b"\x02-3.25", b"\x03E", b"\x00", b"\x90\x01\x01", b"\xa4\x02\x03"]


def case_decode(g):
    t = g.pick(list(TYPES))
    tag = TYPES[t]
    if t == "option":
        tag = g.pick([0xA0, 0xA1, 0xA2, 0xA5, 0xA8])
    if tag is None:
        tag = g.pick(VALUE_TAGS) if g.p(0.9) else g.n(0, 255)
    elif g.p(0.05):
        tag = g.n(0, 255)
    base = tag & 0x1F if tag < 0x40 else 0
    k = g.r.random()
    if tag == 6 or tag == 13:
        c = ber.oid_content(g.arcs(g.n(0, 30))) if k < 0.7 else g.bytes(g.n(0, 12))
    elif tag == 5 or tag in (0x80, 0x81, 0x82):
        c = b"" if k < 0.8 else g.bytes(g.n(1, 4))
    elif tag == 9:
        c = g.pick(REALS) if k < 0.6 else bytes([0x80 | g.n(0, 127)]) + g.bytes(g.n(0, 10))
    elif tag == 0x40:
        c = g.bytes(4) if k < 0.7 else g.bytes(g.n(0, 8))
    elif tag in (2, 0x41, 0x42, 0x43, 0x46, 0x47):
        c = g.bytes(g.pick([0, 1, 2, 3, 4, 5, 7, 8, 9, 10])) if k < 0.7 else ber.int_content(g.i64())
        if k < 0.15:
            c = b"\0" + c
    elif tag == 1:
        c = g.bytes(1) if k < 0.8 else g.bytes(g.n(0, 3))
    else:
        c = g.octets(300)
    form = g.pick([0, 0, 0, 0, 1, 2, 3, 4, 8, g.n(1, 20)])
    if g.p(0.04):
        form = g.pick([-1, -1, -2])  # Indefinite and reserved forms
    return {"k": "decode", "type": t, "tag": tag, "content": h(c), "form": form,
            "tails": [h(b"")] + [h(g.bytes(g.pick([1, 2, 3, 8, 20]))) for _ in range(2)], "cut": g.n(1, 4)}


def lines_decode(c):
    if c["form"] < 0:
        e = bytes([c["tag"], 0x80 if c["form"] == -1 else 0xFF]) + uh(c["content"])
    else:
        e = ber.tlv(c["tag"], uh(c["content"]), c["form"])
    out = [f"X {c['type']} {h(e + uh(t))}" for t in c["tails"]]
    # Longer than what is there
    out.append(f"X {c['type']} {h(e[:max(0, len(e) - c['cut'])])}")
    return out, e


REAL_ANY = object()


def expect_decode(t, tag, content):
    """What the element denotes: text, None - may be refused or not, REAL_ANY."""
    if t == "header":
        # High tag numbers never get here as one octet
        return f"{tag >> 5 & 1}:{tag & 31}:{len(content)}" if tag & 31 != 31 else None
    if t == "sequence":
        return h(content) if tag == 0x30 else None
    if t == "option":
        return f"{tag & 31}:{h(content)}" if tag in (0xA0, 0xA1, 0xA2, 0xA5, 0xA8) and content else None
    if t == "reloid" or tag == 13:
        return None
    want = {"int": 2, "oid": 6, "null": 5, "octets": 4, "bool": 1, "real": 9}.get(t, tag)
    if want != tag:
        return None
    try:
        v = ber.value(tag, content)
    except ber.BerError:
        return None
    if t == "int":
        return str(v)
    if t in ("oid", "octets"):
        return h(content)
    if t == "null":
        return "null"
    if t == "bool":
        return str(int(v))
    if tag == 9:
        return REAL_ANY
    kind = {1: "bool", 2: "int", 4: "str", 5: "null", 6: "oid", 7: "str", 0x40: "ip", 0x44: "str", 0x80: "nso", 0x81: "nsi", 0x82: "eom"}.get(tag, "int")
    if kind in ("null", "nso", "nsi", "eom"):
        return kind
    if kind in ("str", "oid"):
        return f"{kind}:{h(content)}"
    if kind == "bool":
        return f"bool:{int(v)}"
    if kind == "ip":
        return "ip:" + ".".join(str(x) for x in content)
    return f"int:{v}"


def judge_decode(c, got):
    out = []
    content = uh(c["content"])
    _, e = lines_decode(c)
    what = f"{c['type']} {e.hex()[:120]}"
    firsts = set()
    for t, r in zip(c["tails"], got):
        if r in ("PANIC",) or r.startswith("DIED"):
            return [(("C01", "C16"), f"decoding of {what} followed by {t} panics")]
        if c["tag"] & 31 == 31:
            continue  # High tag number: what was meant for the length is a part of the tag
        if c["form"] < 0 and r.startswith("ok "):
            return [(("C16",), f"{what} followed by {t} declares no length but is decoded to {r}")]
        f = r.split(" ")
        firsts.add(" ".join(f[:2]))
        if f[0] == "ok":
            if int(f[2]) != len(uh(t)) or int(f[3]) != (len(e) if c["type"] != "header" else len(e) - len(content)) and int(f[2]):
                if c["type"] != "header" or int(f[2]) != len(uh(t)) + len(content):
                    return [(("C16",), f"decoding of {what} followed by {t} leaves {f[2]} octets at {f[3]}, expected {len(uh(t))} at {len(e)}")]
    if len(firsts) > 1:
        # The shortest elements are refused by some decoders when nothing follows them
        ok = [x for x in firsts if x != "err"]
        if len(ok) > 1 or len(e) >= 3 or c["type"] != "option":
            return [(("C16",), f"decoding of {what} depends on what follows it ({c['tails']}): {sorted(firsts)}")]
    if c["form"] < 0 or c["tag"] & 31 == 31:
        if got[len(c["tails"])] == "PANIC" or got[len(c["tails"])].startswith("DIED"):
            out.append((("C01", "C16"), f"decoding of {what} without the last {c['cut']} octets panics"))
        return out
    exp = expect_decode(c["type"], c["tag"], content)
    r = got[0]
    if exp is not None:
        tags = ("C16", "C02") if c["type"] != "header" else ("C16",)
        if not r.startswith("ok "):
            out.append((tags, f"well-formed {what} is refused"))
        elif exp is not REAL_ANY and r.split(" ")[1] != exp:
            out.append((tags, f"{what} is decoded to {r.split(' ')[1]}, expected {exp}"))
    r = got[len(c["tails"])]
    if r == "PANIC" or r.startswith("DIED"):
        out.append((("C01", "C16"), f"decoding of {what} without the last {c['cut']} octets panics"))
    elif r.startswith("ok ") and (len(content) >= c["cut"]):
        out.append((("C16",), f"{what} without the last {c['cut']} octets is decoded to {r}"))
    return out


def case_encode(g):
    k = g.pick(["int", "int", "int", "oid", "text", "null", "octets", "msg", "msg", "msg", "msg"])
    s = g.n(0, 255)
    if k == "int":
        return {"k": "encode", "t": "int", "v": g.i64(), "stale": s}
    if k in ("oid", "text"):
        return {"k": "encode", "t": k, "v": ber.oid_text(g.arcs()), "stale": s}
    if k == "null":
        return {"k": "encode", "t": "null", "v": "", "stale": s}
    if k == "octets":
        return {"k": "encode", "t": "octets", "v": h(g.bytes(g.pick([g.pick(LENS), g.n(0, 4080), 4075, 4076, 4077, 4080, 4081]))), "stale": s}
    ver = g.pick(["v1", "v2c", "v3", "v3"])
    pdu = {"kind": g.pick(["get", "getnext", "getbulk"] if ver != "v1" else ["get", "getnext"]),
           "rid": g.n(0, 0x7FFFFFFF) if g.p(0.5) else g.i64(), "nr": g.pick([0, 0, g.i64()]), "mr": g.pick([g.n(1, 100), g.i64()]),
           "oids": [ber.oid_text(g.arcs(g.n(0, 20) if g.p(0.9) else None)) for _ in range(g.pick([0, 1, 1, 2, 3, g.n(1, 20), g.n(1, 60)]))]}
    c = {"k": "encode", "t": ver, "pdu": pdu, "stale": s}
    if ver != "v3":
        c["comm"] = h(g.octets(600))
    else:
        c.update(msgid=g.n(0, 0x7FFFFFFF) if g.p(0.5) else g.i64(), flags="".join(g.pick("01") for _ in range(3)), engine=h(g.bytes(g.pick([0, 5, 12, 17, 32, 127, 128, 200]))),
                 boots=g.i64(), time=g.i64(), user=h(g.octets(300)), ap=h(g.bytes(g.pick([0, 12, 12, 12]))), pp=h(g.bytes(g.pick([0, 8, 8]))))
        if g.p(0.4):
            c["enc"] = h(g.octets(600))
            c.pop("pdu")
        else:
            c["ctx"] = h(g.bytes(g.pick([0, 5, 12, 17, 32])))
    if g.p(0.15):
        # To the edge of the buffer
        n = len(expect_encode(c) or b"")
        pad = SIZE - n + g.pick([0, 0, 1, 1, -1, 2, -2, -3, 3, g.n(-8, 300)])
        key = "comm" if ver != "v3" else "user"
        cur = len(uh(c[key]))
        if pad + cur > 0:
            for d in (0, 1, 2, 3, 4, 5, 6):
                c[key] = h(g.bytes(max(0, cur + pad - d)))
                if len(expect_encode(c)) <= SIZE + 1 and g.p(0.6):
                    break
    return c


PDU_TAG = {"get": 0xA0, "getnext": 0xA1, "getbulk": 0xA5}


def expect_pdu(p):
    vb = b"".join(ber.tlv(0x30, ber.enc_oid(ber.parse_oid_text(o)) + b"\x05\x00") for o in p["oids"])
    a, b = (p["nr"], p["mr"]) if p["kind"] == "getbulk" else (0, 0)
    return ber.tlv(PDU_TAG[p["kind"]], ber.enc_int(p["rid"]) + ber.enc_int(a) + ber.enc_int(b) + ber.tlv(0x30, vb))


def expect_encode(c, maxsize=0):
    t = c["t"]
    if t == "int":
        return ber.enc_int(c["v"])
    if t in ("oid", "text"):
        return ber.enc_oid(ber.parse_oid_text(c["v"]))
    if t == "null":
        return b"\x05\x00"
    if t == "octets":
        return ber.tlv(4, uh(c["v"]))
    if t != "v3":
        return ber.tlv(0x30, ber.enc_int(0 if t == "v1" else 1) + ber.tlv(4, uh(c["comm"])) + expect_pdu(c["pdu"]))
    f = int(c["flags"][0]) | int(c["flags"][1]) << 1 | int(c["flags"][2]) << 2
    if "enc" in c:
        data = ber.tlv(4, uh(c["enc"]))
    else:
        data = ber.tlv(0x30, ber.tlv(4, uh(c["ctx"])) + b"\x04\x00" + expect_pdu(c["pdu"]))
    usm = ber.tlv(0x30, ber.tlv(4, uh(c["engine"])) + ber.enc_int(c["boots"]) + ber.enc_int(c["time"]) + ber.tlv(4, uh(c["user"])) + ber.tlv(4, uh(c["ap"])) + ber.tlv(4, uh(c["pp"])))
    return ber.tlv(0x30, b"\x02\x01\x03" + ber.tlv(0x30, ber.enc_int(c["msgid"]) + ber.enc_int(maxsize or 2048) + ber.tlv(4, bytes([f])) + b"\x02\x01\x03") + ber.tlv(4, usm) + data)


def enc_pdu_args(p):
    o = ",".join(h(ber.oid_content(ber.parse_oid_text(x))) for x in p["oids"]) or "none"
    return f"{p['kind']} {p['rid']} {p['nr']} {p['mr']} {o}"


def pdu_text(p):
    o = ",".join(h(ber.oid_content(ber.parse_oid_text(x))) for x in p["oids"]) or "none"
    return f"{p['kind']} {p['rid']} " + (f"{p['nr']} {p['mr']} " if p["kind"] == "getbulk" else "") + o


def lines_encode(c, stale):
    t = c["t"]
    if t in ("int", "octets"):
        a = c["v"]
    elif t == "text":
        a = c["v"]
    elif t == "oid":
        a = h(ber.oid_content(ber.parse_oid_text(c["v"])))
    elif t == "null":
        a = "-"
    elif t != "v3":
        a = f"{c['comm']} {enc_pdu_args(c['pdu'])}"
    else:
        a = f"{c['msgid']} {c['flags']} {c['engine']} {c['boots']} {c['time']} {c['user']} {c['ap']} {c['pp']} "
        a += f"enc {c['enc']}" if "enc" in c else f"plain {c['ctx']} {enc_pdu_args(c['pdu'])}"
    return f"N {stale} {t} {a}"


def size_field(b):
    """msgMaxSize of the message is left to the library: take it from there."""
    try:
        r = ber.Reader(b)
        _, s, e = r.tl()
        r = ber.Reader(b, s, e)
        r.tl()
        _, s, e = r.tl()
        r = ber.Reader(b, s, e)
        r.tl()
        t, s, e = r.tl()
        return int.from_bytes(b[s:e], "big", signed=True) if t == 2 else 0
    except (ber.BerError, TypeError):
        return 0


def judge_encode(c, got):
    t = c["t"]
    what = json.dumps({k: v if len(str(v)) < 120 else str(v)[:120] + ".." for k, v in c.items() if k not in ("k", "stale")})
    if got[0] != got[1]:
        return [(("C15", "C17"), f"encoding of {what} depends on what the buffer held before: {got[0][:200]} and {got[1][:200]}")]
    r = got[0]
    if r == "PANIC" or r.startswith("DIED"):
        return [(("C15", "C17"), f"encoding of {what} panics")]
    exp = expect_encode(c)
    f = r.split(" ")
    if t == "text":
        if r == "refused":
            return [(("C08", "C15"), f"{c['v']} is refused")]
        if f[0] != c["v"]:
            return [(("C08", "C15"), f"{c['v']} is rendered as {f[0]}")]
        f = f[1:]
    mark = None
    if t == "v3":
        mark = f[0]
        f = f[1:]
        if not f[0].startswith("E"):
            b = uh(f[0])
            ms = size_field(b)
            if not 484 <= ms <= 0x7FFFFFFF:
                return [(("C03", "C15"), f"msgMaxSize {ms} in {f[0][:200]}")]
            exp = expect_encode(c, ms)
    if f[0].startswith("E"):
        if len(exp) <= SIZE and t != "v3" or len(exp) < SIZE - 8:
            return [(("C17", "C15"), f"{what} of {len(exp)} octets is refused ({f[0]})")]
        if f[0] != "E:OutOfBuffer":
            return [(("C17",), f"{what} of {len(exp)} octets is refused with another error")]
        return []
    if uh(f[0]) != exp:
        return [(("C15", "C03") + (("C17",) if len(exp) > SIZE - 100 or t not in ("int", "oid", "null", "octets", "text") else ()), f"{what} is encoded as {f[0][:300]}, expected {exp.hex()[:300]}")]
    back = " ".join(f[1:])
    if t == "null":
        want = f"ok null 0 {len(exp)}"
    elif t == "int":
        want = f"ok {c['v']} 0 {len(exp)}"
    elif t in ("oid", "text"):
        want = f"ok {h(ber.oid_content(ber.parse_oid_text(c['v'])))} 0 {len(exp)}"
    elif t == "octets":
        want = f"ok {c['v']} 0 {len(exp)}"
    elif t != "v3":
        want = f"{c['comm']} {pdu_text(c['pdu'])}"
    else:
        want = f"{c['msgid']} {c['flags']} {c['engine']} {c['boots']} {c['time']} {c['user']} {c['ap']} {c['pp']} "
        want += f"enc {c['enc']}" if "enc" in c else f"plain {c['ctx']} {pdu_text(c['pdu'])}"
        if c["ap"] != "-":
            # Place of msgAuthenticationParameters
            at = exp.find(uh(c["ap"]) + ber.tlv(4, uh(c["pp"])))
            if mark != str(at):
                return [(("C09", "C17"), f"{what}: signature goes to {mark}, not to {at}")]
    if back != want:
        return [(("C15",), f"{what} is decoded back as {back[:300]}")]
    return []


def case_message(g):
    """Top-level message followed by something or cut."""
    c = None
    while c is None or c["k"] != "encode" or c["t"] not in ("v1", "v2c", "v3"):
        c = case_encode(g)
    return {"k": "message", "t": c["t"], "hex": expect_encode(c)[:6000].hex(), "tail": h(g.bytes(g.pick([1, 1, 2, 8]))), "cut": g.n(1, 6),
            "v": g.pick(["", "", "v1", "v2c", "v3"])}


def judge_message(c, got):
    whole, tailed, cut = got[:3]
    for r, n in zip(got, ("", " with the trailing octets " + c["tail"], f" without the last {c['cut']} octets")):
        if r == "PANIC" or r.startswith("DIED"):
            return [(("C01", "C16"), f"decoding of {c['t']} message {c['hex'][:200]}{n} panics")]
    out = []
    if not whole.startswith("ok "):
        out.append((("C15", "C16"), f"well-formed {c['t']} message {c['hex'][:300]} is refused"))
    if tailed != "err":
        out.append((("C16",), f"{c['t']} message {c['hex'][:300]} with the trailing octets {c['tail']} is accepted: {tailed[:200]}"))
    if cut != "err":
        out.append((("C16",), f"{c['t']} message {c['hex'][:300]} without the last {c['cut']} octets is accepted: {cut[:200]}"))
    if len(got) > 3 and got[3] != "err":
        out.append((("C04",), f"{c['t']} message {c['hex'][:300]} is accepted as {c['v']}: {got[3][:200]}"))
    return out


KINDS = {
    "C17": [("buffer", 6), ("pool", 3), ("encode", 2)],
    "C15": [("encode", 6)],
    "C16": [("decode", 6), ("message", 2)],
    "C02": [("decode", 1)],
}
PART = {"buffer": "buf", "pool": "buf", "encode": "elem", "decode": "elem", "message": "msg"}


def make(prop, seed, i, parts):
    g = Gen(f"rust/{prop}/{seed}/{i}")
    ks = [(k, w) for k, w in KINDS[prop] if PART[k] in parts]
    if not ks:
        return None
    x = g.r.random() * sum(w for _, w in ks)
    for k, w in ks:
        x -= w
        if x < 0:
            break
    c = {"buffer": case_buffer, "pool": case_pool, "decode": case_decode, "encode": case_encode, "message": case_message}[k](g)
    if c["k"] == "encode" and c["t"] in ("v1", "v2c", "v3") and "msg" not in parts:
        return {"k": "encode", "t": "int", "v": g.i64(), "stale": 1}
    return c


def lines(c):
    k = c["k"]
    if k in ("buffer", "pool"):
        q = "B" if k == "buffer" else "Q"
        return [f"{q} {p} " + " ".join(c["ops"]) for p in (c["poison"], c["poison"] ^ 0xFF)]
    if k == "decode":
        return lines_decode(c)[0]
    if k == "encode":
        return [lines_encode(c, s) for s in (c["stale"], c["stale"] ^ 0xFF)]
    b = bytes.fromhex(c["hex"])
    out = [f"V {c['t']} {h(b)}", f"V {c['t']} {h(b + uh(c['tail']))}", f"V {c['t']} {h(b[:-c['cut']])}"]
    if c["v"] and c["v"] != c["t"]:
        out.append(f"V {c['v']} {h(b)}")
    return out


def judge(c, got):
    """List of (properties, message)."""
    k = c["k"]
    if k in ("buffer", "pool"):
        a, b = (x.split(" ") for x in got)
        if any(x.startswith("DIED") for x in got):
            return [(("C17",), f"the process dies ({got}) on {' '.join(c['ops'])[:400]}")]
        for x in (a, b):
            if k == "buffer":
                m = Model()
                msg = judge_ops(lambda o: (m, o), c["ops"], x[:-1], k)
                if x[-1] != "guard=1":
                    msg = "octets around the buffer are overwritten"
            else:
                msg = judge_ops(run_pool(c), c["ops"], x, k)
            if msg:
                return [(("C17",), msg)]
        # Twins: only those octets differ which nobody has written
        models = {}
        for i, o in enumerate(c["ops"]):
            if i >= len(a) or i >= len(b):
                break
            t = o.split("=", 1)[-1]
            if t[0] in "dg" and a[i] != b[i]:
                return [(("C17",), f"operation {i} `{t}` exposes the octets which were never written: {a[i][:160]} and {b[i][:160]} with another stale content")]
        del models
        return []
    if k == "decode":
        return judge_decode(c, got)
    if k == "encode":
        return judge_encode(c, got)
    return judge_message(c, got)


def check_one(ex, prop, c):
    return [m for t, m in judge(c, ex.run(lines(c))) if prop in t]


def work(args):
    exe, prop, seed, lo, hi, parts = args
    ex = Executor(exe)
    cases = [(i, make(prop, seed, i, parts)) for i in range(lo, hi)]
    cases = [(i, c) for i, c in cases if c is not None]
    ls, spans = [], []
    for i, c in cases:
        x = lines(c)
        spans.append((i, c, len(ls), len(ls) + len(x)))
        ls += x
    got = ex.run(ls)
    bad = []
    stats = {}
    seen = set()
    for i, c, a, b in spans:
        stats[c["k"]] = stats.get(c["k"], 0) + 1
        r = got[a:b]
        seen.add(hashlib.sha256(("|".join(re.sub(r"[0-9a-f]{5,}", lambda m: "x%d" % len(m[0]).bit_length(), x) for x in r) + c["k"]).encode()).hexdigest()[:12])
        for t, m in judge(c, r):
            if prop in t:
                bad.append((i, m))
    return {"bad": bad[:5], "stats": stats, "seen": list(seen), "ops": sum(len(c.get("ops", [1])) for _, c in cases)}


def minimise(ex, prop, c):
    """Drop the operations which are not needed."""
    if "ops" in c:
        i = 0
        n = max(1, len(c["ops"]) // 2)
        while n >= 1:
            i = 0
            while i < len(c["ops"]):
                d = dict(c, ops=c["ops"][:i] + c["ops"][i + n:])
                try:
                    ok = d["ops"] and check_one(ex, prop, d)
                except (KeyError, ValueError, TypeError):
                    ok = False
                if ok:
                    c = d
                else:
                    i += n
            n //= 2
    elif c["k"] == "encode" and "pdu" in c:
        o = list(c["pdu"]["oids"])
        i = 0
        while i < len(o):
            d = dict(c, pdu=dict(c["pdu"], oids=o[:i] + o[i + 1:]))
            if check_one(ex, prop, d):
                c, o = d, o[:i] + o[i + 1:]
            else:
                i += 1
    return c


def explore(prop, seed, seconds, total, workers, exe, parts):
    """Run the cases on all the cores. Returns (statistics, failures)."""
    from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

    t0 = time.monotonic()
    step = 400
    out = {"cases": 0, "operations": 0, "kinds": {}}
    seen = set()
    bad = []
    with ProcessPoolExecutor(workers) as p:
        nxt = 0
        live = set()
        while True:
            while nxt < total and len(live) < workers + 2 and time.monotonic() - t0 < seconds and not bad:
                live.add(p.submit(work, (exe, prop, seed, nxt, min(total, nxt + step), parts)))
                nxt += step
            if not live:
                break
            done, live = wait(live, return_when=FIRST_COMPLETED)
            for f in done:
                r = f.result()
                out["operations"] += r["ops"]
                seen |= set(r["seen"])
                for k, v in r["stats"].items():
                    out["kinds"][k] = out["kinds"].get(k, 0) + v
                    out["cases"] += v
                bad += r["bad"]
    out["distinct_outcomes"] = len(seen)
    out["seconds"] = round(time.monotonic() - t0, 1)
    out["parts"] = parts
    return out, sorted(bad)


def layer(prop, tier, seed, workers=8):
    """Returns (evidence, message, replay file) for the check."""
    if prop not in KINDS:
        return None
    exe, parts, why = compile_it()
    if not parts:
        return {"skipped": "the executor does not compile with this tree", "compiler": why[-800:]}, None, None
    quick = tier != "thorough"
    stats, bad = explore(prop, seed, 8 if quick else 240, 60000 if quick else 10**8, workers, exe, parts)
    if len(parts) < len(FEATURES):
        stats["left_out"] = why[-800:]
    if not bad:
        return stats, None, None
    ex = Executor(exe)
    i, msg = bad[0]
    c = make(prop, seed, i, parts)
    c = minimise(ex, prop, c)
    got = ex.run(lines(c))
    ms = [m for t, m in judge(c, got) if prop in t]
    msg = ms[0] if ms else msg
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = f"{prop}-element-{hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:10]}.json"
    path = os.path.join(HERE, "replays", name)
    with open(path, "w") as f:
        json.dump({"property": prop, "layer": "element", "seed": seed, "index": i, "case": c, "violation": {"class": "element", "message": msg},
                   "history": got}, f, indent=1)
    stats["violations"] = len(bad)
    return stats, f"element layer seed {seed} case {i}: {msg}", path


def replay(rec):
    """Exit status of tools/replay."""
    exe, parts, why = compile_it()
    if not parts:
        print(f"HARNESS ERROR: {why}", file=sys.stderr)
        return 3
    ex = Executor(exe)
    got = ex.run(lines(rec["case"]))
    ms = [m for t, m in judge(rec["case"], got) if rec["property"] in t]
    if not ms:
        print(f"{rec['property']}: the property holds on this case now; recorded: {rec['violation']['message'][:600]}")
        return 0
    print(ms[0][:1500])
    print(f"outcomes: {'identical' if got == rec['history'] else 'different'}")
    return 1 if got == rec["history"] else 2


if __name__ == "__main__":
    s = layer(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick", int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    print(json.dumps(s[0], indent=1))
    print(s[1], s[2])
