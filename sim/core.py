"""The simulator kernel: virtual clock, event queue, scheduler, simulated UDP, randomness.

Every intercepted kernel entry point of the code under test arrives in `Sim._callback` (see native/simnet.c).
Tasks are OS threads of which exactly one holds the token; the token changes hands only at intercepted entry
points, and who gets it is decided by the scenario's schedule list.  Time moves only when no task can run.
"""
import ctypes
import errno
import hashlib
import heapq
import os
import selectors
import threading
from collections import deque

OP_SOCKET, OP_CONNECT, OP_SEND, OP_RECV, OP_CLOSE, OP_SLEEP, OP_RANDOM, OP_POLL, OP_SETOPT = range(1, 10)
BASE_NS = 1_000_000_000_000
US = 1_000
MS = 1_000_000
SEC = 1_000_000_000
INF = 1 << 62
WALL_NS = 1_700_000_000 * SEC
STEP_CAP = 60_000

CB = ctypes.CFUNCTYPE(
    ctypes.c_longlong, ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_longlong,
    ctypes.c_longlong,
)


class Native:
    """Handle of the preloaded simnet.so."""

    def __init__(self):
        lib = ctypes.CDLL(os.environ["SIMNET_SO"])
        self.lib = lib
        lib.sim_get_rcvtimeo.restype = ctypes.c_int64
        self.now = ctypes.c_int64.in_dll(lib, "sim_now_ns")
        self.calls = ctypes.c_int64.in_dll(lib, "sim_calls")
        self.clock_reads = ctypes.c_int64.in_dll(lib, "sim_clock_reads")
        self.hz = ctypes.c_int64.in_dll(lib, "sim_hz")
        self.offset = ctypes.c_int64.in_dll(lib, "sim_real_offset_ns")
        self.offset.value = WALL_NS
        self.sim = None
        self._cb = CB(self._callback)
        lib.sim_set_callback(self._cb)

    def _callback(self, op, fd, buf, n, a, b):
        sim = self.sim
        if sim is None:
            return -errno.EBADF
        try:
            return sim.syscall(op, fd, buf, n, a, b)
        except BaseException as e:  # noqa: BLE001 - must not escape into C
            sim.harness_error(e)
            return -errno.EIO


NATIVE = None


def native():
    global NATIVE
    if NATIVE is None:
        NATIVE = Native()
    return NATIVE


class Task:
    def __init__(self, sim, name, fn):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.sem = threading.Lock()
        self.sem.acquire()
        self.pred = None
        self.deadline = INF
        self.done = False
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        sim = self.sim
        self.sem.acquire()
        sim.tls.task = self
        lib = sim.nat.lib
        lib.sim_enter()
        try:
            self.fn()
        except BaseException as e:  # noqa: BLE001
            sim.harness_error(e)
        finally:
            lib.sim_leave()
            self.done = True
            sim.finish(self)


class SimSock:
    __slots__ = ("fd", "owner", "rx", "connected", "closed", "unwritable_until", "spurious", "errs", "dst")

    def __init__(self, fd, owner):
        self.fd = fd
        self.owner = owner
        self.rx = deque()
        self.connected = False
        self.closed = False
        self.unwritable_until = 0
        self.spurious = 0
        self.errs = deque()
        self.dst = b""


class Sim:
    def __init__(self, seed_key, sched=(), rng=(), hz=0, poison=0xAA, tick=1, wall=()):
        self.nat = native()
        self.nat.hz.value = hz
        self.now = BASE_NS
        self.nat.now.value = BASE_NS
        self.nat.offset.value = WALL_NS
        self.wall = deque((BASE_NS + t * US, d * US) for t, d in sorted(wall))
        self.wall_steps = 0
        self.heap = []
        self.seq = 0
        self.tasks = []
        self.alive = []
        self.tls = threading.local()
        self.sched = list(sched)
        self.sched_pos = 0
        self.rng_seeds = [bytes.fromhex(x) for x in rng]
        self.rng_pos = 0
        self.seed_key = seed_key
        self.socks = {}
        self.on_send = None  # (sock, bytes) -> None | -errno
        self.new_owner = None  # who owns the sockets being created
        self.errors = []
        self.steps = 0
        self.aborted = None
        self.done_evt = threading.Event()
        self.poison = poison
        self.tick = tick * US
        self.oversleep = deque()
        self.switches = 0
        self.digest = hashlib.sha256()
        self.log = None
        self.random_drawn = 0
        self.max_runnable = 0

    # ---- bookkeeping
    def harness_error(self, e):
        import traceback

        self.errors.append("".join(traceback.format_exception(e)))
        self.aborted = self.aborted or "harness"

    def note(self, *what):
        line = repr(what)
        self.digest.update(line.encode())
        if self.log is not None:
            self.log.append(f"{(self.now - BASE_NS) / 1000:12.3f}us {line}")

    def after(self, delay_ns, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0, int(delay_ns)), self.seq, fn))

    def advance_to(self, t):
        if t > self.now:
            self.now = t
            self.nat.now.value = t
            while self.wall and self.wall[0][0] <= t:
                # The wall clock of the client's host is set; only CLOCK_REALTIME sees it
                self.nat.offset.value += self.wall.popleft()[1]
                self.wall_steps += 1

    def _run_due(self):
        while self.heap and self.heap[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.heap)
            fn()

    # ---- scheduler
    def _pick(self):
        while True:
            self._run_due()
            run = [
                t for t in self.alive if t.pred is None or self.now >= t.deadline or t.pred() or self.aborted
            ]
            if run:
                if len(run) > self.max_runnable:
                    self.max_runnable = len(run)
                if len(run) == 1:
                    return run[0]
                if self.sched_pos < len(self.sched):
                    i = self.sched[self.sched_pos]
                    self.sched_pos += 1
                else:
                    i = 0
                return run[i % len(run)]
            t = self.heap[0][0] if self.heap else INF
            for k in self.alive:
                if k.deadline < t:
                    t = k.deadline
            if t >= INF:
                # Nobody can ever run again
                self.aborted = self.aborted or "deadlock"
                self.note("deadlock")
                continue
            self.advance_to(t)

    def block(self, pred, deadline):
        """Wait until pred() or the deadline. Returns pred()."""
        task = self.tls.task
        task.pred = pred
        task.deadline = deadline
        nxt = self._pick()
        if nxt is not task:
            self.switches += 1
            nxt.sem.release()
            task.sem.acquire()
        task.pred = None
        task.deadline = INF
        return pred()

    def yield_point(self):
        if len(self.alive) > 1:
            task = self.tls.task
            nxt = self._pick()
            if nxt is not task:
                self.switches += 1
                nxt.sem.release()
                task.sem.acquire()

    def finish(self, task):
        self.alive.remove(task)
        if self.alive:
            self._pick().sem.release()
        else:
            self.done_evt.set()

    def run(self, fns, real_timeout):
        """Run the functions as tasks. Returns False, if the run hangs in the real time."""
        self.nat.sim = self
        self.tasks = [Task(self, n, f) for n, f in fns]
        self.alive = list(self.tasks)
        for t in self.tasks:
            t.thread.start()
        self._pick().sem.release()
        ok = self.done_evt.wait(real_timeout)
        if ok:
            for t in self.tasks:
                t.thread.join()
            self.nat.sim = None
        return ok

    # ---- kernel
    def syscall(self, op, fd, buf, n, a, b):
        self.steps += 1
        if self.steps > STEP_CAP and not self.aborted:
            self.aborted = "steps"
            self.note("step cap")
        if op == OP_RECV:
            return self.sys_recv(fd, buf, n, a, b)
        if op == OP_SEND:
            return self.sys_send(fd, buf, n, b)
        if op == OP_SLEEP:
            return self.sys_sleep(a)
        if op == OP_RANDOM:
            return self.sys_random(buf, n)
        if op == OP_SOCKET:
            self.socks[fd] = SimSock(fd, self.new_owner)
            return 0
        if op == OP_CONNECT:
            s = self.socks.get(fd)
            if s:
                s.connected = True
                s.dst = ctypes.string_at(buf, n)
            return 0
        if op == OP_CLOSE:
            s = self.socks.pop(fd, None)
            if s:
                s.closed = True
            return 0
        if op == OP_POLL:
            return self.sys_poll(fd, a, b)
        if op == OP_SETOPT:
            s = self.socks.get(fd)
            if s and s.owner:
                s.owner.on_setopt(a, b)
            return 0
        return -errno.ENOSYS

    def sys_send(self, fd, buf, n, nonblock):
        if self.aborted:
            return -errno.EIO
        s = self.socks[fd]
        self.advance_to(self.now + self.tick)
        if n > 65507:
            return -errno.EMSGSIZE
        data = ctypes.string_at(buf, n) if n else b""
        if s.unwritable_until > self.now:
            if nonblock:
                s.owner.on_send_error(data, errno.EAGAIN)
                return -errno.EAGAIN
            self.block(lambda: self.now >= s.unwritable_until, s.unwritable_until)
        r = self.on_send(s, data)
        self.yield_point()
        return r if r < 0 else n

    def sys_recv(self, fd, buf, n, timeout_us, flags=0):
        s = self.socks[fd]
        self.advance_to(self.now + self.tick)
        if self.aborted:
            return -errno.EIO
        if not s.rx and not s.errs:
            if timeout_us < 0:
                s.owner.on_recv_error(errno.EAGAIN)
                self.yield_point()
                return -errno.EAGAIN
            deadline = self.now + timeout_us * US if timeout_us > 0 else INF
            self.block(lambda: bool(s.rx or s.errs), deadline)
            if self.aborted:
                return -errno.EIO
            if not s.rx and not s.errs:
                s.owner.on_recv_error(errno.EAGAIN)
                return -errno.EAGAIN
        else:
            self.yield_point()
        if s.errs:
            e = s.errs.popleft()
            s.owner.on_recv_error(e)
            return -e
        peek = flags & 2  # MSG_PEEK
        data = s.rx[0] if peek else s.rx.popleft()
        got = data[:n]
        k = len(got)
        ctypes.memmove(buf, got, k)
        if self.poison is not None and n > k:
            # Rest of the buffer belongs to the kernel until the call returns
            ctypes.memset(buf + k, self.poison, n - k)
        if peek:
            return len(data) if flags & 0x20 else k  # MSG_TRUNC
        # A datagram which fits the buffer of the library has to be read whole
        s.owner.on_recv(data if len(data) <= 4080 else got, len(data))
        return len(data) if flags & 0x20 else k

    def sys_poll(self, fd, timeout_us, events):
        s = self.socks[fd]

        def mask():
            r = 0
            if events & 1 and (s.rx or s.errs):
                r |= 1
            if events & 4 and s.unwritable_until <= self.now:
                r |= 4
            return r

        deadline = INF if timeout_us < 0 else self.now + timeout_us * US
        if events & 4 and s.unwritable_until > self.now:
            deadline = min(deadline, s.unwritable_until)
        self.block(lambda: mask() != 0, deadline)
        return mask()

    def sys_sleep(self, ns):
        if self.aborted:
            return 0
        extra = self.oversleep.popleft() if self.oversleep else 0
        self.block(lambda: False, self.now + ns + extra)
        return 0

    def sys_random(self, buf, n):
        if n == 32 and self.rng_pos < len(self.rng_seeds):
            data = self.rng_seeds[self.rng_pos]
            self.rng_pos += 1
        else:
            data = b""
            k = self.random_drawn
            while len(data) < n:
                data += hashlib.sha256(f"{self.seed_key}/{k}".encode()).digest()
                k += 1
            self.random_drawn = k
        ctypes.memmove(buf, data[:n], n)
        return n


class SimSelector(selectors.BaseSelector):
    """Selector of the stock asyncio event loop, which waits in the simulated time."""

    def __init__(self, sim):
        self.sim = sim
        self.keys = {}

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        if fd in self.keys:
            raise KeyError(f"{fd} is already registered")
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.keys[fd] = key
        return key

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self.keys.pop(fd)

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return {k.fileobj: k for k in self.keys.values()}

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self.keys[fd]

    def close(self):
        self.keys.clear()

    def _ready(self):
        r = []
        sim = self.sim
        for fd, key in self.keys.items():
            s = sim.socks.get(fd)
            if s is None:
                continue
            m = 0
            if key.events & selectors.EVENT_READ and (s.rx or s.errs or s.spurious):
                m |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and s.unwritable_until <= sim.now:
                m |= selectors.EVENT_WRITE
            if m:
                r.append((key, m))
        return r

    def select(self, timeout=None):
        sim = self.sim
        sim.steps += 1
        if sim.steps > STEP_CAP and not sim.aborted:
            sim.aborted = "steps"
        if sim.aborted:
            raise SystemExit("simulation aborted")
        if timeout is None:
            deadline = INF
        elif timeout <= 0:
            deadline = sim.now
        else:
            deadline = sim.now + -(-int(timeout * 1e9) // US) * US + US
        w = [s.unwritable_until for s in sim.socks.values() if s.unwritable_until > sim.now]
        if deadline > sim.now:
            while True:
                d = min([deadline] + w)
                if sim.block(lambda: bool(self._ready()), d) or sim.now >= deadline:
                    break
                w = [x for x in w if x > sim.now]
                if sim.aborted:
                    raise SystemExit("simulation aborted")
        else:
            sim._run_due()
            sim.yield_point()
        ready = self._ready()
        for key, _ in ready:
            s = sim.socks.get(key.fd)
            if s is not None and s.spurious:
                s.spurious -= 1
        return ready
