"""A pure-Python, deterministic stand-in for cocotb's compiled GPI layer (`cocotb.simulator`).

The real cocotb scheduler, triggers, queues, events and handles run on top of it unmodified.
Everything a simulator would decide on its own -- the order of same-time events, the time itself,
signal storage -- is decided here, from one seeded chooser.
"""
import heapq
import logging
import sys
import types
import zlib


class Chooser:
    """Every scheduling decision of a run goes through choose(); FIFO once `limit` is reached."""
    __slots__ = ("policy", "rng", "limit", "count", "nontrivial", "sig", "devs", "record")

    def __init__(self, policy="fifo", seed=0, limit=None, devs=None):
        import random
        self.policy = policy
        self.devs = {a: b for a, b in devs} if devs else {}
        self.record = None      # list of (decision, alternatives, pick) departures from FIFO
        self.rng = random.Random(f"sched:{seed}")
        self.limit = limit
        self.count = 0          # decisions with more than one alternative
        self.nontrivial = 0     # ... that departed from FIFO
        self.sig = 0            # rolling signature of the decisions taken

    def choose(self, n):
        if n <= 1:
            return 0
        self.count += 1
        if self.policy == "fifo" or (self.limit is not None and self.count > self.limit):
            return 0
        if self.policy == "list":
            k = min(self.devs.get(self.count, 0), n - 1)
        else:
            k = self.rng.randrange(n)
        if k:
            self.nontrivial += 1
            if self.record is not None:
                self.record.append((self.count, n, k))
        self.sig = (self.sig * 1000003 + n * 31 + k) & 0xffffffffffffffff
        return k


class SimLimit(Exception):
    """Simulated-time or event budget exhausted."""


class _Cb:
    __slots__ = ("fn", "args", "live", "kind", "key", "sig", "edge")

    def __init__(self, fn, args, kind):
        self.fn = fn
        self.args = args
        self.live = True
        self.kind = kind

    def deregister(self):
        self.live = False

    def fire(self):
        if self.live:
            self.live = False
            self.fn(*self.args)


class Signal:
    """A GPI handle for one variable.  Value is an int, or a string when it holds x/z bits."""

    def __init__(self, kernel, name, width, init=0):
        self.kernel = kernel
        self.name = name
        self.width = width
        self.val = init
        self.fmt = f"0{width}b"
        self.mask = (1 << width) - 1
        self.watch = []

    # -- identification
    def get_type(self):
        return REG

    def get_const(self):
        return False

    def get_type_string(self):
        return "GPI_REGISTER"

    def get_name_string(self):
        return self.name

    def get_definition_name(self):
        return self.name

    def get_definition_file(self):
        return ""

    def get_num_elems(self):
        return self.width

    def get_range(self):
        return (self.width - 1, 0)

    def get_indexable(self):
        return False

    def iterate(self, kind):
        return iter(())

    # -- value
    def get_signal_val_binstr(self):
        v = self.val
        return format(v, self.fmt) if isinstance(v, int) else v

    def get_signal_val_long(self):
        v = self.val
        return v if isinstance(v, int) else 0

    def set_signal_val_int(self, action, value):
        self._set(int(value) & self.mask)

    def set_signal_val_binstr(self, action, value):
        try:
            v = int(value, 2)
        except ValueError:
            v = value
        self._set(v)

    def _set(self, v):
        old = self.val
        if old == v:
            return
        self.val = v
        if self.watch:
            k = self.kernel
            edge = 3
            if self.width == 1:
                if v == 1:
                    edge = 1
                elif v == 0:
                    edge = 2
            still = []
            for cb in self.watch:
                if not cb.live:
                    continue
                if cb.edge == 3 or edge == cb.edge:
                    k.active.append(cb)
                else:
                    still.append(cb)
            self.watch = still


class Kernel:
    def __init__(self, chooser, precision=-12, max_time=None, max_events=None):
        self.chooser = chooser
        self.precision = precision
        self.time = 0
        self.heap = []
        self.seq = 0
        self.active = []
        self.rw = []
        self.ro = []
        self.nextstep = []
        self.done = False
        self.events = 0
        self.max_time = max_time
        self.max_events = max_events
        self.digest = 0         # rolling hash of everything observed
        self.trace = None       # list of readable lines when tracing

    def note(self, text):
        """Fold an observation into the run's digest (and its trace)."""
        self.digest = zlib.crc32(text.encode(), self.digest)
        if self.trace is not None:
            self.trace.append(f"{self.time * 10.0 ** (self.precision + 9):.3f}ns {text}")

    def timed(self, delta, fn, args):
        cb = _Cb(fn, args, "t")
        self.seq += 1
        heapq.heappush(self.heap, (self.time + max(int(delta), 0), self.seq, cb))
        return cb

    def _fire(self, cb):
        self.events += 1
        if self.max_events is not None and self.events > self.max_events:
            raise SimLimit("events")
        cb.fire()

    def run(self):
        active = self.active
        choose = self.chooser.choose
        while not self.done:
            if active:
                i = choose(len(active)) if len(active) > 1 else 0
                cb = active.pop(i)
                if cb.live:
                    self._fire(cb)
                continue
            if self.rw:
                l, self.rw = self.rw, []
                for cb in l:
                    if cb.live:
                        self._fire(cb)
                continue
            if self.ro:
                l, self.ro = self.ro, []
                for cb in l:
                    if cb.live:
                        self._fire(cb)
                continue
            # advance time
            heap = self.heap
            while heap and not heap[0][2].live:
                heapq.heappop(heap)
            if not heap:
                raise SimLimit("starved")
            t = heap[0][0]
            if self.max_time is not None and t > self.max_time:
                raise SimLimit("time")
            self.time = t
            self.digest = (self.digest * 31 + t + self.events) & 0xffffffffffff
            if self.nextstep:
                l, self.nextstep = self.nextstep, []
                active.extend(l)
            while heap and heap[0][0] == t:
                cb = heapq.heappop(heap)[2]
                if cb.live:
                    active.append(cb)


# ---------------------------------------------------------------------------------------------
# the fake `cocotb.simulator` module

(UNKNOWN, MEMORY, MODULE, NET, NETARRAY, REG, PARAMETER, STRUCTURE, GENARRAY, INTEGER, REAL,
    STRING, ENUM, OBJECTS, DRIVERS, LOADS) = range(16)

KERNEL = None


def _mk():
    m = types.ModuleType("cocotb.simulator")
    for k in ("UNKNOWN MEMORY MODULE NET NETARRAY REG PARAMETER STRUCTURE GENARRAY INTEGER REAL "
            "STRING ENUM OBJECTS DRIVERS LOADS").split():
        setattr(m, k, globals()[k])

    m.is_running = lambda: KERNEL is not None
    m.log_level = lambda lvl: None
    m.log_msg = lambda *a: None
    m.get_precision = lambda: KERNEL.precision if KERNEL else -12
    m.get_simulator_product = lambda: "dsim"
    m.get_simulator_version = lambda: "1"
    m.stop_simulator = lambda: None
    m.package_iterate = lambda: iter(())

    def get_sim_time():
        t = KERNEL.time if KERNEL else 0
        return (t >> 32, t & 0xffffffff)
    m.get_sim_time = get_sim_time

    m.register_timed_callback = lambda t, fn, *a: KERNEL.timed(t, fn, a)

    def rw(fn, *a):
        cb = _Cb(fn, a, "w")
        KERNEL.rw.append(cb)
        return cb
    m.register_rwsynch_callback = rw

    def ro(fn, *a):
        cb = _Cb(fn, a, "r")
        KERNEL.ro.append(cb)
        return cb
    m.register_readonly_callback = ro

    def nx(fn, *a):
        cb = _Cb(fn, a, "n")
        KERNEL.nextstep.append(cb)
        return cb
    m.register_nextstep_callback = nx

    def vc(handle, fn, edge, *a):
        cb = _Cb(fn, a, "v")
        cb.edge = edge
        handle.watch.append(cb)
        return cb
    m.register_value_change_callback = vc
    return m


def install():
    """Put the fake GPI in place; must run before the first `import cocotb`."""
    if "cocotb" in sys.modules and not isinstance(sys.modules.get("cocotb.simulator"), types.ModuleType):
        raise RuntimeError("cocotb imported before dsim.gpi.install()")
    if getattr(sys.modules.get("cocotb.simulator"), "__dsim__", False):
        return
    m = _mk()
    m.__dsim__ = True
    sys.modules["cocotb.simulator"] = m
    logging.disable(logging.CRITICAL)
