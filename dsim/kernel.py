"""Runs one coroutine, with everything it starts, to completion under the simulator."""
import os
import random
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
from . import gpi
gpi.install()
warnings.simplefilter("ignore")

import cocotb  # noqa: E402
from cocotb.scheduler import Scheduler as _Scheduler  # noqa: E402
import cocotb.utils  # noqa: E402
from cocotb.task import Task  # noqa: E402
from cocotb import triggers as _tr  # noqa: E402



RECORD = False      # keep the list of scheduling departures
TRACE = False       # keep a readable trace


class _Pick(list):
    """A run queue from which the chooser, not arrival order, picks the next entry."""
    __slots__ = ("choose",)

    def __init__(self, choose):
        super().__init__()
        self.choose = choose

    def pop(self, i=0):
        if len(self) > 1:
            i = self.choose(len(self))
        return list.pop(self, i)


class _Waiters(dict):
    """trigger -> waiting tasks; the chooser permutes the tasks woken by one trigger."""

    def __init__(self, sched, choose):
        super().__init__()
        self.sched = sched
        self.choose = choose

    def pop(self, *a):
        l = dict.pop(self, *a)
        if isinstance(l, list) and len(l) > 1:
            head = []
            rest = l
            if l[0] is self.sched._write_coro_inst:
                head, rest = l[:1], l[1:]
            out = []
            rest = list(rest)
            while rest:
                out.append(rest.pop(self.choose(len(rest))))
            return head + out
        return l


class SimScheduler(_Scheduler):
    def __init__(self, handle_result, chooser):
        super().__init__(handle_result)
        self._chooser = chooser
        if chooser.policy != "fifo":
            self._pending_coros = _Pick(chooser.choose)
            self._trigger2coros = _Waiters(self, chooser.choose)


class Result:
    """Outcome of one run."""
    def __init__(self):
        self.status = None       # "ok" | "limit" | "exc"
        self.limit = None
        self.exc = None
        self.tb = ""
        self.value = None
        self.time_ns = 0.0
        self.events = 0
        self.choices = 0
        self.nontrivial = 0
        self.sched_sig = 0


def run(coro_fn, *, sched=None, precision=-12, max_time_ns=1e9, max_events=None, rng_seed=0):
    """Run `await coro_fn(kernel)` as the test task of a fresh simulation."""
    sched = sched or {}
    chooser = gpi.Chooser(sched.get("policy", "fifo"), sched.get("seed", 0), sched.get("limit"), sched.get("devs"))
    if RECORD:
        chooser.record = []
    k = gpi.Kernel(chooser, precision=precision, max_events=max_events)
    if TRACE:
        k.trace = []
    k.max_time = int(max_time_ns * 10.0 ** (-9 - precision))
    gpi.KERNEL = k
    cocotb.utils._get_simulator_precision = lambda: precision
    random.seed(f"run:{rng_seed}")

    res = Result()

    def finished(task):
        k.done = True

    s = SimScheduler(finished, chooser)
    cocotb.scheduler = s
    # recycled singleton triggers must not leak between runs
    for t in (s._next_time_step, s._read_write, s._read_only, s._timer1):
        t.primed = False
        t.cbhdl = None

    async def body():
        return await coro_fn(k)

    test = Task(body())
    try:
        s._add_test(test)
        k.run()
        res.status = "ok"
    except gpi.SimLimit as e:
        res.status = "limit"
        res.limit = str(e)
    if res.status == "ok":
        out = test._outcome
        try:
            res.value = out.get()
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            res.status = "exc"
            res.exc = e
            res.tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    res.time_ns = k.time * 10.0 ** (precision + 9)
    res.events = k.events
    res.choices = chooser.count
    res.nontrivial = chooser.nontrivial
    res.sched_sig = chooser.sig
    res.digest = f"{k.digest:x}.{k.events:x}.{chooser.sig:x}"
    res.record = chooser.record
    res.trace = k.trace
    res.kernel = k
    return res


class Dut:
    """A bag of wires; stands where the elaborated top level would."""

    def __init__(self, kernel, name="dut"):
        import logging
        self._kernel = kernel
        self._name = name
        self._log = logging.getLogger("dut")

    def add(self, name, width=1, init=0):
        from cocotb.handle import SimHandle
        h = SimHandle(gpi.Signal(self._kernel, name, width, init), f"{self._name}.{name}")
        setattr(self, name, h)
        return h


def now_ns(k):
    return k.time * 10.0 ** (k.precision + 9)
