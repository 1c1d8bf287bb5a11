"""Taps on simulated links: observation of everything that crosses, and injection of link faults.

A tap replaces the receive entry point of a port instance.  Packets arrive in transmission order; the
tap may delay, drop or repeat link-layer packets and replay TLPs the receiver already has, but never
reorders a direction (a serial link cannot) and never loses a TLP (the shipped code documents replay
after loss as unimplemented).
"""
import random
from collections import Counter

import cocotb
from cocotb.triggers import Event, Timer

from cocotbext.pcie.core.dllp import Dllp, DllpType, FcType
from cocotbext.pcie.core.tlp import Tlp, TlpType

FC_CLASSES = ("P", "NP", "CPL")
HDR_FIELDS = ("fmt", "type", "tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status",
    "bcm", "byte_count", "requester_id", "tag", "first_be", "last_be", "lower_address", "address", "ph")

ACKS = {DllpType.ACK, DllpType.NAK}
INITS = {DllpType.INIT_FC1_P, DllpType.INIT_FC1_NP, DllpType.INIT_FC1_CPL,
    DllpType.INIT_FC2_P, DllpType.INIT_FC2_NP, DllpType.INIT_FC2_CPL}
INITS2 = {DllpType.INIT_FC2_P, DllpType.INIT_FC2_NP, DllpType.INIT_FC2_CPL}
UPDATES = {DllpType.UPDATE_FC_P, DllpType.UPDATE_FC_NP, DllpType.UPDATE_FC_CPL}

_POSTED = {(2, 0), (3, 0)}
_CPL = {(0, 0b01010), (2, 0b01010), (0, 0b01011), (2, 0b01011)}


def fc_class(fmt, typ):
    """Flow-control class from the wire encoding (own derivation from the standard)."""
    if typ & 0b11000 == 0b10000:
        return 0
    if (fmt & 3, typ) in _POSTED and fmt < 4:
        return 0
    if (fmt, typ) in _CPL:
        return 2
    return 1


class Rec:
    """Snapshot of one TLP."""
    __slots__ = HDR_FIELDS + ("data", "seq", "t", "uid", "obj")

    def __init__(self, tlp, t=0):
        for f in HDR_FIELDS:
            setattr(self, f, getattr(tlp, f))
        self.data = bytes(tlp.data)
        self.seq = tlp.seq
        self.t = t

    def key(self):
        return tuple(int(getattr(self, f)) if f not in ("completer_id", "requester_id") else tuple(getattr(self, f))
            for f in HDR_FIELDS) + (self.data,)

    @property
    def cls(self):
        return fc_class(self.fmt, self.type)

    @property
    def dc(self):
        return (len(self.data) + 15) // 16

    @property
    def ft(self):
        return (int(self.fmt), int(self.type))

    def is_cpl(self):
        return self.ft in _CPL

    def __str__(self):
        n = TlpType(self.ft).name if self.ft in {t.value for t in TlpType} else str(self.ft)
        s = f"{n} req={self.requester_id!s} tag={self.tag} len={self.length}"
        if self.is_cpl():
            s += f" cpl={self.completer_id!s} st={int(self.status)} bc={self.byte_count} la={self.lower_address:#x}"
        else:
            s += f" addr={self.address:#x} be={self.first_be:x}/{self.last_be:x} cid={self.completer_id!s}"
        if self.data:
            s += f" data[{len(self.data)}]={self.data[:8].hex()}"
        return s


def dllp_name(d):
    return DllpType(d.type).name


class Direction:
    def __init__(self, tap, idx, tx, rx):
        self.tap = tap
        self.idx = idx
        self.tx = tx
        self.rx = rx
        self.orig = rx.ext_recv
        self.n_tlp = 0
        self.n_dllp = 0
        self.n_kind = Counter()
        self.queue = []
        self.wake = Event()
        self.running = False
        self.hold_until = 0
        self.last_due = 0
        self.announced = set()  # credit types whose initial value was let through
        self.recent = []        # TLPs already delivered, for replay
        self.faults = []
        self.jitter = None
        self.phase = 0
        rx.ext_recv = self.ext_recv

    def __repr__(self):
        return f"{self.tap.name}.{'ab'[self.idx]}"

    def fire(self, kinds, n, subs=()):
        """Faults due for packet n; one with "what" counts packets of that sort only, one with "len" lasts that many."""
        out = []
        for f in self.faults:
            if f.get("done") or f["kind"] not in kinds or f.get("ph", 0) != self.phase:
                continue
            if f.get("what"):
                if f["what"] not in subs:
                    continue
                i = subs[f["what"]]
            else:
                i = n
            if f["n"] <= i < f["n"] + f.get("len", 1):
                out.append(f)
                if i == f["n"] + f.get("len", 1) - 1:
                    f["done"] = True
        for f in out:
            self.tap.fired[f["kind"] + (":" + f["what"] if f.get("what") else "")] += 1
        return out

    async def ext_recv(self, pkt):
        tap = self.tap
        k = tap.k
        now = k.time
        copies = [pkt]
        replay = []
        if isinstance(pkt, Dllp):
            n = self.n_dllp
            self.n_dllp += 1
            nm = "ack" if pkt.type in ACKS else "init" if pkt.type in INITS else "update" if pkt.type in UPDATES else "other"
            subs = {}
            # "init2": InitFC2 packets once every credit type has been announced (earlier ones may be needed to learn a value)
            for w in (nm,) + (("init2",) if pkt.type in INITS2 and len(self.announced) == 3 else ()):
                subs[w] = self.n_kind[w]
                self.n_kind[w] += 1
            k.note(f"{self!r} {pkt.type} {pkt.seq} {pkt.hdr_fc} {pkt.data_fc}")
            for o in tap.observers:
                o.on_tx_dllp(self, pkt, now)
            for f in self.fire(("dllp_drop", "dllp_dup", "stall"), n, subs):
                if f["kind"] == "dllp_drop":
                    copies = []
                elif f["kind"] == "dllp_dup":
                    copies = copies + [Dllp(pkt)]
                else:
                    self.hold_until = max(self.hold_until, now + tap.steps(f["ns"]))
        else:
            n = self.n_tlp
            self.n_tlp += 1
            rec = Rec(pkt, now)
            k.note(f"{self!r} TLP#{rec.seq} {rec}")
            for o in tap.observers:
                o.on_tx_tlp(self, pkt, rec, now)
            for f in self.fire(("tlp_stall", "tlp_replay"), n):
                if f["kind"] == "tlp_stall":
                    self.hold_until = max(self.hold_until, now + tap.steps(f["ns"]))
                else:
                    replay = [(p, True) for p in (self.recent + [pkt])[-f["k"]:]]
            if tap.keep_recent:
                self.recent.append(pkt)
                del self.recent[:-tap.keep_recent]
        if isinstance(pkt, Dllp) and pkt.type in INITS and copies:
            self.announced.add(int(pkt.type) & 0x30)
        todo = [(p, i > 0) for i, p in enumerate(copies)] + replay
        due = now
        if self.jitter:
            due = now + self.jitter[1].randrange(self.jitter[0] + 1)
        due = max(due, self.hold_until, self.last_due)
        if due > now or self.queue or self.running:
            self.last_due = due
            self.queue.extend((due, p, r) for p, r in todo)
            if not self.running and self.queue:
                self.running = True
                cocotb.start_soon(self._run())
        else:
            for p, r in todo:
                await self._deliver(p, r)

    async def _run(self):
        k = self.tap.k
        while self.queue:
            due, p, r = self.queue[0]
            if due > k.time:
                await Timer(due - k.time, "step")
            del self.queue[0]
            await self._deliver(p, r)
        self.running = False

    async def _deliver(self, pkt, repeated):
        now = self.tap.k.time
        if isinstance(pkt, Dllp):
            for o in self.tap.observers:
                o.on_rx_dllp(self, pkt, now)
        else:
            for o in self.tap.observers:
                o.on_rx_tlp(self, pkt, repeated, now)
        await self.orig(pkt)


class Observer:
    def on_tx_dllp(self, d, dllp, now): pass
    def on_tx_tlp(self, d, tlp, rec, now): pass
    def on_rx_dllp(self, d, dllp, now): pass
    def on_rx_tlp(self, d, tlp, repeated, now): pass


class LinkTap:
    """Tap on one link; direction 0 carries a->b, direction 1 carries b->a."""

    def __init__(self, k, name, a, b, faults=(), jitter=None, keep_recent=0, fired=None):
        self.k = k
        self.name = name
        self.a = a
        self.b = b
        self.fired = Counter() if fired is None else fired
        self.observers = []
        self.keep_recent = keep_recent
        self.dirs = (Direction(self, 0, a, b), Direction(self, 1, b, a))
        for f in faults:
            f = dict(f)
            f.pop("done", None)
            self.dirs[f["dir"]].faults.append(f)
            if f["kind"] == "tlp_replay":
                self.keep_recent = max(self.keep_recent, f["k"])
        if jitter:
            for i, d in enumerate(self.dirs):
                if jitter.get("ns"):
                    d.jitter = (max(self.steps(jitter["ns"]), 0), random.Random(f"jit:{jitter['seed']}:{name}:{i}"))

    def next_phase(self):
        """Faults marked with the next phase number count packets from here."""
        for d in self.dirs:
            d.phase += 1
            d.n_tlp = d.n_dllp = 0
            d.n_kind.clear()

    def steps(self, ns):
        return int(ns * 10.0 ** (-9 - self.k.precision))
