"""Stream interface pairs: real source, wires, real sink, and a wire decoder written from the bus definitions.
P22 Xilinx UltraScale/UltraScale+ (RQ, RC, CQ, CC), P23 Intel H-Tile and P-Tile (RX, TX)."""
import copy
import random
from collections import deque

from dsim import kernel
import cocotb
from cocotb.queue import QueueFull, QueueEmpty
from cocotb.triggers import Event, FallingEdge, RisingEdge, Timer

from dsim.outcome import Outcome
from cocotbext.axi import AxiStreamBus
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, TlpAt, CplStatus
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.xilinx.us import interface as usif
from cocotbext.pcie.xilinx.us.tlp import Tlp_us, ErrorCode
from cocotbext.pcie.intel.s10 import interface as s10if
from cocotbext.pcie.intel.ptile import interface as ptif

# ------------------------------------------------------------------------------------------------
# UltraScale bus layouts: (least significant bit, width of each element)
US = {
    ("rq", 512): dict(first=(0, 4), last=(8, 4), sop=20, sptr=22, eop=26, eptr=28, disc=36, seq=(61, 6), par=73, w=137),
    ("rc", 512): dict(be=0, sop=64, sptr=68, eop=76, eptr=80, disc=96, par=97, w=161),
    ("cq", 512): dict(first=(0, 4), last=(8, 4), be=16, sop=80, sptr=82, eop=86, eptr=88, disc=96, par=119, w=183),
    ("cc", 512): dict(sop=0, sptr=2, eop=6, eptr=8, disc=16, par=17, w=81),
    ("rq", 0): dict(first=(0, 0), last=(4, 0), disc=11, par=28),
    ("rc", 0): dict(be=0, disc=42, par=43, w=75),
    ("cq", 0): dict(first=(0, 0), last=(4, 0), be=8, disc=41, par=53),
    ("cc", 0): dict(disc=0, par=1, w=33),
}
NP_TYPES = [TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_READ_LOCKED, TlpType.MEM_READ_LOCKED_64, TlpType.IO_READ]
W_TYPES = [TlpType.MEM_WRITE, TlpType.MEM_WRITE_64, TlpType.IO_WRITE]
A_TYPES = [TlpType.FETCH_ADD, TlpType.FETCH_ADD_64, TlpType.SWAP, TlpType.SWAP_64, TlpType.CAS, TlpType.CAS_64]
C_TYPES = [TlpType.CFG_READ_0, TlpType.CFG_READ_1, TlpType.CFG_WRITE_0, TlpType.CFG_WRITE_1]
REQ_CODE = {TlpType.MEM_READ: 0, TlpType.MEM_READ_64: 0, TlpType.MEM_WRITE: 1, TlpType.MEM_WRITE_64: 1, TlpType.IO_READ: 2,
    TlpType.IO_WRITE: 3, TlpType.FETCH_ADD: 4, TlpType.FETCH_ADD_64: 4, TlpType.SWAP: 5, TlpType.SWAP_64: 5, TlpType.CAS: 6,
    TlpType.CAS_64: 6, TlpType.MEM_READ_LOCKED: 7, TlpType.MEM_READ_LOCKED_64: 7, TlpType.CFG_READ_0: 8, TlpType.CFG_READ_1: 9,
    TlpType.CFG_WRITE_0: 10, TlpType.CFG_WRITE_1: 11}


def par4(d):
    """Odd parity of each byte of a dword."""
    return sum(((bin((d >> 8 * i) & 0xff).count("1") + 1) & 1) << i for i in range(4))


def rid(rng):
    return PcieId(rng.randrange(256), rng.randrange(32), rng.randrange(8))


def gen_req(rng, cls, kind, ndw):
    """A random request TLP of the class, and the descriptor its interface must carry."""
    t = cls()
    types = NP_TYPES + W_TYPES * 2 + A_TYPES + (C_TYPES if kind == "rq" else [])
    t.fmt_type = rng.choice(types)
    ft = t.fmt_type
    t.requester_id = rid(rng)
    t.completer_id = PcieId(0, 0, rng.randrange(8)) if kind == "cq" else rid(rng)
    t.tag = rng.randrange(256)
    t.tc = TlpTc(rng.randrange(8))
    t.attr = TlpAttr(rng.randrange(8))
    n = ndw
    if ft in (TlpType.IO_READ, TlpType.IO_WRITE) + tuple(C_TYPES):
        n = 1
    elif ft in A_TYPES:
        n = rng.choice([1, 2]) if ft not in (TlpType.CAS, TlpType.CAS_64) else rng.choice([2, 4])
    t.length = n
    if ft in C_TYPES:
        t.address = rng.randrange(1024) * 4
    else:
        four = ft.name.endswith("_64")
        t.address = (rng.getrandbits(62) << 2 | 1 << 32) if four else rng.getrandbits(30) << 2
        t.at = TlpAt(rng.randrange(3)) if ft not in (TlpType.IO_READ, TlpType.IO_WRITE) else TlpAt(0)
    t.first_be = rng.randrange(16) if n == 1 else rng.choice([15, 14, 12, 8])
    t.last_be = 0 if n == 1 else rng.choice([15, 7, 3, 1])
    if ft.name.startswith(("MEM_WRITE", "IO_WRITE", "CFG_WRITE", "FETCH", "SWAP", "CAS")):
        t.set_data(rng.randbytes(4 * n))
        t.length = n
    t.discontinue = rng.random() < 0.05
    d0 = (t.address & 0xffc) if ft in C_TYPES else (t.address & 0xfffffffc) | int(t.at)
    d1 = 0 if ft in C_TYPES else t.address >> 32
    d2 = n | REQ_CODE[ft] << 11 | int(t.requester_id) << 16
    d3 = t.tag | int(t.tc) << 25 | int(t.attr) << 28
    if kind == "rq":
        t.ep = rng.random() < 0.1
        t.requester_id_enable = rng.random() < 0.5
        t.seq_num = rng.randrange(64)
        d2 |= int(t.ep) << 15
        d3 |= int(t.completer_id) << 8 | int(t.requester_id_enable) << 24
    else:
        t.bar_id = rng.randrange(8)
        t.bar_aperture = rng.randrange(64)
        d3 |= t.completer_id.function << 8 | t.bar_id << 16 | t.bar_aperture << 19
    data = [d0, d1, d2, d3] + list(words(t.data))
    return t, data


def words(data):
    return [int.from_bytes(data[i:i+4], "little") for i in range(0, len(data), 4)]


def gen_cpl(rng, cls, kind, ndw):
    t = cls()
    withdata = rng.random() < 0.8
    locked = rng.random() < 0.1
    t.fmt_type = {(1, 0): TlpType.CPL_DATA, (0, 0): TlpType.CPL, (1, 1): TlpType.CPL_LOCKED_DATA, (0, 1): TlpType.CPL_LOCKED}[int(withdata), int(locked)]
    t.requester_id = rid(rng)
    t.completer_id = rid(rng)
    t.tag = rng.randrange(256)
    t.tc = TlpTc(rng.randrange(8))
    t.attr = TlpAttr(rng.randrange(8))
    t.status = rng.choice([CplStatus.SC] * 3 + [CplStatus.UR, CplStatus.CRS, CplStatus.CA])
    t.ep = rng.random() < 0.1
    t.discontinue = rng.random() < 0.05
    t.lower_address = rng.randrange(4096 if kind == "rc" else 128)
    t.length = 0
    t.byte_count = rng.choice([4, 1, rng.randrange(1, 4097)])
    if withdata:
        t.set_data(rng.randbytes(4 * ndw))
        t.length = ndw
        span = 4 * ndw - (t.lower_address & 3)
        t.byte_count = min(4096, span - rng.randrange(min(4, span)) if rng.random() < 0.5 else span + rng.randrange(1, 4097))
    d0 = t.lower_address | t.byte_count << 16 | int(locked) << 29
    d1 = t.length | int(t.status) << 11 | int(t.ep) << 14 | int(t.requester_id) << 16
    d2 = t.tag | int(t.completer_id) << 8 | int(t.tc) << 25 | int(t.attr) << 28
    if kind == "cc":
        t.at = TlpAt(rng.randrange(3))
        t.completer_id_enable = rng.random() < 0.5
        d0 |= int(t.at) << 8
        d2 |= int(t.completer_id_enable) << 24
    else:
        t.error_code = rng.choice(list(ErrorCode))
        t.request_completed = rng.random() < 0.5
        d0 |= int(t.error_code) << 12 | int(t.request_completed) << 30
    return t, [d0, d1, d2] + words(t.data)


def tlp_fields(kind, t):
    f = dict(fmt_type=t.fmt_type, length=t.length, requester_id=t.requester_id, tag=t.tag, tc=int(t.tc), attr=int(t.attr),
        discontinue=bool(t.discontinue), data=bytes(t.data))
    if kind in ("rq", "cq"):
        f.update(address=t.address, first_be=t.first_be, last_be=t.last_be, at=int(t.at))
        if kind == "rq":
            f.update(ep=bool(t.ep), completer_id=t.completer_id, requester_id_enable=bool(t.requester_id_enable), seq_num=t.seq_num)
        else:
            f.update(function=t.completer_id.function, bar_id=t.bar_id, bar_aperture=t.bar_aperture)
    else:
        f.update(lower_address=t.lower_address, byte_count=t.byte_count, status=int(t.status), ep=bool(t.ep), completer_id=t.completer_id)
        if kind == "cc":
            f.update(at=int(t.at), completer_id_enable=bool(t.completer_id_enable))
        else:
            f.update(error_code=int(t.error_code), request_completed=bool(t.request_completed))
    return f


class Bits:
    def __init__(self, v):
        self.v = int(v)

    def get(self, lo, n):
        return self.v >> lo & ((1 << n) - 1)


# ------------------------------------------------------------------------------------------------

class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.cfg = plan["cfg"]
        self.out = Outcome()
        self.stats = self.out.stats
        self.prop = "P22" if self.cfg["kind"] in ("rq", "rc", "cq", "cc") else "P23"
        self.sent = []            # [frame fields, tlp fields or None]
        self.wire = 0             # frames decoded from the wires
        self.got = 0
        self.cur = None           # frame being decoded
        self.cycle = 0

    def bad(self, kind, msg):
        self.out.violation(self.prop, kind, f"{self.cfg['kind']} {self.cfg['width']} bit, {self.cfg['segs']} segments, cycle {self.cycle}: {msg}")

    # -- construction
    def build(self):
        cfg = self.cfg
        self.dut = d = kernel.Dut(self.k)
        self.clk = d.add("clk")
        self.rst = d.add("rst", 1, 1)
        w, segs, kind = cfg["width"], cfg["segs"], cfg["kind"]
        self.us = kind in ("rq", "rc", "cq", "cc")
        if self.us:
            self.lay = dict(US[kind, 512 if w == 512 else 0])
            uw = self.lay.get("w") or cfg["tuser"]
            for n, x in (("tdata", w), ("tkeep", w // 32), ("tlast", 1), ("tvalid", 1), ("tready", 1), ("tuser", uw)):
                d.add("s_" + n, x)
            name = kind.capitalize()
            self.src = getattr(usif, name + "Source")(AxiStreamBus.from_prefix(d, "s"), self.clk, self.rst, segments=segs)
            self.snk = getattr(usif, name + "Sink")(AxiStreamBus.from_prefix(d, "s"), self.clk, self.rst, segments=segs)
        else:
            lanes = w // 32 // segs
            sig = dict(data=w, sop=segs, eop=segs, valid=segs, ready=1)
            ew = (lanes - 1).bit_length() * segs
            s10 = kind.startswith("s10")
            if kind in ("s10rx", "ptrx"):
                sig.update(empty=ew, bar_range=3 * segs)
                if cfg["vf"]:
                    sig.update(vf_active=segs, func_num=(2 if s10 else 3) * segs, vf_num=11 * segs)
            else:
                sig.update(err=segs)
                if s10 and cfg["vf"]:
                    sig.update(vf_active=segs)
            if not s10:
                sig.update(hdr=128 * segs, tlp_prfx=32 * segs)
                if kind == "ptrx":
                    sig.update(tlp_abort=segs)
                if cfg["par"]:
                    sig.update(data_par=w // 8, hdr_par=16 * segs, tlp_prfx_par=4 * segs)
            elif cfg["par"]:
                sig.update(parity=w // 8)
            self.sig = sig
            for n, x in sig.items():
                d.add("s_" + n, x)
            m = s10if if s10 else ptif
            bus = getattr(m, ("S10" if s10 else "PTile") + ("Rx" if kind.endswith("rx") else "Tx") + "Bus")
            base = "S10Pcie" if s10 else "PTilePcie"
            self.src = getattr(m, base + "Source")(bus.from_prefix(d, "s"), self.clk, self.rst, ready_latency=cfg["rl"])
            self.snk = getattr(m, base + "Sink")(bus.from_prefix(d, "s"), self.clk, self.rst, ready_latency=cfg["rl"])
            self.Frame = getattr(m, base + "Frame")
        for o, lim in ((self.src, cfg["lim"][0]), (self.snk, cfg["lim"][1])):
            if lim and lim[0] == "f":
                o.queue_occupancy_limit_frames = lim[1]
            elif lim:
                o.queue_occupancy_limit_bytes = lim[1]

    def val(self, n):
        return int(getattr(self.dut, "s_" + n).value)

    # -- stimulus
    def make(self, op):
        cfg, kind = self.cfg, self.cfg["kind"]
        rng = random.Random(f"frame:{cfg['seed']}:{op['seed']}")
        ndw = op["n"]
        if self.us:
            if op.get("raw"):
                f = usif.UsPcieFrame()
                f.data = [rng.getrandbits(32) for _ in range(max(ndw, 3 if kind in ("rc", "cc") else 4))]
                f.parity = [rng.randrange(16) for _ in f.data]
                if kind in ("rc", "cq"):
                    f.byte_en = [rng.randrange(16) for _ in f.data]
                if kind in ("rq", "cq"):
                    f.first_be, f.last_be = rng.randrange(16), rng.randrange(16)
                f.discontinue = rng.random() < 0.05
                if kind == "rq":
                    f.seq_num = rng.randrange(16 if cfg["tuser"] == 60 and cfg["width"] < 512 else 64)
                return f, None, None
            t, data = (gen_req if kind in ("rq", "cq") else gen_cpl)(rng, Tlp_us, kind, ndw)
            if kind == "rq" and cfg["tuser"] == 60 and cfg["width"] < 512:
                t.seq_num &= 15
            want = tlp_fields(kind, t)
            f = getattr(t, "pack_us_" + kind)()
            if f.data != data:
                i = next((i for i, (a, b) in enumerate(zip(f.data, data)) if a != b), min(len(data), len(f.data)))
                self.bad("descriptor", f"{t!r}: dword {i} is {f.data[i:i+1]}, expected {data[i:i+1]} of {len(data)}")
            if f.parity != [par4(x) for x in data]:
                self.bad("parity", f"wrong parity for {t!r}")
            return f, t, want
        t = Tlp()
        types = [TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_WRITE, TlpType.MEM_WRITE_64, TlpType.CPL, TlpType.CPL_DATA, TlpType.IO_READ, TlpType.IO_WRITE]
        t.fmt_type = rng.choice(types)
        t.requester_id, t.completer_id, t.tag = rid(rng), rid(rng), rng.randrange(256)
        t.tc, t.attr = TlpTc(rng.randrange(8)), TlpAttr(rng.randrange(4))
        n = 1 if t.fmt_type in (TlpType.IO_READ, TlpType.IO_WRITE) else ndw
        t.length = n
        t.address = (rng.getrandbits(62) << 2 | 1 << 32) if t.fmt_type.name.endswith("_64") else rng.getrandbits(30) << 2
        t.first_be, t.last_be = (15, 0) if n == 1 else (rng.choice([15, 12, 8]), rng.choice([15, 1]))
        if t.fmt_type in (TlpType.CPL, TlpType.CPL_DATA):
            t.first_be = t.last_be = 0
            t.address = 0
            t.completer_id = rid(rng)
            t.byte_count = rng.randrange(1, 4097)
            t.lower_address = rng.randrange(128)
            if t.fmt_type == TlpType.CPL:
                t.length = 0
        if t.fmt_type in (TlpType.MEM_WRITE, TlpType.MEM_WRITE_64, TlpType.IO_WRITE, TlpType.CPL_DATA):
            t.set_data(rng.randbytes(4 * n))
            t.length = n
        want = dict(fmt_type=t.fmt_type, length=t.length, tag=t.tag, tc=int(t.tc), attr=int(t.attr), data=bytes(t.data),
            requester_id=t.requester_id, header=bytes(t.pack_header()))
        f = self.Frame.from_tlp(t)
        hdr = bytes(t.pack_header())
        if kind.startswith("s10"):
            exp = [int.from_bytes(hdr[i:i+4], "big") for i in range(0, len(hdr), 4)] + words(t.data)
            if f.data != exp:
                self.bad("descriptor", f"frame of {t!r} does not hold its header and data")
        elif f.hdr != int.from_bytes(hdr.ljust(16, b"\0"), "big") or f.data != words(t.data):
            self.bad("descriptor", f"frame of {t!r} does not hold its header and data")
        if op.get("raw"):
            f.parity = [rng.randrange(16) for _ in f.data]
            if kind.startswith("pt"):
                f.hdr_par, f.tlp_prfx_par = rng.getrandbits(16), rng.randrange(16)
        if kind.startswith("pt") and rng.random() < 0.5:
            f.tlp_prfx = rng.getrandbits(32)
            if not op.get("raw"):
                f.update_parity()
        if kind.endswith("rx"):
            f.bar_range = rng.randrange(8)
            if cfg["vf"]:
                f.func_num = rng.randrange(4 if kind == "s10rx" else 8)
                if rng.random() < 0.5:
                    f.vf_num = rng.randrange(2048)
            if kind == "ptrx":
                f.tlp_abort = int(rng.random() < 0.2)
        else:
            f.err = int(rng.random() < 0.2)
        return f, t, want

    def fields(self, f):
        """What of a frame its bus can carry."""
        kind = self.cfg["kind"]
        d = dict(data=list(f.data))
        if self.us:
            d["parity"] = list(f.parity)
            d["discontinue"] = bool(f.discontinue)
            if kind in ("rc", "cq"):
                d["byte_en"] = list(f.byte_en)
            if kind in ("rq", "cq"):
                d.update(first_be=f.first_be, last_be=f.last_be)
            if kind == "rq":
                d["seq_num"] = f.seq_num
            return d
        if self.cfg["par"]:
            d["parity"] = list(f.parity)
        if kind.startswith("pt"):
            d.update(hdr=f.hdr, tlp_prfx=f.tlp_prfx)
            if self.cfg["par"]:
                d.update(hdr_par=f.hdr_par, tlp_prfx_par=f.tlp_prfx_par)
        if kind.endswith("rx"):
            d["bar_range"] = f.bar_range
            if self.cfg["vf"]:
                d.update(func_num=f.func_num, vf_num=f.vf_num)
            if kind == "ptrx":
                d["tlp_abort"] = f.tlp_abort
        else:
            d["err"] = f.err
        return d

    async def produce(self):
        for op in self.plan["ops"]:
            if op["k"] == "reset":
                await self.drained(op)
                for _ in range(op["pre"]):
                    await RisingEdge(self.clk)
                await FallingEdge(self.clk)
                self.rst.value = 1
                for _ in range(op["n"]):
                    await RisingEdge(self.clk)
                await FallingEdge(self.clk)
                self.rst.value = 0
                self.stats["resets"] += 1
                for _ in range(op["post"]):
                    await RisingEdge(self.clk)
                continue
            f, t, want = self.make(op)
            rec = [self.fields(f), want]
            self.sent.append(rec)
            if op.get("nb"):
                while True:
                    try:
                        self.src.send_nowait(f)
                        break
                    except QueueFull:
                        self.stats["queue_full"] += 1
                        await RisingEdge(self.clk)
            else:
                await self.src.send(f)
            self.stats["frames"] += 1
            self.stats["dwords"] += len(f.data)
            # the source must have taken a copy
            if f.data:
                f.data[-1] ^= 0xffffffff
            for _ in range(op["gap"]):
                await RisingEdge(self.clk)
            if op["gap"] == 0 and op.get("off"):
                await Timer(op["off"], "step")
        self.done_sending = True

    async def drained(self, op=None):
        n = 0
        last = -1
        while self.got < len(self.sent) or self.wire < len(self.sent):
            await RisingEdge(self.clk)
            n += 1
            if self.got + self.wire != last:
                last = self.got + self.wire
                n = 0
            if n > self.budget():
                self.bad("stuck", f"{self.wire} of {len(self.sent)} frames on the wires and {self.got} received {n} cycles without progress; "
                    f"valid {self.val('tvalid' if self.us else 'valid')}, ready {self.val('tready' if self.us else 'ready')}")
                self.halt.set()
                await Event().wait()

    def budget(self):
        left = sum(len(x[0]["data"]) + 8 for x in self.sent[min(self.got, self.wire):])
        return 3000 + left * 40

    async def consume(self):
        rng = random.Random(f"consume:{self.cfg['seed']}")
        mode = self.cfg["consume"]
        while True:
            if mode["how"] == "nowait":
                try:
                    f = self.snk.recv_nowait()
                except QueueEmpty:
                    await RisingEdge(self.clk)
                    continue
            elif mode["how"] == "wait":
                await self.snk.wait()
                while self.snk.empty():
                    await RisingEdge(self.clk)
                f = self.snk.recv_nowait()
            else:
                f = await self.snk.recv()
            self.received(f)
            if rng.random() < mode["p"]:
                for _ in range(rng.randrange(1, mode["n"] + 1)):
                    await RisingEdge(self.clk)

    def received(self, f):
        if self.got >= len(self.sent):
            self.bad("extra", f"frame {self.got} received, only {len(self.sent)} sent: {f!r}"[:300])
            return
        want, tw = self.sent[self.got]
        self.compare("received", self.got, want, self.fields(f))
        if tw is not None:
            kind = self.cfg["kind"]
            if self.us:
                t = getattr(Tlp_us, "unpack_us_" + kind)(f, self.cfg["par"])
                have = tlp_fields(kind, t)
                if self.cfg["segs"] > 1:
                    have["discontinue"] = tw["discontinue"]
                for k in tw:
                    if have[k] != tw[k]:
                        self.bad("tlp", f"frame {self.got}: {k} arrives as {str(have[k])[:80]}, sent as {str(tw[k])[:80]}")
            else:
                t = f.to_tlp()
                have = dict(fmt_type=t.fmt_type, length=t.length, tag=t.tag, tc=int(t.tc), attr=int(t.attr), data=bytes(t.data),
                    requester_id=t.requester_id, header=bytes(t.pack_header()))
                for k in tw:
                    if have[k] != tw[k]:
                        self.bad("tlp", f"frame {self.got}: {k} arrives as {str(have[k])[:80]}, sent as {str(tw[k])[:80]}")
        self.got += 1

    def compare(self, where, i, want, have):
        for k, v in want.items():
            h = have.get(k)
            if h != v:
                if k == "discontinue" and self.us and self.cfg["segs"] > 1 and h and not v:
                    # one flag per beat: neighbours in the beat share it
                    near = [self.sent[j][0]["discontinue"] for j in range(max(0, i - 4), min(len(self.sent), i + 5))]
                    if any(near):
                        continue
                if isinstance(v, list):
                    j = next((j for j, (a, b) in enumerate(zip(v, h)) if a != b), min(len(v), len(h)))
                    v, h = f"{v[j:j+1]} at {j} of {len(v)}", f"{h[j:j+1]} at {j} of {len(h)}"
                self.bad("frame", f"frame {i} {where} with {k} {h}, sent with {v}")
                return

    # -- wires
    async def monitor(self):
        us = self.us
        vn, rn = ("tvalid", "tready") if us else ("valid", "ready")
        pay = ["tdata", "tkeep", "tlast", "tuser"] if us else [n for n in self.sig if n not in ("valid", "ready")]
        prev = None
        rl = self.cfg.get("rl", 0)
        hist = deque([0] * (rl + 1), maxlen=rl + 1)
        while True:
            await RisingEdge(self.clk)
            self.cycle += 1
            v, r = self.val(vn), self.val(rn)
            hist.append(r)
            if int(self.rst.value):
                prev = None
                continue
            ok = hist[0]         # ready, `rl` cycles ago
            if us or rl == 0:
                cur = (v, [self.val(n) for n in pay]) if v else None
                if prev is not None and prev != cur:
                    self.bad("handshake", "data changed or was withdrawn before it was accepted")
                prev = cur if v and not r else None
                take = v and r
            else:
                if v and not ok:
                    self.bad("handshake", f"valid outside a permitted cycle (ready latency {rl})")
                take = v and ok
            if v:
                self.stats["beats" if take else "stalls"] += 1
            if take:
                if us:
                    self.beat_us()
                else:
                    self.beat_intel()

    def wire_frame(self, have):
        if self.wire >= len(self.sent):
            self.bad("extra", f"frame {self.wire} on the wires, only {len(self.sent)} sent")
            return
        self.compare("on the wires", self.wire, self.sent[self.wire][0], have)
        self.wire += 1

    def beat_us(self):
        kind, w, segs = self.cfg["kind"], self.cfg["width"], self.cfg["segs"]
        lanes = w // 32
        lay = self.lay
        data, keep, last, u = self.val("tdata"), self.val("tkeep"), self.val("tlast"), Bits(self.val("tuser"))
        starts, ends = [], []
        if segs == 1:
            if keep == 0 or keep & (keep + 1):
                self.bad("framing", f"tkeep {keep:#x} is not contiguous")
            n = keep.bit_length()
            if not last and n != lanes:
                self.bad("framing", f"tkeep {keep:#x} without tlast")
            if self.cur is None:
                starts = [0]
            if last:
                ends = [n - 1]
        elif w == 512:
            ns = bin(u.get(lay["sop"], segs)).count("1")
            ne = bin(u.get(lay["eop"], segs)).count("1")
            if u.get(lay["sop"], segs) != (1 << ns) - 1 or u.get(lay["eop"], segs) != (1 << ne) - 1:
                self.bad("framing", "start or end flags are not packed from the lowest")
            starts = [u.get(lay["sptr"] + 2 * i, 2) * 4 for i in range(ns)]
            ends = [u.get(lay["eptr"] + 4 * i, 4) for i in range(ne)]
        else:       # 256 bit RC straddle
            if u.get(32, 1):
                starts.append(4 if self.cur is not None else 0)
            if u.get(33, 1):
                starts.append(4)
            ends = [u.get(35 + 4 * i, 3) for i in range(2) if u.get(34 + 4 * i, 1)]
        if w == 512 and segs == 1:
            if u.get(lay["sop"], 2) != (1 if starts else 0) or u.get(lay["eop"], 2) != (1 if ends else 0) or \
                    (ends and u.get(lay["eptr"], 4) != ends[0]) or (starts and u.get(lay["sptr"], 2) != 0):
                self.bad("framing", "start or end flags disagree with tkeep and tlast")
        if len(starts) > 1:
            self.stats["straddled"] += 1
        if w < 512 and kind == "cq" and u.get(40, 1) != (1 if starts else 0):
            self.bad("framing", "sop flag wrong")
        i = 0
        for lane in range(lanes):
            if lane in starts:
                if self.cur is not None:
                    self.bad("framing", f"a packet starts at lane {lane} inside another")
                self.cur = dict(data=[], parity=[], byte_en=[], discontinue=False)
                n = starts.index(lane)
                if "first" in lay:
                    n2 = n if kind != "cq" else lane * segs // lanes
                    self.cur["first_be"] = u.get(lay["first"][0] + n2 * lay["first"][1], 4)
                    self.cur["last_be"] = u.get(lay["last"][0] + n2 * lay["last"][1], 4)
                if kind == "rq":
                    if w == 512:
                        self.cur["seq_num"] = u.get(61 + 6 * n, 6)
                    else:
                        self.cur["seq_num"] = u.get(24, 4) | (u.get(60, 2) << 4 if self.cfg["tuser"] == 62 else 0)
            if self.cur is None:
                continue
            if u.get(lay["disc"], 1):
                self.cur["discontinue"] = True
            self.cur["data"].append(data >> 32 * lane & 0xffffffff)
            self.cur["parity"].append(u.get(lay["par"] + 4 * lane, 4))
            if "be" in lay:
                self.cur["byte_en"].append(u.get(lay["be"] + 4 * lane, 4))
            if lane in ends:
                self.wire_frame(self.cur)
                self.cur = None

    def beat_intel(self):
        kind, w, segs = self.cfg["kind"], self.cfg["width"], self.cfg["segs"]
        lanes = w // 32 // segs
        b = {n: Bits(self.val(n)) for n in self.sig}
        v = b["valid"].v
        if v & (v + 1):
            self.bad("framing", f"segments {v:#b} valid")
        for s in range(segs):
            if not b["valid"].get(s, 1):
                continue
            sop, eop = b["sop"].get(s, 1), b["eop"].get(s, 1)
            if sop:
                if self.cur is not None:
                    self.bad("framing", "sop inside a packet")
                self.cur = c = dict(data=[], parity=[])
                if kind.startswith("pt"):
                    c["hdr"] = b["hdr"].get(128 * s, 128)
                    c["tlp_prfx"] = b["tlp_prfx"].get(32 * s, 32)
                    if self.cfg["par"]:
                        c["hdr_par"] = b["hdr_par"].get(16 * s, 16)
                        c["tlp_prfx_par"] = b["tlp_prfx_par"].get(4 * s, 4)
                    h0 = c["hdr"] >> 96
                    self.left = ((h0 & 0x3ff) or 1024) if h0 >> 30 & 1 else 0
                else:
                    h0 = b["data"].get(s * lanes * 32, 32)
                    self.left = (4 if h0 >> 29 & 1 else 3) + (((h0 & 0x3ff) or 1024) if h0 >> 30 & 1 else 0)
                if kind.endswith("rx"):
                    c["bar_range"] = b["bar_range"].get(3 * s, 3)
                    if self.cfg["vf"]:
                        fw = 2 if kind == "s10rx" else 3
                        c["func_num"] = b["func_num"].get(fw * s, fw)
                        c["vf_num"] = b["vf_num"].get(11 * s, 11) if b["vf_active"].get(s, 1) else None
                    if kind == "ptrx":
                        c["tlp_abort"] = b["tlp_abort"].get(s, 1)
                else:
                    c["err"] = b["err"].get(s, 1)
                if s:
                    self.stats["straddled"] += 1
            c = self.cur
            if c is None:
                self.bad("framing", "data outside a packet")
                return
            n = min(lanes, self.left)
            for i in range(n):
                c["data"].append(b["data"].get((s * lanes + i) * 32, 32))
                pn = "parity" if kind.startswith("s10") else "data_par"
                if self.cfg["par"]:
                    c["parity"].append(b[pn].get((s * lanes + i) * 4, 4))
            self.left -= n
            if eop:
                if self.left:
                    self.bad("framing", f"packet ends {self.left} dwords early")
                if "empty" in b and n:
                    ew = (lanes - 1).bit_length()
                    if b["empty"].get(s * ew, ew) != lanes - n:
                        self.bad("framing", f"empty is {b['empty'].get(s * ew, ew)} with {n} of {lanes} dwords used")
                self.wire_frame(c)
                self.cur = None

    # -- disturbances
    async def clock(self):
        cfg = self.cfg
        rng = random.Random(f"clock:{cfg['seed']}")
        j = cfg["clkj"]
        while True:
            self.clk.setimmediatevalue(1)
            await Timer(4 + (rng.randrange(j + 1) if j else 0), "step")
            self.clk.setimmediatevalue(0)
            await Timer(4 + (rng.randrange(j + 1) if j else 0), "step")

    def pattern(self, spec):
        rng = random.Random(f"pat:{spec['seed']}")
        n = 0
        while n < spec["cycles"]:
            on = rng.random() < spec["p"]
            for _ in range(rng.randrange(1, spec["run"] + 1)):
                n += 1
                self.out.faults["pause_pattern"] += on
                yield on
        yield False

    async def pauses(self, side, o):
        base = 0
        for f in sorted((f for f in self.plan["faults"] if f["side"] == side), key=lambda f: f["at"]):
            while self.cycle < f["at"]:
                await RisingEdge(self.clk)
            if f.get("off"):
                await Timer(f["off"], "step")
            if f["k"] == "pause":
                o.pause = True
                self.out.faults["pause_" + side] += 1
                for _ in range(f["n"]):
                    await RisingEdge(self.clk)
                if f.get("off2"):
                    await Timer(f["off2"], "step")
                o.pause = False
            elif f["k"] == "blip":       # pause given and taken back between two clock edges
                o.pause = True
                await Timer(1, "step")
                o.pause = False
                self.out.faults["blip_" + side] += 1

    async def main(self, k):
        self.k = k
        cfg = self.cfg
        self.halt = Event()
        self.done_sending = False
        self.build()
        cocotb.start_soon(self.clock())
        cocotb.start_soon(self.monitor())
        for _ in range(cfg["rst"]):
            await RisingEdge(self.clk)
        await FallingEdge(self.clk)
        self.rst.value = 0
        for side, o in (("src", self.src), ("snk", self.snk)):
            if cfg.get("pat_" + side):
                o.set_pause_generator(self.pattern(cfg["pat_" + side]))
            cocotb.start_soon(self.pauses(side, o))
        c = cocotb.start_soon(self.consume())
        p = cocotb.start_soon(self.produce())
        while not p.done() and not self.out.violations:
            await RisingEdge(self.clk)
        if self.out.violations:
            return
        p.result()
        last = -1
        idle = 0
        while self.got < len(self.sent) or self.wire < len(self.sent):
            await RisingEdge(self.clk)
            idle += 1
            if self.got + self.wire != last:
                last = self.got + self.wire
                idle = 0
            if c.done():
                c.result()
            if idle > self.budget() or self.out.violations:
                if not self.out.violations:
                    self.bad("stuck", f"{self.wire} of {len(self.sent)} frames on the wires and {self.got} received; "
                        f"valid {self.val('tvalid' if self.us else 'valid')}, ready {self.val('tready' if self.us else 'ready')}, "
                        f"pause {self.src.pause} {self.snk.pause}")
                return
        for _ in range(cfg.get("rl", 0) + 60):
            await RisingEdge(self.clk)
        if self.cur is not None:
            self.bad("framing", "a packet was left unfinished")
        self.k.note(f"{self.got} frames")

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=-9, max_time_ns=1e9, max_events=6_000_000, rng_seed=self.cfg["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


def run(plan):
    return Engine(plan).run()


def gen(prop, rng, tier, index):
    cfg = {"seed": rng.getrandbits(32), "clkj": rng.choice([0, 0, 1, 3]), "rst": rng.choice([1, 2, 10, 40])}
    if prop == "P22":
        kind = rng.choice(["rq", "rc", "cq", "cc"])
        w = rng.choice([64, 128, 256, 512, 512])
        segs = 1
        if w == 512:
            segs = rng.choice([1, 2, 4] if kind == "rc" else [1, 2])
        elif w == 256 and kind == "rc":
            segs = rng.choice([1, 2])
        cfg.update(kind=kind, width=w, segs=segs, par=rng.random() < 0.5, tuser={"rq": rng.choice([60, 62]), "cq": rng.choice([85, 88])}.get(kind, 0))
    else:
        kind = rng.choice(["s10rx", "s10tx", "ptrx", "pttx"])
        w, segs = rng.choice([(256, 1), (512, 2)] if kind.startswith("s10") else [(128, 1), (256, 1), (512, 2)])
        cfg.update(kind=kind, width=w, segs=segs, par=rng.random() < 0.6, vf=int(rng.random() < 0.6),
            rl=rng.choice([0, 0, 1, 2, 3, 3, 5, 9, 17, 18, 27]))
    cfg["lim"] = [rng.choice([None, None, ["f", rng.choice([1, 2, 5])], ["b", rng.choice([4, 20, 100])]]) for _ in range(2)]
    cfg["consume"] = {"how": rng.choice(["recv", "recv", "nowait", "wait"]), "p": rng.choice([0, 0.1, 0.5, 1]), "n": rng.choice([1, 5, 40])}
    heavy = rng.random()
    for side in ("src", "snk"):
        if rng.random() < 0.5:
            cfg["pat_" + side] = {"seed": rng.getrandbits(32), "p": rng.choice([0.1, 0.5, 0.9]), "run": rng.choice([1, 2, 8, 30]),
                "cycles": rng.choice([50, 500, 2000])}
    ops = []
    nres = rng.choice([0, 0, 0, 1, 2])
    n = rng.choice([3, 10, 40, 100])
    sizes = rng.choice([[1], [1, 2, 3], [1, 2, 4, 8, 16, 32], [1, 3, 4, 5, 7, 11, 12, 13, 15, 16, 17], [1, 64, 256], [4, 5, 8, 9, 12, 13, 28, 29]])
    gaps = rng.choice([[0], [0, 0, 0, 1], [0, 1, 2, 3], [0, 0, 5, 40]])
    raw = rng.choice([0, 0.2, 1]) if prop == "P22" else rng.choice([0, 0.3])
    for i in range(n):
        ops.append({"k": "f", "seed": rng.getrandbits(32), "n": rng.choice(sizes), "gap": rng.choice(gaps), "nb": int(rng.random() < 0.3),
            "raw": int(rng.random() < raw), "off": rng.choice([0, 0, 1, 3, 5])})
        if rng.random() < 0.01:
            ops[-1]["n"] = rng.choice([255, 512, 1024])
    for _ in range(nres):
        ops.insert(rng.randrange(1, len(ops) + 1), {"k": "reset", "n": rng.choice([1, 2, 5, 20]), "pre": rng.choice([0, 1, 3, 20]), "post": rng.choice([0, 1, 10])})
    faults = []
    at = 0
    for _ in range(rng.choice([0, 0, 1, 3, 8])):
        at += rng.choice([1, 2, 5, 20, 100])
        f = {"side": rng.choice(["src", "snk"]), "k": rng.choice(["pause", "pause", "pause", "blip"]), "at": at, "n": rng.choice([1, 2, 3, 10, 100, 400])}
        if rng.random() < 0.5:
            f["off"], f["off2"] = rng.randrange(1, 8), rng.randrange(0, 8)
        faults.append(f)
    return {"engine": "streams", "prop": prop, "cfg": cfg, "ops": ops, "faults": faults,
        "sched": {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}}


def simplify(plan):
    for k in ("pat_src", "pat_snk"):
        if plan["cfg"].get(k):
            p = copy.deepcopy(plan)
            p["cfg"].pop(k)
            yield p
    for k, v in (("clkj", 0), ("lim", [None, None]), ("consume", {"how": "recv", "p": 0, "n": 1})):
        if plan["cfg"][k] != v:
            p = copy.deepcopy(plan)
            p["cfg"][k] = v
            yield p
    for i, op in enumerate(plan["ops"]):
        if op["n"] > 1:
            p = copy.deepcopy(plan)
            p["ops"][i]["n"] = 1
            yield p
