"""Vendor device models with their wires, and user logic for them (a memory behind the BARs, a DMA engine,
monitors of the tag, sequence-number and credit signals)."""
import random
from collections import deque

from . import gpi, kernel
import cocotb
from cocotb.handle import SimHandle
from cocotb.queue import Queue
from cocotb.triggers import Event, FallingEdge, ReadOnly, RisingEdge, Timer
from cocotbext.axi import AxiStreamBus

from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.xilinx.us import UltraScalePcieDevice, UltraScalePlusPcieDevice
from cocotbext.pcie.xilinx.us.interface import RqSource, RcSink, CqSink, CcSource
from cocotbext.pcie.xilinx.us.tlp import Tlp_us, ErrorCode
from cocotbext.pcie.intel.s10 import S10PcieDevice
from cocotbext.pcie.intel.s10.interface import S10RxBus, S10TxBus, S10PcieFrame, S10PcieSource, S10PcieSink
from cocotbext.pcie.intel.ptile import PTilePcieDevice
from cocotbext.pcie.intel.ptile.interface import PTileRxBus, PTileTxBus, PTilePcieFrame, PTilePcieSource, PTilePcieSink

CONFIGS = {
    "us": [(1, 1, 64, 62.5), (1, 1, 64, 125), (1, 4, 64, 250), (1, 8, 128, 125), (2, 2, 64, 125), (2, 4, 64, 250), (2, 4, 128, 125), (2, 8, 128, 250),
        (2, 8, 256, 125), (3, 1, 64, 125), (3, 2, 64, 250), (3, 2, 128, 125), (3, 4, 128, 250), (3, 4, 256, 125), (3, 8, 256, 250)],
    "usp": [(1, 1, 64, 62.5), (1, 4, 64, 125), (1, 8, 128, 125), (1, 16, 128, 250), (2, 4, 128, 125), (2, 8, 256, 125), (2, 16, 256, 250), (3, 1, 64, 125),
        (3, 4, 128, 250), (3, 4, 256, 125), (3, 8, 256, 250), (3, 16, 512, 250), (3, 16, 512, 250), (4, 1, 64, 250), (4, 2, 128, 250), (4, 2, 256, 125),
        (4, 4, 256, 250), (4, 8, 512, 250), (4, 8, 512, 250)],
    "s10": [(1, 1, 256, 125), (1, 8, 256, 125), (2, 4, 256, 125), (2, 16, 256, 250), (3, 1, 256, 125), (3, 4, 256, 125), (3, 8, 256, 250), (3, 16, 512, 250), (3, 16, 512, 250)],
    "ptile": [(3, 4, 128, 250), (3, 8, 256, 250), (3, 16, 256, 250), (3, 16, 512, 250), (4, 4, 128, 350), (4, 4, 128, 500), (4, 8, 256, 175), (4, 8, 256, 250),
        (4, 8, 256, 400), (4, 8, 512, 200), (4, 8, 512, 250), (4, 16, 512, 250), (4, 16, 512, 450)],
}
NP_TYPES = {TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.IO_READ, TlpType.IO_WRITE}
CPLS = {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}


class ClkSignal(gpi.Signal):
    """A clock wire that the simulator can stop."""
    stopped = False

    def _set(self, v):
        if not self.stopped:
            super()._set(v)


class BadStatus(Exception):
    def __init__(self, tlp):
        super().__init__(f"completion with status {CplStatus(tlp.status).name}")
        self.tlp = tlp


def pauses(rng, duty, burst):
    """Endless pattern of paused (True) and running cycles."""
    while True:
        on = rng.random() < duty
        for _ in range(rng.randrange(1, burst + 1)):
            yield on


class HwBase:
    """One device model instance, its wires and its user logic."""

    def __init__(self, k, name, spec, seed):
        self.k = k
        self.name = name
        self.spec = spec
        self.seed = seed
        self.ps = 10.0 ** (-9 - k.precision)
        self.gen, self.width, self.dw, self.mhz = spec["conf"]
        self.d = kernel.Dut(k, name)
        self.nf = spec["pf"]
        self.fns = []                    # harness Fn objects, filled by System
        self.on_req = None               # fn(dict) for each request presented to the user logic
        self.on_bad = lambda kind, msg: None
        self.on_rc = None                # fn(completion) -> True if it is not for the DMA engine
        self.stat = {}
        self.active = {}                 # tag -> _Op
        self.tag_wait = deque()
        self.free_tags = None
        self.outstanding = 0
        self.space = Event()
        self.early = {}
        self.build()
        self.clk = self.d.clk
        for j, s in enumerate(self.streams()):
            p = spec.get("pause", {}).get(str(j))
            if p:
                s.set_pause_generator(pauses(random.Random(f"pause:{seed}:{j}"), *p))
        cocotb.start_soon(self.recv_loop())

    def sig(self, **kw):
        out = {}
        for n, (w, init) in kw.items():
            out[n] = self.d.add(n, w, init)
        return out

    def clock(self, name):
        h = SimHandle(ClkSignal(self.k, name, 1, 0), name)
        self.d.clk = h
        self.clk_sig = h._handle
        return h

    def stop_clock(self, on=True):
        self.clk_sig.stopped = on

    async def cycles(self, n):
        for _ in range(n):
            await RisingEdge(self.d.clk)

    def fn_of(self, num):
        return next((f for f in self.fns if f.num == num), None)

    # -- requester side
    def tag_limit(self):
        return 256 if self.dev.functions[0].pcie_cap.extended_tag_field_enable else 32

    async def get_room(self, cost):
        while self.outstanding + cost > self.room and self.outstanding > 0:
            self.space.clear()
            await self.space.wait()
        self.outstanding += cost

    def put_room(self, cost):
        self.outstanding -= cost
        self.space.set()

    async def get_tag(self, rng):
        while True:
            lim = min(self.tag_limit(), self.spec.get("tags") or 256)
            free = [t for t in range(lim) if t not in self.active]
            if free:
                return rng.choice(free)
            self.space.clear()
            await self.space.wait()

    def new_req(self, fn, ft, kw):
        t = self.Tlp()
        t.fmt_type = ft
        t.requester_id = self.req_id(fn)
        t.tc = kw.get("tc", TlpTc(0))
        t.attr = kw.get("attr", TlpAttr(0))
        return t

    async def write(self, fn, addr, data, rng, io=False, **kw):
        n = 0
        mps = 128 << fn.ep.pcie_cap.max_payload_size
        while True:
            pad = (addr + n) & 3
            if io:
                m = min(len(data) - n, 4 - pad)
            else:
                m = min(len(data) - n, mps - pad, 0x1000 - ((addr + n) & 0xfff))
                if rng.random() < 0.2:
                    m = rng.randrange(1, m + 1) if m else 0
            a = addr + n
            ft = TlpType.IO_WRITE if io else TlpType.MEM_WRITE_64 if a > 0xffffffff else TlpType.MEM_WRITE
            t = self.new_req(fn, ft, kw)
            t.set_addr_be_data(a, data[n:n+m] if m else b"\0")
            if not m:
                t.first_be = 0
            if io:
                op = await self.np_op(t, rng, 1, kw)
                if op.err:
                    raise op.err
            else:
                await self.send_req(t, kw)
            n += m
            if n >= len(data):
                break

    async def read(self, fn, addr, length, rng, io=False, par=True, **kw):
        """Returns the bytes; raises BadStatus."""
        mrrs = 128 << fn.ep.pcie_cap.max_read_request_size
        n = 0
        parts = []
        while True:
            pad = (addr + n) & 3
            if io:
                m = min(length - n, 4 - pad)
            else:
                m = min(length - n, mrrs - pad, 0x1000 - ((addr + n) & 0xfff))
                m = min(m, max(64, (self.room - 2) * 64 - 64))
                if rng.random() < 0.2:
                    m = rng.randrange(1, m + 1) if m else 0
            a = addr + n
            ft = TlpType.IO_READ if io else TlpType.MEM_READ_64 if a > 0xffffffff else TlpType.MEM_READ
            t = self.new_req(fn, ft, kw)
            t.set_addr_be(a, m or 1)
            if not m:
                t.first_be = 0
            job = cocotb.start_soon(self.np_op(t, rng, m // 64 + 3, kw))
            parts.append((m, a, job))
            n += m
            if n >= length:
                break
            if not par or rng.random() < 0.3:
                await job.join()
        out = bytearray()
        err = None
        for m, a, job in parts:
            op = await job.join()
            err = err or op.err
            d = bytes(op.data)
            out += d[:m]
        if err:
            raise err
        return bytes(out)

    async def np_op(self, t, rng, cost, kw):
        """Send one non-posted request and collect its completions."""
        await self.get_room(cost)
        op = _Op(t)
        op.held = False
        if self.auto_tag:
            op.seqn = len(self.np_log)
            self.tag_wait.append(op)
            self.np_log.append(op)
            self.send_req_nowait(t, kw)
        else:
            tag = await self.get_tag(rng)
            t.tag = tag
            self.active[tag] = op
            op.seqn = len(self.np_log)
            self.np_log.append(op)
            self.send_req_nowait(t, kw)
        await op.done.wait()
        self.put_room(cost)
        return op

    def tag_reported(self, tag):
        if not self.tag_wait:
            self.on_bad("tag_extra", f"tag {tag} reported although no request waits for one")
            return
        op = self.tag_wait.popleft()
        if tag >= self.tag_limit():
            self.on_bad("tag_range", f"tag {tag} reported, {self.tag_limit()} allowed")
        if tag in self.active:
            self.on_bad("tag_reuse", f"tag {tag} reported while the request that has it is outstanding")
        op.tlp.tag = tag
        self.active[tag] = op
        for c in self.early.pop(tag, []):
            self.cpl_in(c)

    def cpl_in(self, c):
        """A completion reached the user logic."""
        op = self.active.get(c.tag)
        if op is None:
            if self.auto_tag and self.tag_wait:
                self.early.setdefault(c.tag, []).append(c)
                return
            self.on_bad("unexpected_cpl", f"completion for tag {c.tag}, which is not outstanding")
            return
        t = op.tlp
        if c.requester_id != self.full_req_id(t):
            self.on_bad("cpl_id", f"completion carries requester {c.requester_id}, request was from {self.full_req_id(t)}")
        if c.tc != t.tc or c.attr != t.attr:
            self.on_bad("cpl_attr", f"completion carries tc {c.tc!r} attr {c.attr!r}, request had {t.tc!r} {t.attr!r}")
        last = True
        how = getattr(c, "_how", None)       # altered on the link by the simulator
        if how:
            op.err = BadStatus(c)
        if c.status != CplStatus.SC:
            op.err = BadStatus(c)
        elif t.fmt_type in (TlpType.MEM_READ, TlpType.MEM_READ_64) and how != "nodata":
            want = t.get_be_byte_count()
            addr = t.address + t.get_first_be_offset() + op.got
            mask = self.la_mask
            if c.byte_count != want - op.got:
                self.on_bad("cpl_count", f"completion of read of {want} bytes has byte count {c.byte_count} after {op.got} bytes")
            if c.lower_address != addr & mask and how != "addr":
                self.on_bad("cpl_addr", f"completion has lower address {c.lower_address:#x}, data starts at {addr:#x}")
            d = bytes(c.get_data())
            off = addr & 3
            take = min(len(d) - off, c.byte_count)
            op.data += d[off:off+take]
            op.got += take
            last = op.got >= want
        elif t.fmt_type == TlpType.IO_READ:
            op.data += bytes(c.get_data())[t.get_first_be_offset():]
        self.cpl_done(c, last)
        if last:
            del self.active[c.tag]
            self.space.set()
            op.done.set()

    def cpl_done(self, c, last):
        pass

    # -- completer side
    async def serve(self, r):
        """Perform one request on the memory behind the BAR and complete it."""
        t = r["tlp"]
        fn, bar = r["fn"], r["bar"]
        rng = r["rng"]
        ft = t.fmt_type
        if ft in (TlpType.MEM_WRITE, TlpType.MEM_WRITE_64):
            return
        if self.spec.get("think"):
            n = int(rng.random() * self.spec["think"] * self.ps)
            if n > 0:
                await Timer(n, "step")
        st = r.get("status", CplStatus.SC)
        if st != CplStatus.SC:
            c = self.Tlp.create_completion_for_tlp(t, self.cpl_id(fn), status=st)
            await self.send_cpl(c)
        elif ft == TlpType.IO_WRITE:
            await self.send_cpl(self.Tlp.create_completion_for_tlp(t, self.cpl_id(fn)))
        elif ft == TlpType.IO_READ:
            off = t.address - bar.addr
            c = self.Tlp.create_completion_data_for_tlp(t, self.cpl_id(fn))
            c.set_data(bytes(bar.mem[off:off+4]))
            c.byte_count = 4
            c.length = 1
            await self.send_cpl(c)
        else:
            mps = 128 << fn.ep.pcie_cap.max_payload_size
            off = t.address - bar.addr
            data = bytes(bar.mem[off:off+4*t.length])
            addr = t.address + t.get_first_be_offset()
            left = t.get_be_byte_count()
            pos = 0
            dwl = t.length
            while dwl:
                c = self.Tlp.create_completion_data_for_tlp(t, self.cpl_id(fn))
                c.byte_count = left
                c.lower_address = addr & 0x7f
                m = dwl
                lim = mps // 4
                # completions end on a read completion boundary or at the end of the request
                cut = []
                b = 64 - (addr & 0x3c)
                while b // 4 < dwl and b // 4 <= lim:
                    cut.append(b // 4)
                    b += 64
                if dwl > lim:
                    m = cut[-1]
                if cut and rng.random() < 0.3:
                    m = rng.choice(cut)
                c.set_data(data[4*pos:4*(pos+m)])
                c.length = m
                took = min(4 * m - (addr & 3), left)
                await self.send_cpl(c)
                pos += m
                dwl -= m
                left -= took
                addr += took


class _Op:
    def __init__(self, t):
        self.tlp = t
        self.data = bytearray()
        self.got = 0
        self.err = None
        self.done = Event()


class XilinxHw(HwBase):
    Tlp = Tlp_us
    la_mask = 0xfff
    kind = "us"

    def build(self):
        spec = self.spec
        plus = self.plus = spec["model"] == "usp"
        w = self.dw
        d = self.d
        clk = self.clock("user_clk")
        big = w == 512
        tuser = {"s_axis_rq": 137 if big else (62 if plus else 60), "m_axis_rc": 161 if big else 75, "m_axis_cq": 183 if big else (88 if plus else 85), "s_axis_cc": 81 if big else 33}
        for p, uw in tuser.items():
            for n, x in (("tdata", w), ("tkeep", w // 32), ("tlast", 1), ("tvalid", 1), ("tready", 1), ("tuser", uw)):
                d.add(f"{p}_{n}", x)
        st = spec.get("straddle") or [0, 0, 0, 0]     # cq, cc, rq, rc segments
        omit = set(spec.get("omit", ()))
        self.args = a = dict(user_clk=clk)
        a.update(self.sig(user_reset=(1, 0), user_lnk_up=(1, 0), sys_clk=(1, 0), sys_clk_gt=(1, 0), sys_reset=(1, 0)))
        if plus:
            a.update(self.sig(phy_rdy_out=(1, 0), pcie_rq_seq_num0=(6, 0), pcie_rq_seq_num_vld0=(1, 0), pcie_rq_seq_num1=(6, 0), pcie_rq_seq_num_vld1=(1, 0),
                pcie_rq_tag0=(8, 0), pcie_rq_tag1=(8, 0), pcie_rq_tag_av=(4, 0), pcie_rq_tag_vld0=(1, 0), pcie_rq_tag_vld1=(1, 0),
                pcie_tfc_nph_av=(4, 0), pcie_tfc_npd_av=(4, 0), cfg_bus_number=(8, 0), cfg_local_error_out=(5, 0), cfg_local_error_valid=(1, 0)))
        else:
            a.update(self.sig(pcie_rq_seq_num=(4, 0), pcie_rq_seq_num_vld=(1, 0), pcie_rq_tag=(6, 0), pcie_rq_tag_av=(2, 0), pcie_rq_tag_vld=(1, 0),
                pcie_tfc_nph_av=(2, 0), pcie_tfc_npd_av=(2, 0), cfg_local_error=(1, 0)))
        if "np" not in omit:
            a.update(self.sig(pcie_cq_np_req=(2 if plus else 1, 0)))
        a.update(self.sig(pcie_cq_np_req_count=(6, 0)))
        if "mgmt" not in omit:
            a.update(self.sig(cfg_mgmt_addr=(10 if plus else 19, 0), cfg_mgmt_write=(1, 0), cfg_mgmt_write_data=(32, 0), cfg_mgmt_byte_enable=(4, 0),
                cfg_mgmt_read=(1, 0), cfg_mgmt_read_data=(32, 0), cfg_mgmt_read_write_done=(1, 0)))
            a.update(self.sig(cfg_mgmt_function_number=(8, 0)) if plus else self.sig(cfg_mgmt_type1_cfg_reg_access=(1, 0)))
        nw = (3, 2, 3) if plus else (4, 3, 3)
        a.update(self.sig(cfg_phy_link_down=(1, 0), cfg_phy_link_status=(2, 0), cfg_negotiated_width=(nw[0], 0), cfg_current_speed=(nw[1], 0),
            cfg_max_payload=(2 if plus else 3, 0), cfg_max_read_req=(3, 0), cfg_function_status=(16, 0), cfg_rcb_status=(4, 0)))
        a.update(self.sig(cfg_fc_ph=(8, 0), cfg_fc_pd=(12, 0), cfg_fc_nph=(8, 0), cfg_fc_npd=(12, 0), cfg_fc_cplh=(8, 0), cfg_fc_cpld=(12, 0), cfg_fc_sel=(3, 0)))
        if "cse" not in omit:
            a.update(self.sig(cfg_config_space_enable=(1, 1)))
        if "int" not in omit:
            a.update(self.sig(cfg_interrupt_msi_enable=(4, 0), cfg_interrupt_msi_mmenable=(12, 0), cfg_interrupt_msi_mask_update=(1, 0), cfg_interrupt_msi_data=(32, 0),
                cfg_interrupt_msi_select=(2 if plus else 4, 0), cfg_interrupt_msi_int=(32, 0), cfg_interrupt_msi_pending_status=(32, 0),
                cfg_interrupt_msi_pending_status_data_enable=(1, 0), cfg_interrupt_msi_pending_status_function_num=(2 if plus else 4, 0),
                cfg_interrupt_msi_sent=(1, 0), cfg_interrupt_msi_fail=(1, 0), cfg_interrupt_msix_enable=(4 if plus else 2, 0), cfg_interrupt_msix_mask=(4 if plus else 2, 0),
                cfg_interrupt_msix_address=(64, 0), cfg_interrupt_msix_data=(32, 0), cfg_interrupt_msix_int=(1, 0), cfg_interrupt_msix_vec_pending=(2, 0),
                cfg_interrupt_msix_vec_pending_status=(1, 0), cfg_interrupt_msix_sent=(1, 0), cfg_interrupt_msix_fail=(1, 0), cfg_interrupt_msi_attr=(3, 0),
                cfg_interrupt_msi_tph_present=(1, 0), cfg_interrupt_msi_tph_type=(2, 0), cfg_interrupt_msi_tph_st_tag=(8 if plus else 9, 0),
                cfg_interrupt_msi_function_number=(8 if plus else 4, 0)))
        if plus:
            a.update(cq_straddle=bool(st[0]), cc_straddle=bool(st[1]), rq_straddle=bool(st[2]), rc_straddle=bool(st[3]), rc_4tlp_straddle=st[3] == 4)
        else:
            a.update(rc_straddle=bool(st[3]))
        for i, m in enumerate(spec["irq"]):
            if m.get("msi"):
                a[f"pf{i}_msi_enable"] = True
                a[f"pf{i}_msi_count"] = m["msi"]
            else:
                a[f"pf{i}_msi_enable"] = False
            if m.get("msix"):
                a.update({f"pf{i}_msix_enable": True, f"pf{i}_msix_table_size": m["msix"]["size"] - 1, f"pf{i}_msix_table_bir": m["msix"]["bar"],
                    f"pf{i}_msix_table_offset": m["msix"]["off"], f"pf{i}_msix_pba_bir": m["msix"]["bar"], f"pf{i}_msix_pba_offset": m["msix"]["pba"]})
        cls = UltraScalePlusPcieDevice if plus else UltraScalePcieDevice
        B = AxiStreamBus.from_prefix
        self.auto_tag = not spec.get("client_tag", 1)
        self.dev = cls(pcie_generation=self.gen, pcie_link_width=self.width, user_clk_frequency=self.mhz * 1e6, alignment="dword", pf_count=self.nf,
            max_payload_size=128 << spec.get("mpss", 0), enable_client_tag=not self.auto_tag, enable_extended_tag=bool(spec.get("ext")),
            rq_bus=B(d, "s_axis_rq"), rc_bus=B(d, "m_axis_rc"), cq_bus=B(d, "m_axis_cq"), cc_bus=B(d, "s_axis_cc"), **a)
        rst = d.user_reset
        self.rq = RqSource(B(d, "s_axis_rq"), clk, rst, segments=2 if st[2] else 1)
        self.rc = RcSink(B(d, "m_axis_rc"), clk, rst, segments=max(st[3], 1))
        self.cq = CqSink(B(d, "m_axis_cq"), clk, rst, segments=2 if st[0] else 1)
        self.cc = CcSource(B(d, "s_axis_cc"), clk, rst, segments=2 if st[1] else 1)
        self.room = spec.get("room") or (200 if plus else 56)
        self.np_log = []
        self.seq = 0
        self.seq_hist = ([], [])         # posted, non-posted sequence numbers in order
        self.seq_states = {(0, 0)}
        self.seq_seen = 0
        self.grants = 0
        self.np_seen = 0
        self.np_c = 0
        self.np_rng = random.Random(f"np:{self.seed}")
        cocotb.start_soon(self.mon())
        cocotb.start_soon(self.cq_loop())

    def streams(self):
        return [self.dev.rq_sink, self.dev.rc_source, self.dev.cq_source, self.dev.cc_sink, self.rq, self.rc, self.cq, self.cc]

    def tag_limit(self):
        return min(super().tag_limit(), 256 if self.plus else 64)

    def req_id(self, fn):
        return PcieId(0, 0, fn.num)

    def full_req_id(self, t):
        return self.fn_of(t.requester_id.function).ep.pcie_id

    cpl_id = req_id

    def _frame(self, t, kw):
        t.seq_num = self.seq % (64 if self.plus else 16)
        if kw.get("discontinue"):
            t.discontinue = True
        else:
            self.seq += 1
            self.seq_hist[t.fmt_type in NP_TYPES].append(t.seq_num)
        return t.pack_us_rq()

    def send_req_nowait(self, t, kw):
        self.rq.send_nowait(self._frame(t, kw))

    async def send_req(self, t, kw):
        f = self._frame(t, kw)
        if kw.get("wait"):
            await self.rq.send(f)
        else:
            self.rq.send_nowait(f)

    async def send_cpl(self, c):
        await self.cc.send(c.pack_us_cc())

    async def recv_loop(self):
        while True:
            f = await self.rc.recv()
            c = Tlp_us.unpack_us_rc(f)
            if self.on_rc is not None:
                if self.on_rc(c):
                    continue
            elif c.error_code != (ErrorCode.NORMAL_TERMINATION if c.status == CplStatus.SC else ErrorCode.BAD_STATUS):
                self.on_bad("error_code", f"completion {c!r} reported with error code {c.error_code}")
            self.cpl_in(c)

    def cpl_done(self, c, last):
        if bool(c.request_completed) != last:
            self.on_bad("completed_flag", f"completion {c!r}: request completed flag is {bool(c.request_completed)}, should be {last}")

    async def cq_loop(self):
        while True:
            f = await self.cq.recv()
            t = Tlp_us.unpack_us_cq(f)
            if t.fmt_type in NP_TYPES:
                self.np_seen += 1
                self.np_c -= 1
                if "pcie_cq_np_req" in self.args and (self.np_seen > self.grants or self.np_c < -8):
                    self.on_bad("np_credit", f"{self.np_seen} non-posted requests presented, {self.grants} credits granted (bucket {self.np_c})")
            self.on_req(dict(tlp=t, bar_id=t.bar_id, aperture=t.bar_aperture, func=t.completer_id.function))

    async def mon(self):
        """Samples the sideband signals on each clock edge and drives the non-posted credit."""
        d = self.d
        lanes = [(d.pcie_rq_seq_num0, d.pcie_rq_seq_num_vld0, d.pcie_rq_tag0, d.pcie_rq_tag_vld0), (d.pcie_rq_seq_num1, d.pcie_rq_seq_num_vld1, d.pcie_rq_tag1, d.pcie_rq_tag_vld1)] \
            if self.plus else [(d.pcie_rq_seq_num, d.pcie_rq_seq_num_vld, d.pcie_rq_tag, d.pcie_rq_tag_vld)]
        edge = RisingEdge(self.clk_handle())
        np_on = "pcie_cq_np_req" in self.args
        npm = self.spec.get("np", {"p": 1.0})
        drive = 0
        while True:
            await edge
            if np_on:
                # the value driven before this edge is the one the core samples on it
                g = drive if not self.plus or drive < 2 else 2
                if g:
                    self.grants += g
                    self.np_c = min(32, self.np_c + g)
            for sn, sv, tn, tv in lanes:
                if int(sv.value):
                    self.seq_pulse(int(sn.value))
                if int(tv.value):
                    if not self.auto_tag:
                        self.on_bad("tag_extra", "tag reported although the client assigns tags")
                    self.tag_reported(int(tn.value))
            if np_on:
                want = int(self.np_rng.random() < npm["p"])
                if self.grants - self.np_seen >= npm.get("ahead", 1 << 30):
                    want = 0
                if want and self.plus and npm.get("two") and self.np_rng.random() < 0.3:
                    want = 2
                if want != drive:
                    drive = want
                    d.pcie_cq_np_req.value = want

    def clk_handle(self):
        return self.d.clk

    def seq_pulse(self, v):
        self.seq_seen += 1
        p, n = self.seq_hist
        out = set()
        for i, j in self.seq_states:
            if i < len(p) and p[i] == v:
                out.add((i + 1, j))
            if j < len(n) and n[j] == v:
                out.add((i, j + 1))
        if not out:
            self.on_bad("seq_num", f"sequence number {v} returned as number {self.seq_seen}; waiting: posted "
                f"{[p[i:i+4] for i, j in self.seq_states][:2]}, non-posted {[n[j:j+4] for i, j in self.seq_states][:2]}")
            out = self.seq_states
        self.seq_states = out

    def seq_missing(self):
        p, n = self.seq_hist
        return len(p) + len(n) - self.seq_seen


class IntelHw(HwBase):
    Tlp = Tlp
    la_mask = 0x7f
    auto_tag = False
    kind = "intel"

    def build(self):
        spec = self.spec
        s10 = self.s10 = spec["model"] == "s10"
        w = self.dw
        d = self.d
        clk = self.clock("coreclkout_hip")
        segs = 2 if w == 512 else 1
        ew = (w // 32 // segs - 1).bit_length() * segs
        rx = dict(data=w, sop=segs, eop=segs, valid=segs, ready=1, empty=ew, bar_range=3 * segs)
        tx = dict(data=w, sop=segs, eop=segs, valid=segs, ready=1, err=segs)
        if "vf" not in spec.get("omit", ()):
            rx.update(vf_active=segs, func_num=(2 if s10 else 3) * segs, vf_num=11 * segs)
            tx.update(vf_active=segs)
        if not s10:
            rx.update(hdr=128 * segs, tlp_prfx=32 * segs, tlp_abort=segs)
            tx.update(hdr=128 * segs, tlp_prfx=32 * segs)
            tx.pop("vf_active", None)
            if "par" not in spec.get("omit", ()):
                for b in (rx, tx):
                    b.update(data_par=w // 8, hdr_par=16 * segs, tlp_prfx_par=4 * segs)
        elif "par" not in spec.get("omit", ()):
            rx.update(parity=w // 8)
            tx.update(parity=w // 8)
        for p, b in (("rx_st", rx), ("tx_st", tx)):
            for n, x in b.items():
                d.add(f"{p}_{n}", x)
        self.has_vf = "vf_active" in rx
        self.args = a = dict(coreclkout_hip=clk)
        if s10:
            self.l_tile = bool(spec.get("l_tile"))
            a.update(self.sig(npor=(1, 1), pin_perst=(1, 0), ninit_done=(1, 0), pld_clk_inuse=(1, 0), pld_core_ready=(1, 1), reset_status=(1, 0), clr_st=(1, 0), refclk=(1, 0),
                tx_ph_cdts=(8, 0), tx_pd_cdts=(12, 0), tx_nph_cdts=(8, 0), tx_npd_cdts=(12, 0), tx_cplh_cdts=(8, 0), tx_cpld_cdts=(12, 0),
                app_msi_req=(1, 0), app_msi_ack=(1, 0), app_msi_tc=(3, 0), app_msi_num=(5, 0), app_msi_func_num=(2, 0),
                tl_cfg_func=(2, 0), tl_cfg_add=(5, 0), tl_cfg_ctl=(32, 0)))
            a["l_tile"] = self.l_tile
            self.perst = d.pin_perst
        else:
            self.l_tile = False
            a.update(self.sig(reset_status=(1, 0), reset_status_n=(1, 0), refclk0=(1, 0), refclk1=(1, 0), pin_perst_n=(1, 0), tx_cdts_limit=(16, 0), tx_cdts_limit_tdm_idx=(3, 0),
                tl_cfg_func=(3, 0), tl_cfg_add=(5, 0), tl_cfg_ctl=(16, 0)))
            self.perst = d.pin_perst_n
        for i, m in enumerate(spec["irq"]):
            a[f"pf{i}_msi_enable"] = bool(m.get("msi"))
            if m.get("msi"):
                a[f"pf{i}_msi_count"] = m["msi"]
            if m.get("msix"):
                a.update({f"pf{i}_msix_enable": True, f"pf{i}_msix_table_size": m["msix"]["size"] - 1, f"pf{i}_msix_table_bir": m["msix"]["bar"],
                    f"pf{i}_msix_table_offset": m["msix"]["off"], f"pf{i}_msix_pba_bir": m["msix"]["bar"], f"pf{i}_msix_pba_offset": m["msix"]["pba"]})
        Rx, Tx = (S10RxBus, S10TxBus) if s10 else (PTileRxBus, PTileTxBus)
        self.Frame = S10PcieFrame if s10 else PTilePcieFrame
        cls = S10PcieDevice if s10 else PTilePcieDevice
        self.dev = cls(pcie_generation=self.gen, pcie_link_width=self.width, pld_clk_frequency=self.mhz * 1e6, pf_count=self.nf,
            max_payload_size=128 << spec.get("mpss", 0), enable_extended_tag=bool(spec.get("ext")),
            rx_bus=Rx.from_prefix(d, "rx_st"), tx_bus=Tx.from_prefix(d, "tx_st"), **a)
        S, K = (S10PcieSource, S10PcieSink) if s10 else (PTilePcieSource, PTilePcieSink)
        self.tx = S(Tx.from_prefix(d, "tx_st"), clk)
        self.tx.ready_latency = 3
        self.rx = K(Rx.from_prefix(d, "rx_st"), clk)
        self.rx.ready_latency = (18 if w == 512 else 17) if s10 else 27
        self.room = spec.get("room") or 300
        self.np_log = []

    def streams(self):
        return [self.dev.rx_source, self.dev.tx_sink, self.tx, self.rx]

    def req_id(self, fn):
        return fn.ep.pcie_id

    cpl_id = req_id

    def full_req_id(self, t):
        return t.requester_id

    def send_req_nowait(self, t, kw):
        self.tx.send_nowait(self.Frame.from_tlp(t))

    async def send_req(self, t, kw):
        if kw.get("wait"):
            await self.tx.send(self.Frame.from_tlp(t))
        else:
            self.send_req_nowait(t, kw)

    async def send_cpl(self, c):
        await self.tx.send(self.Frame.from_tlp(c))

    async def recv_loop(self):
        while True:
            f = await self.rx.recv()
            t = f.to_tlp()
            if t.fmt_type in CPLS:
                if self.has_vf and f.func_num != t.requester_id.function:
                    self.on_bad("func_num", f"completion for {t.requester_id} presented on function {f.func_num}")
                self.cpl_in(t)
            else:
                self.on_req(dict(tlp=t, bar_id=f.bar_range, func=f.func_num if self.has_vf else None))


def make(k, name, spec, seed):
    return (XilinxHw if spec["model"] in ("us", "usp") else IntelHw)(k, name, spec, seed)
