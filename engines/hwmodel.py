"""Vendor device models in a simulated system: host and DMA traffic, tags, sequence numbers and credit, interrupts,
configuration ports, reset (P24 to P29)."""
import copy
import random
import struct
from collections import Counter, deque

from dsim import kernel
import cocotb
from cocotb.triggers import Event, RisingEdge, Timer

from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.core.caps import PciCapId
from cocotbext.pcie.xilinx.us.tlp import ErrorCode

from dsim.hw import BadStatus, NP_TYPES, CPLS, CONFIGS
from dsim.link import Observer, Rec
from dsim.outcome import Outcome
from dsim.system import System
from engines import system as sysgen

WR = {TlpType.MEM_WRITE, TlpType.MEM_WRITE_64, TlpType.IO_WRITE}
RD = {TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.IO_READ}
XIL = ("us", "usp")


class LinkMon(Observer):
    """What crosses the link of one device model."""

    def __init__(self, eng, node):
        self.e = eng
        self.node = node
        self.hw = eng.sys.hw[node]
        self.n_np = 0
        self.out = {}            # tag -> bytes still to come
        self.req = {}
        self.cpl_n = 0
        self.mutate = {f["n"]: f["how"] for f in eng.plan["faults_cpl"] if f["node"] == node}
        self.deliv = deque()     # completions handed to the model: (tag, how altered, accepted error codes of a rogue one)
        self.crs = 0
        self.on = False

    def on_tx_tlp(self, d, tlp, rec, now):
        e, hw = self.e, self.hw
        if d.idx == 1:
            if rec.is_cpl():
                if int(rec.status) == 2:
                    self.crs += 1
                if self.on and rec.requester_id == PcieId(0, 0, 0) and rec.completer_id not in e.ids[self.node]:
                    e.bad(e.tprop, "completer_id", f"{e.nm(self.node)} completes as {rec.completer_id}, its functions are {sorted(map(str, e.ids[self.node]))}")
                return
            if not self.on:
                return
            if rec.requester_id not in e.ids[self.node]:
                e.bad(e.tprop, "requester_id", f"{e.nm(self.node)} sends {rec} as {rec.requester_id}, its functions are {sorted(map(str, e.ids[self.node]))}")
            if tlp.fmt_type not in NP_TYPES:
                return
            n = self.n_np
            self.n_np += 1
            if n >= len(hw.np_log):
                e.bad(e.tprop, "np_extra", f"{e.nm(self.node)} sends a request the user logic did not make: {rec}")
                return
            op = hw.np_log[n]
            t = op.tlp
            p = "P25" if e.tprop == "P24" else e.tprop
            if (t.address, t.length, int(t.first_be), int(t.last_be), t.fmt_type) != (rec.address, rec.length, rec.first_be, rec.last_be, tlp.fmt_type):
                e.bad(p, "np_order", f"{e.nm(self.node)}: non-posted request {n} on the link is {rec}, the user logic made {t!r}")
            if rec.tag in self.out:
                e.bad(p, "tag_busy", f"{e.nm(self.node)}: tag {rec.tag} used by {rec} is still outstanding")
            if rec.tag >= hw.tag_limit():
                e.bad(p, "tag_range", f"{e.nm(self.node)}: tag {rec.tag} used, {hw.tag_limit()} allowed")
            op.wire_tag = rec.tag
            if not hw.auto_tag and t.tag != rec.tag:
                e.bad(p, "tag_changed", f"{e.nm(self.node)}: request with tag {t.tag} sent with tag {rec.tag}")
            self.out[rec.tag] = t.get_be_byte_count() if t.fmt_type in (TlpType.MEM_READ, TlpType.MEM_READ_64) else 0
            self.req[rec.tag] = op
            e.stats["np_sent"] += 1
        elif rec.is_cpl() and self.on and not rogue_kind(tlp) and tlp.requester_id in e.ids[self.node] and getattr(tlp, "_how", None) is None:
            how = self.mutate.get(self.cpl_n)
            self.cpl_n += 1
            if how and int(tlp.status) == 0 and tlp.tag in self.out and self.out[tlp.tag]:
                if how == "nodata" and tlp.byte_count > len(tlp.data) - (tlp.lower_address & 3):
                    self.mutate[self.cpl_n] = how       # only the last completion of a request
                    return
                e.out.faults["cpl_" + how] += 1
                self.req[tlp.tag].spoilt = True
                tlp._how = how
                if how == "poison":
                    tlp.ep = True
                elif how == "addr":
                    tlp.lower_address ^= 0x40
                elif how == "nodata":
                    tlp.fmt_type = TlpType.CPL
                    tlp.data = bytearray()
                    tlp.length = 0

    def on_rx_tlp(self, d, tlp, repeated, now):
        if d.idx == 1 or repeated or not self.on:
            return
        if tlp.fmt_type in CPLS and tlp.requester_id in self.e.ids[self.node]:
            kind = rogue_kind(tlp)
            if kind:
                want = {"INVALID_TAG"}
                if kind == "mismatch":
                    live = tlp.tag in self.out
                    for op in (self.req.get(tlp.tag) if live else None, self.hw.active.get(tlp.tag)):
                        t = op and op.tlp
                        if t and (self.hw.full_req_id(t), t.tc, t.attr) == (tlp.requester_id, tlp.tc, tlp.attr):
                            tlp.tc = TlpTc(7)
                    want = {"MISMATCH"} if live else {"INVALID_TAG", "MISMATCH"}
                self.deliv.append((tlp.tag, None, want))
                return
            self.deliv.append((tlp.tag, getattr(tlp, "_how", None), None))
            if tlp.tag in self.out:
                left = self.out[tlp.tag]
                if int(tlp.status) or not left or tlp.fmt_type == TlpType.CPL or tlp.byte_count <= len(tlp.data) - (tlp.lower_address & 3):
                    del self.out[tlp.tag]


ROGUE = {PcieId(0, 31, 7): "tag", PcieId(0, 31, 6): "mismatch"}


def rogue_kind(tlp):
    return ROGUE.get(tlp.completer_id)


class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.out = Outcome()
        self.stats = self.out.stats
        self.progress = 0
        self.wr = {}             # (node, fn, bar, offset) -> values on their way to the user logic
        self.rd = Counter()      # (node, fn, bar, offset) -> reads on their way
        self.zero = Counter()
        self.fired = Counter()
        self.raised = Counter()
        xil = plan["cfg"]["nodes"][plan["cfg"]["main"]]["spec"]["model"] in XIL
        self.tprop = "P24" if xil else "P26"

    def bad(self, prop, kind, msg):
        # the vendor property that covers the traffic also covers the P25 details of the model at hand
        self.out.violation(prop, kind, msg)

    def nm(self, node):
        s = self.sys.nodes[node]["spec"]
        return f"{s['model']}{node}"

    # -- user logic callbacks ----------------------------------------------
    def on_req(self, node, r):
        hw = self.sys.hw[node]
        t = r["tlp"]
        self.progress += 1
        io = t.fmt_type in (TlpType.IO_READ, TlpType.IO_WRITE)
        for fn in hw.fns:
            for bar in fn.bars:
                if bar.io == io and bar.addr is not None and bar.addr <= t.address < bar.addr + bar.size:
                    break
            else:
                continue
            break
        else:
            self.bad(self.tprop, "stray", f"{self.nm(node)}: user logic got {t!r}, which hits no BAR")
            return
        want = 6 if io and hw.kind == "intel" else bar.idx
        if r["bar_id"] != want:
            self.bad(self.tprop, "bar_id", f"{self.nm(node)}: {t!r} belongs to BAR {want} of function {fn.num}, presented as BAR {r['bar_id']}")
        if r["func"] is not None and r["func"] != fn.num:
            self.bad(self.tprop, "func", f"{self.nm(node)}: {t!r} belongs to function {fn.num}, presented as function {r['func']}")
        if r.get("aperture") is not None and 1 << r["aperture"] != bar.size:
            self.bad(self.tprop, "aperture", f"{self.nm(node)}: {t!r} hits a BAR of {bar.size} bytes, aperture {r['aperture']}")
        base = t.address - bar.addr
        kt, ka = int(t.tc), int(t.attr)
        if t.fmt_type in WR:
            d = bytes(t.get_data())
            self.stats["cq_writes"] += 1
            if t.length == 1 and t.first_be == 0:
                self.take_zero(node, fn, bar, base, "write")
            for i in range(4 * t.length):
                be = t.first_be if i < 4 else (t.last_be if i >= 4 * t.length - 4 else 15)
                if t.length == 1:
                    be = t.first_be
                if not be >> (i & 3) & 1:
                    continue
                key = (node, fn.num, bar.idx, base + i)
                q = self.wr.get(key)
                if not q:
                    self.bad(self.tprop, "write_extra", f"{self.nm(node)}: user logic got an unexpected byte {d[i]:#x} for {fn} BAR {bar.idx} offset {base+i:#x} in {t!r}")
                elif q[0] != (d[i], kt, ka):
                    self.bad(self.tprop, "write_data", f"{self.nm(node)}: byte at {fn} BAR {bar.idx} offset {base+i:#x} is (value, tc, attr) {d[i], kt, ka}, "
                        f"host wrote {q[0]}")
                    q.popleft()
                else:
                    q.popleft()
                if base + i < bar.size:
                    bar.mem[base + i] = d[i]
        else:
            self.stats["cq_reads"] += 1
            if t.length == 1 and t.first_be == 0:
                self.take_zero(node, fn, bar, base, "read")
            else:
                off = base + t.get_first_be_offset()
                for i in range(t.get_be_byte_count()):
                    key = (node, fn.num, bar.idx, off + i, kt, ka)
                    if self.rd[key] <= 0:
                        self.bad(self.tprop, "read_extra", f"{self.nm(node)}: user logic got an unexpected read of {fn} BAR {bar.idx} offset {off+i:#x} in {t!r}")
                    self.rd[key] -= 1
        r.update(fn=fn, bar=bar, rng=self.srng)
        b = self.bads.get((node, fn.num, bar.idx))
        if b and b[0] <= base < b[1]:
            r["status"] = CplStatus[b[2]]
        cocotb.start_soon(hw.serve(r))

    def take_zero(self, node, fn, bar, base, what):
        key = (node, fn.num, bar.idx, base & ~3, what)
        if self.zero[key] <= 0:
            self.bad(self.tprop, "zero_extra", f"{self.nm(node)}: unexpected zero-length {what} of {fn} BAR {bar.idx} offset {base:#x}")
        self.zero[key] -= 1

    # -- rogue completions ---------------------------------------------------
    def on_rc(self, node, c):
        """True if the completion is not for the DMA engine."""
        name = ErrorCode(c.error_code).name
        mon = self.mons[node]
        if not mon.deliv:
            self.bad("P25", "unexpected_cpl", f"{self.nm(node)}: completion {c!r} presented, none was received")
            return True
        tag, how, want = mon.deliv.popleft()
        if tag != c.tag:
            self.bad("P25", "cpl_order", f"{self.nm(node)}: completion {c!r} presented, the next one received has tag {tag}")
        if want:
            if name not in want:
                self.bad("P25", "error_code", f"{self.nm(node)}: rogue completion for tag {tag} reported as {name}, expected {' or '.join(sorted(want))}")
            if c.request_completed:
                self.bad("P25", "completed_flag", f"{self.nm(node)}: rogue completion for tag {tag} reported as completing a request")
            self.stats["rogue_reported"] += 1
            return True
        exp = {"poison": "POISONED", "addr": "INVALID_ADDRESS", "nodata": "INVALID_LENGTH"}.get(how) or ("NORMAL_TERMINATION" if c.status == CplStatus.SC else "BAD_STATUS")
        if name != exp:
            self.bad("P25", "error_code", f"{self.nm(node)}: completion {c!r} {f'altered ({how}) on the link' if how else ''} reported as {name}, expected {exp}")
        if how:
            c._how = how
            self.stats["cpl_error_" + name] += 1
        return False

    async def rogue(self, node, op, rng):
        """The host sends a completion nobody asked for."""
        hw = self.sys.hw[node]
        mon = self.mons[node]
        fn = hw.fns[op["f"] % len(hw.fns)]
        c = Tlp()
        c.fmt_type = rng.choice([TlpType.CPL_DATA, TlpType.CPL])
        c.requester_id = fn.ep.pcie_id
        c.byte_count = rng.randrange(1, 0x1000)
        c.lower_address = rng.randrange(128)
        if c.fmt_type == TlpType.CPL_DATA:
            c.set_data(rng.randbytes(4 * rng.choice([1, 2, 8])))
            c.byte_count = max(c.byte_count, len(c.data) - (c.lower_address & 3))
        live = [t for t in mon.out if t in mon.req]
        if op["how"] == "mismatch" and live:
            c.tag = rng.choice(live)
            t = mon.req[c.tag].tlp
            c.requester_id = hw.full_req_id(t)
            which = rng.randrange(3 if len(hw.fns) > 1 and not hw.auto_tag else 2)
            c.tc, c.attr = t.tc, t.attr
            if which == 0:
                c.tc = TlpTc(7)              # DMA uses classes 0 to 6 and attributes 0 to 6
            elif which == 1:
                c.attr = TlpAttr(7)
            else:
                c.requester_id = rng.choice([f.ep.pcie_id for f in hw.fns if f.ep.pcie_id != c.requester_id])
            c.completer_id = PcieId(0, 31, 6)
        else:
            lim = hw.tag_limit() if hw.auto_tag else min(hw.tag_limit(), hw.spec.get("tags") or 256)
            if lim > 255:
                return
            c.tag = rng.randrange(lim, 256)
            c.completer_id = PcieId(0, 31, 7)
        self.out.faults["rogue_" + ROGUE[c.completer_id]] += 1
        await self.sys.rc.send(c)

    # -- interrupts ----------------------------------------------------------
    def handler(self, key):
        async def cb():
            self.fired[key] += 1
            self.progress += 1
            self.stats["irq_handled"] += 1
            if self.fired[key] > self.raised[key]:
                self.bad("P27", "extra", f"{key[0]}: handler of {key[1]} vector {key[2]} ran {self.fired[key]} times, {self.raised[key]} interrupts were requested")
        return cb

    async def irq_setup(self, fn):
        sp = self.sys.nodes[fn.node]["spec"]["irq"][fn.num]
        use = sp.get("use")
        if not use:
            return
        if use == "msix":
            n = await fn.dev.enable_msix_range(1, 2048, 0)
            want = sp["msix"]["size"]
        else:
            n = await fn.dev.enable_msi_range(1, 32)
            want = 1 << (sp["msi"] - 1).bit_length()
        if n != want:
            self.bad("P27", "vectors", f"{fn}: {use} setup returned {n} vectors, the model was configured for {want}")
        fn.irq = (use, n)
        for v in range(n):
            fn.dev.request_irq(v, self.handler((fn, use, v)))

    async def irq_op(self, node, op, rng):
        hw = self.sys.hw[node]
        fn = hw.fns[op["f"] % len(hw.fns)]
        use, n = getattr(fn, "irq", (None, 0))
        if op.get("bad") or not n:
            if hw.kind == "us":
                await self.irq_bad_us(hw, fn, use, n, rng)
            return
        vec = rng.randrange(n)
        key = (fn, use, vec)
        before = self.raised[key]
        if use == "msix":
            b = next(x for x in fn.bars if x.idx == fn.msix.msix_table_bar_indicator_register)
            addr, data, ctl = struct.unpack_from("<QLL", b.mem, fn.msix.msix_table_offset + 16 * vec)
        self.raised[key] += 1
        self.stats["irq_raised_" + use] += 1
        attr = TlpAttr(rng.choice([0, 0, 1, 2]))
        if hw.kind == "us":
            ok = await self.irq_us(hw, fn, use, vec if use == "msi" else (addr, data), attr)
            if ok == "fail":
                self.bad("P27", "refused", f"{fn}: {use} vector {vec} is enabled but was reported as failed")
                self.raised[key] = before
        elif hw.s10 and use == "msi":
            await self.irq_s10(hw, fn, vec, rng)
        else:
            if use == "msi":
                m = fn.msi
                addr, data = m.msi_message_address, (m.msi_message_data & 0xffff & ~(n - 1)) | vec
            await hw.write(fn, addr, struct.pack("<L", data), random.Random(0))
        if op.get("settle"):
            await self.irq_settle()

    async def irq_us(self, hw, fn, use, what, attr):
        """One interrupt request in the UltraScale protocol.  Returns "sent", "fail" or None."""
        d = hw.d
        clk = RisingEdge(d.clk)
        lock = self.irq_lock[hw]
        await lock.acquire()
        try:
            await clk
            sent = (d.cfg_interrupt_msi_sent, d.cfg_interrupt_msi_fail) if use == "msi" else (d.cfg_interrupt_msix_sent, d.cfg_interrupt_msix_fail)
            d.cfg_interrupt_msi_function_number.value = fn.num
            d.cfg_interrupt_msi_attr.value = int(attr)
            if use == "msi":
                d.cfg_interrupt_msi_int.value = 1 << what if isinstance(what, int) and what < 32 else 0
            else:
                d.cfg_interrupt_msix_address.value = what[0]
                d.cfg_interrupt_msix_data.value = what[1]
                d.cfg_interrupt_msix_int.value = 1
            await clk
            d.cfg_interrupt_msi_int.value = 0
            d.cfg_interrupt_msix_int.value = 0
            res = None
            n = 0
            t0 = self.k.time
            while n < 3 or self.k.time - t0 < 500_000 * self.sys.ps:
                await clk
                n += 1
                s, f = int(sent[0].value), int(sent[1].value)
                if s or f:
                    if s and f or res:
                        self.bad("P27", "ack", f"{fn}: {use} request acknowledged more than once ({res}, sent {s} fail {f})")
                    res = "sent" if s else "fail"
                    self.progress += 1
                    t0, n = self.k.time - 500_000 * self.sys.ps, 0
            if res is None:
                self.bad("P27", "no_ack", f"{fn}: {use} request neither acknowledged nor refused within 500 us")
            return res
        finally:
            lock.release()

    async def irq_bad_us(self, hw, fn, use, n, rng):
        """A request that cannot be granted: interrupts off, or a vector that was not allocated."""
        kinds = []
        if use == "msi" and n < 32:
            kinds.append(("msi", rng.randrange(n, 32)))
        if use != "msi":
            kinds.append(("msi", rng.randrange(32)))
        if use != "msix":
            a = self.sys.rc.msi_region.get_absolute_address(0) if hasattr(self.sys.rc, "msi_region") and self.sys.rc.msi_region else 0x8000_0000
            kinds.append(("msix", (a, rng.randrange(32))))
        if not kinds:
            return
        u, what = rng.choice(kinds)
        tot = sum(self.fired.values())
        r = await self.irq_us(hw, fn, u, what, TlpAttr(0))
        self.stats["irq_refused"] += 1
        if r == "sent":
            self.bad("P27", "sent_disabled", f"{fn}: {u} request {what} acknowledged as sent although it is not enabled")

    async def irq_s10(self, hw, fn, vec, rng):
        d = hw.d
        clk = RisingEdge(d.clk)
        lock = self.irq_lock[hw]
        await lock.acquire()
        try:
            await clk
            d.app_msi_func_num.value = fn.num
            d.app_msi_num.value = vec
            d.app_msi_tc.value = rng.randrange(8)
            d.app_msi_req.value = 1
            t0 = self.k.time
            while True:
                await clk
                if int(d.app_msi_ack.value):
                    break
                if self.k.time - t0 > 500_000 * self.sys.ps:
                    self.bad("P27", "no_ack", f"{fn}: MSI request not acknowledged within 500 us")
                    break
            self.progress += 1
            for _ in range(rng.choice([0, 0, 1, 5])):
                await clk
            d.app_msi_req.value = 0
            for i in range(3):
                await clk
                if i and int(d.app_msi_ack.value):
                    self.bad("P27", "ack", f"{fn}: MSI acknowledged again without a request")
        finally:
            lock.release()

    async def irq_settle(self):
        for _ in range(6000):
            if all(self.fired[k] == n for k, n in self.raised.items()):
                return True
            await Timer(max(int(100 * self.sys.ps), 1), "step")
        for k, n in self.raised.items():
            if self.fired[k] != n:
                self.bad("P27", "lost", f"{k[0]}: {n} interrupts requested on {k[1]} vector {k[2]}, handler ran {self.fired[k]} times")
        return False

    # -- actors ----------------------------------------------------------------
    async def actor(self, ops, idx):
        rng = random.Random(f"actor:{self.plan['cfg']['seed']}:{idx}")
        for op in ops:
            await self.one(op, rng)
            self.progress += 1
            if op.get("gap"):
                await Timer(max(int(rng.random() * op["gap"] * self.sys.ps), 1), "step")

    def attrs(self, op, rng, dma=False):
        if not op.get("qos"):
            return {}
        m = 7 if dma else 8
        return {"tc": TlpTc(rng.randrange(m)), "attr": TlpAttr(rng.randrange(m))}

    async def one(self, op, rng):
        k = op["k"]
        s = self.sys
        node = op.get("node")
        hw = s.hw.get(node)
        if k in ("hw", "hr", "hbad"):
            fn = hw.fns[op["f"]]
            bar = fn.bars[op["b"]]
            await self.host_op(k, node, fn, bar, op, rng)
        elif k in ("dw", "dr", "disc", "dbad"):
            await self.dma_op(k, hw, hw.fns[op["f"]], op, rng)
        elif k == "irq":
            await self.irq_op(node, op, rng)
        elif k == "rogue":
            await self.rogue(node, op, rng)
        elif k == "clk":
            hw.stop_clock()
            self.out.faults["clock_stop"] += 1
            await Timer(max(int(op["ns"] * s.ps), 1), "step")
            hw.stop_clock(False)
        elif k in ("mgmt_r", "mgmt_w", "cfg_r", "cfg_w"):
            await self.cfg_op(op, rng)

    async def host_op(self, k, node, fn, bar, op, rng):
        s = self.sys
        off, ln = op["off"], op["len"]
        kw = self.attrs(op, rng) if not bar.io else {}
        kt, ka = int(kw.get("tc", 0)), int(kw.get("attr", 0))
        a = bar.addr + off
        key = (node, fn.num, bar.idx)
        if k == "hw":
            data = rng.randbytes(ln)
            sh = self.shadow[key]
            for i in range(ln):
                self.wr.setdefault(key + (off + i,), deque()).append((data[i], kt, ka))
            sh[off:off+ln] = data
            if not ln:
                self.zero[key + (off & ~3, "write")] += 1
            await (s.rc.io_write if bar.io else s.rc.mem_write)(a, data, **kw)
            self.stats["host_writes"] += 1
            return
        if k == "hr":
            for i in range(ln):
                self.rd[key + (off + i, kt, ka)] += 1
            if not ln:
                self.zero[key + (off & ~3, "read")] += 1
            d = await (s.rc.io_read if bar.io else s.rc.mem_read)(a, ln, **kw)
            want = bytes(self.shadow[key][off:off+ln])
            if bytes(d) != want:
                i = next((i for i in range(min(len(d), ln)) if d[i] != want[i]), min(len(d), ln))
                self.bad(self.tprop, "read_data", f"{self.nm(node)}: host read of {ln} bytes at {fn} BAR {bar.idx} offset {off:#x} returned {len(d)} bytes, "
                    f"byte {i} is {d[i:i+1].hex()}, the memory holds {want[i:i+1].hex()}")
            for i in range(ln):
                if self.rd[key + (off + i, kt, ka)]:
                    self.bad(self.tprop, "read_missing", f"{self.nm(node)}: host read at {fn} BAR {bar.idx} offset {off+i:#x} completed without reaching the user logic")
                    self.rd[key + (off + i, kt, ka)] = 0
            self.stats["host_reads"] += 1
        else:
            for i in range(ln):
                self.rd[key + (off + i, 0, 0)] += 1
            try:
                d = await s.rc.mem_read(a, ln)
                self.bad(self.tprop, "bad_ok", f"{self.nm(node)}: host read at {fn} BAR {bar.idx} offset {off:#x} returned {bytes(d[:8]).hex()} although the user logic refused it")
            except Exception as e:
                if isinstance(e, AssertionError):
                    raise
            for i in range(ln):
                self.rd[key + (off + i, 0, 0)] = 0
            self.stats["host_refused"] += 1

    async def dma_op(self, k, hw, fn, op, rng):
        s = self.sys
        a0, size, reg = s.host[op["h"]] if not op.get("io") else s.hostio[0]
        off, ln = op["off"], op["len"]
        kw = self.attrs(op, rng, True) if not op.get("io") else {}
        sh = self.host_shadow[op["h"]] if not op.get("io") else self.io_shadow
        io = bool(op.get("io"))
        if op.get("wait"):
            kw["wait"] = True
        if k == "disc":
            await hw.write(fn, a0 + off, rng.randbytes(ln), rng, discontinue=True)
            self.out.faults["discontinue"] += 1
        elif k == "dw":
            data = rng.randbytes(ln)
            sh[off:off+ln] = data
            await hw.write(fn, a0 + off, data, rng, io=io, **kw)
            self.stats["dma_writes"] += 1
        elif k == "dr":
            try:
                d = await hw.read(fn, a0 + off, ln, rng, io=io, par=op.get("par", True), **kw)
            except BadStatus as e:
                if self.spoilt(hw, e):
                    self.stats["dma_spoilt"] += 1
                    return
                self.bad(self.tprop, "dma_failed", f"{fn}: DMA read of {ln} bytes at {a0+off:#x}: {e}")
                return
            want = bytes(sh[off:off+ln])
            if d != want:
                i = next((i for i in range(min(len(d), ln)) if d[i] != want[i]), min(len(d), ln))
                self.bad(self.tprop, "dma_data", f"{fn}: DMA read of {ln} bytes at {a0+off:#x} returned {len(d)} bytes, byte {i} is {d[i:i+1].hex()}, "
                    f"memory holds {want[i:i+1].hex()}")
            self.stats["dma_reads"] += 1
        else:
            try:
                d = await hw.read(fn, op["addr"], ln, rng, **kw)
                self.bad(self.tprop, "dma_bad_ok", f"{fn}: DMA read of {ln} bytes at {op['addr']:#x}, which is not memory, succeeded")
            except BadStatus:
                self.stats["dma_refused"] += 1

    def spoilt(self, hw, e):
        return any(getattr(o, "spoilt", False) and o.err is e for o in hw.np_log)

    # -- configuration ports -----------------------------------------------------
    async def cfg_rd(self, fn, off):
        return await self.sys.rc.config_read_dword(fn.id, off, "little")

    async def mgmt(self, hw, fn, reg, data=None, be=15):
        d = hw.d
        clk = RisingEdge(d.clk)
        lock = self.mgmt_lock[hw]
        await lock.acquire()
        try:
            await clk
            if hw.plus:
                d.cfg_mgmt_function_number.value = fn.num
                d.cfg_mgmt_addr.value = reg
            else:
                d.cfg_mgmt_addr.value = fn.num << 10 | reg
            d.cfg_mgmt_write_data.value = data if data is not None else 0
            d.cfg_mgmt_byte_enable.value = be
            (d.cfg_mgmt_read if data is None else d.cfg_mgmt_write).value = 1
            n = 0
            while True:
                await clk
                n += 1
                if int(d.cfg_mgmt_read_write_done.value):
                    break
                if n > 100:
                    self.bad("P28", "mgmt_done", f"{fn}: management access to register {reg:#x} not done after 100 cycles")
                    break
            v = int(d.cfg_mgmt_read_data.value)
            d.cfg_mgmt_read.value = 0
            d.cfg_mgmt_write.value = 0
            await clk
            await clk
            if int(d.cfg_mgmt_read_write_done.value):
                self.bad("P28", "mgmt_done", f"{fn}: management access to register {reg:#x} reported done twice")
            self.progress += 1
            return v
        finally:
            lock.release()

    async def cfg_op(self, op, rng):
        """One access to a register this actor owns; both sides see the same bytes."""
        hw = self.sys.hw[op["node"]]
        fn = hw.fns[op["f"]]
        cells = self.cells(fn)
        name = op["cell"] if op["cell"] in cells else sorted(cells)[0]
        off, rw = cells[name]
        reg = off >> 2
        key = (fn, reg)
        if key not in self.cellval:
            self.cellval[key] = await self.cfg_rd(fn, off)
        k = op["k"]
        if k == "cfg_w" or k == "mgmt_w":
            data = rng.getrandbits(32)
            be = rng.randrange(1, 16)
            if name == "cache":
                be = be & 7 or 1         # the top byte starts the self test
            if k == "mgmt_w":
                await self.mgmt(hw, fn, reg, data, be)
            else:
                for i in range(4):
                    if be >> i & 1:
                        await self.sys.rc.config_write(fn.id, off + i, bytes([data >> 8 * i & 0xff]))
            m = sum(0xff << 8 * i for i in range(4) if be >> i & 1) & rw
            self.cellval[key] = self.cellval[key] & ~m | data & m
            self.stats[k] += 1
        v = await (self.mgmt(hw, fn, reg) if rng.random() < 0.5 and hw.kind == "us" and k != "cfg_r" or k == "mgmt_r" else self.cfg_rd(fn, off))
        if v != self.cellval[key]:
            self.bad("P28", "value", f"{fn}: register {off:#x} ({name}) reads {v:#010x} after {k}, should be {self.cellval[key]:#010x}")
            self.cellval[key] = v
        self.stats["cfg_checked"] += 1

    def cells(self, fn):
        """Registers with no effect on traffic: name -> (offset, writable bits)."""
        dev = fn.dev
        out = {"line": (0x3c, 0xff), "cache": (0x0c, 0xff)}
        if fn.msi:
            cap = dev.get_capability_offset(PciCapId.MSI)
            a64 = fn.msi.msi_64bit_address_capable
            if not getattr(fn, "irq", None):
                out["msi_addr"] = (cap + 4, 0xfffffffc)
                out["msi_data"] = (cap + (12 if a64 else 8), 0xffff)
            if fn.msi.msi_per_vector_mask_capable:
                out["msi_mask"] = (cap + (16 if a64 else 12), 0xffffffff)
        aer = next((p for c, p in dev.ext_capabilities if c == 1), None)
        if aer:
            out["aer_unc_mask"] = (aer + 8, 0x07fff030)
            out["aer_sev"] = (aer + 12, 0x07fff030)
            out["aer_cor_mask"] = (aer + 20, 0xf1c1)
        return out

    async def probe(self):
        """The host changes settings at random; the status ports must come to show what the host then reads."""
        s = self.sys
        rng = random.Random(f"probe:{self.plan['cfg']['seed']}")
        for node, hw in s.hw.items():
            for rnd in range(self.plan["cfg"].get("probes", 0)):
                for fn in hw.fns:
                    await self.scramble(fn, rng)
                # every register of every function appears at least once
                await self.settle_clocks(hw, 8 if hw.kind == "us" else (12 if hw.s10 else 34) * len(hw.fns))
                view = {}
                for fn in hw.fns:
                    view[fn] = await self.host_view(fn)
                if hw.kind == "us":
                    await self.check_us(hw, view, rng)
                else:
                    await self.check_intel(hw, view)
                await self.check_fc(hw, rng)
                self.progress += 1
            for fn in hw.fns:
                cmd = 0x7
                await s.rc.config_write_word(fn.id, 4, cmd)

    async def settle_clocks(self, hw, n):
        await hw.cycles(n)

    async def scramble(self, fn, rng):
        s = self.sys
        dev = fn.dev
        rc = s.rc
        if rng.random() < 0.6:
            await rc.config_write_word(fn.id, 4, rng.choice([7, 6, 0x407, 3, 0x406, 2, 0, 4, 0x547, 5, 1]))
        exp = dev.get_capability_offset(PciCapId.EXP)
        if rng.random() < 0.6:
            v = await rc.config_read_word(fn.id, exp + 8)
            v = v & ~0x78ef & 0xffff | rng.getrandbits(16) & 0x080f | rng.randrange(4) << 5 | rng.randrange(6) << 12
            v = v & ~0x10 | rng.getrandbits(1) << 4
            await rc.config_write_word(fn.id, exp + 8, v & ~0x100 | (rng.getrandbits(1) << 8))
        if rng.random() < 0.5:
            await rc.config_write_word(fn.id, exp + 0x10, rng.choice([0, 8]))
        if rng.random() < 0.4:
            await rc.config_write_word(fn.id, exp + 0x28, rng.getrandbits(16) & 0x03e0)
        if rng.random() < 0.4:
            await rc.config_write_word(fn.id, exp + 0x18, rng.getrandbits(16) & 0x7ff)
        if rng.random() < 0.4:
            await rc.config_write_word(fn.id, exp + 0x1c, rng.getrandbits(16) & 0x7)
        if fn.msi and rng.random() < 0.7:
            cap = dev.get_capability_offset(PciCapId.MSI)
            await rc.config_write_word(fn.id, cap + 2, rng.getrandbits(1) | rng.randrange(6) << 4)
            if rng.random() < 0.7:
                await rc.config_write_dword(fn.id, cap + 4, rng.getrandbits(32) & ~3)
                await rc.config_write_dword(fn.id, cap + 8, rng.getrandbits(32))
                await rc.config_write_dword(fn.id, cap + 12, rng.getrandbits(32))
                if fn.msi.msi_per_vector_mask_capable:
                    await rc.config_write_dword(fn.id, cap + 16, rng.getrandbits(32))
        if fn.msix and rng.random() < 0.7:
            cap = dev.get_capability_offset(PciCapId.MSIX)
            await rc.config_write_word(fn.id, cap + 2, rng.randrange(4) << 14)
        aer = next((p for c, p in dev.ext_capabilities if c == 1), None)
        if rng.random() < 0.5:
            # the links of the simulation do not report their speed; the user logic sets it
            fn.ep.pcie_cap.current_link_speed = rng.randrange(1, 4)
            fn.ep.pcie_cap.negotiated_link_width = rng.choice([1, 2, 4, 8] if fn.model == "us" else [1, 2, 4, 8, 16])
        if rng.random() < 0.5:
            fn.ep.pcie_cap.interrupt_message_number = rng.randrange(32)
            fn.ep.aer_ext_cap.advanced_error_interrupt_message_number = rng.randrange(32)
        if aer and rng.random() < 0.5:
            for o in (8, 12, 20):
                await rc.config_write_dword(fn.id, aer + o, rng.getrandbits(32))

    async def host_view(self, fn):
        """Configuration space as the host reads it."""
        dev = fn.dev
        v = {"cmd": await self.cfg_rd(fn, 4)}
        exp = dev.get_capability_offset(PciCapId.EXP)
        for i in (0, 2, 4, 6, 7, 10):
            v["exp", i] = await self.cfg_rd(fn, exp + 4 * i)
        pm = dev.get_capability_offset(PciCapId.PM)
        v["pm"] = await self.cfg_rd(fn, pm + 4) if pm else 0
        v["msi"] = v["mask"] = v["msid"] = 0
        v["msia"] = 0
        if fn.msi:
            cap = dev.get_capability_offset(PciCapId.MSI)
            c = v["msi"] = await self.cfg_rd(fn, cap) >> 16
            v["msia"] = await self.cfg_rd(fn, cap + 4)
            o = 8
            if c >> 7 & 1:
                v["msia"] |= await self.cfg_rd(fn, cap + 8) << 32
                o = 12
            v["msid"] = await self.cfg_rd(fn, cap + o)
            if c >> 8 & 1:
                v["mask"] = await self.cfg_rd(fn, cap + o + 4)
        v["msix"] = 0
        if fn.msix:
            v["msix"] = await self.cfg_rd(fn, dev.get_capability_offset(PciCapId.MSIX)) >> 16
        aer = next((p for c, p in dev.ext_capabilities if c == 1), None)
        v["aer"] = [await self.cfg_rd(fn, aer + o) for o in (8, 12, 20)] if aer else [0, 0, 0]
        v["aern"] = fn.ep.aer_ext_cap.advanced_error_interrupt_message_number     # root ports only: not readable here
        v["bus"] = fn.id.bus
        v["dev"] = fn.id.device
        return v

    def port(self, hw, name, want, why=""):
        got = int(getattr(hw.d, name).value)
        if got != want:
            self.bad("P28", "port:" + name, f"{hw.name} ({hw.spec['model']}): {name} is {got:#x}, configuration space says {want:#x} {why}")
        self.stats["ports_checked"] += 1

    async def check_us(self, hw, view, rng):
        fns = hw.fns
        v0 = view[fns[0]]
        lst = v0["exp", 4] >> 16
        width = lst >> 4 & 0x3f
        speed = lst & 0xf
        self.port(hw, "cfg_negotiated_width", width if not hw.plus else {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}.get(width, 0))
        self.port(hw, "cfg_current_speed", max(speed - 1, 0) if hw.plus else {1: 1, 2: 2, 3: 4}.get(speed, 0))
        dc = v0["exp", 2]
        self.port(hw, "cfg_max_payload", dc >> 5 & 7 if not hw.plus else dc >> 5 & 3)
        self.port(hw, "cfg_max_read_req", dc >> 12 & 7)
        st = 0
        rcb = 0
        for fn in fns:
            c = view[fn]["cmd"]
            st |= (c & 7 | (c >> 10 & 1) << 3) << 4 * fn.num
            rcb |= (view[fn]["exp", 4] >> 3 & 1) << fn.num
        self.port(hw, "cfg_function_status", st)
        self.port(hw, "cfg_rcb_status", rcb)
        if hw.plus:
            self.port(hw, "cfg_bus_number", v0["bus"])
        if "cfg_interrupt_msi_enable" in hw.args:
            n = len(fns)
            self.port(hw, "cfg_interrupt_msi_enable", sum((view[f]["msi"] & 1) << f.num for f in fns))
            self.port(hw, "cfg_interrupt_msi_mmenable", sum((view[f]["msi"] >> 4 & 7) << 3 * f.num for f in fns))
            self.port(hw, "cfg_interrupt_msix_enable", sum((view[f]["msix"] >> 15 & 1) << f.num for f in fns))
            self.port(hw, "cfg_interrupt_msix_mask", sum((view[f]["msix"] >> 14 & 1) << f.num for f in fns))
            for fn in fns:
                hw.d.cfg_interrupt_msi_select.value = fn.num
                await hw.cycles(3)
                self.port(hw, "cfg_interrupt_msi_data", view[fn]["mask"], f"(function {fn.num})")
            f = rng.choice(fns)
            if f.msi and f.msi.msi_per_vector_mask_capable:
                p = rng.getrandbits(32)
                hw.d.cfg_interrupt_msi_pending_status.value = p
                hw.d.cfg_interrupt_msi_pending_status_function_num.value = f.num
                hw.d.cfg_interrupt_msi_pending_status_data_enable.value = 1
                await hw.cycles(2)
                hw.d.cfg_interrupt_msi_pending_status_data_enable.value = 0
                await hw.cycles(2)
                hw.d.cfg_interrupt_msi_pending_status.value = rng.getrandbits(32)
                await hw.cycles(3)
                o = f.dev.get_capability_offset(PciCapId.MSI) + (20 if f.msi.msi_64bit_address_capable else 16)
                got = await self.cfg_rd(f, o)
                if got != p:
                    self.bad("P28", "pending", f"{f}: host reads MSI pending bits {got:#x}, user logic set {p:#x}")

    def intel_regs(self, hw, fn, v):
        """Expected configuration output words: address -> (value, judged bits)."""
        e = lambda i: v["exp", i]
        cmd, dc, dc2, lc, sc, rctl = v["cmd"], e(2), e(10), e(4), e(6), e(7)
        b = lambda x, i, n=1: x >> i & (1 << n) - 1
        low = b(cmd, 1) << 15 | b(dc2, 9) << 14 | b(cmd, 6) << 13 | b(cmd, 8) << 12 | b(dc, 2) << 11 | b(dc, 1) << 10 | b(dc, 0) << 9 | b(dc, 3) << 8 | \
            b(cmd, 2) << 7 | b(dc, 8) << 6 | b(dc, 12, 3) << 3 | b(dc, 5, 3)
        ids = b(dc2, 8) << 15 | b(dc, 11) << 14 | b(dc, 4) << 13 | v["dev"] << 8 | v["bus"]
        w1 = b(v["pm"], 3) << 15 | b(lc, 3) << 14 | b(cmd, 10) << 13 | b(e(0), 25, 5) << 8 | b(sc, 10) << 4 | b(sc, 6, 2) << 2 | b(sc, 8, 2)
        speed, width = b(lc, 16, 4), b(lc, 20, 6)
        ctl = b(rctl, 2) << 15 | b(rctl, 1) << 14 | b(rctl, 0) << 13
        m = b(v["msix"], 14) << 6 | b(v["msix"], 15) << 5 | b(v["msi"], 4, 3) << 2 | b(v["msi"], 7) << 1 | b(v["msi"], 0)
        has = 0x7f if fn.msi and fn.msix else 0x1f if fn.msi else 0x60 if fn.msix else 0
        unc, sev, cor = v["aer"]
        msi = bool(fn.msi)
        if hw.s10 and not hw.l_tile:
            r = {0: (ids << 16 | low, 0xffffffff), 1: (w1, 0xffff & ~0x4000 | 0x4000), 2: (speed << 28 | b(dc2, 5) << 7 | b(dc2, 6) << 6, 0xf00000c0),
                6: ((v["msid"] & 0xffff) << 16 | ctl | v["aern"] << 8 | m, (0xffff0000 if msi else 0) | 0xff00 | has), 7: (unc, 0xffffffff), 8: (cor, 0xffffffff), 9: (sev, 0xffffffff)}
            if msi:
                r.update({3: (v["msia"] & 0xffffffff, 0xffffffff), 4: (v["msia"] >> 32, 0xffffffff), 5: (v["mask"], 0xffffffff)})
        elif hw.s10:
            lo = b(cmd, 1) << 15 | b(dc2, 9) << 14 | width << 8 | b(cmd, 2) << 7 | b(dc, 8) << 6 | b(dc, 12, 3) << 3 | b(dc, 5, 3)
            w = ctl << 16 | v["aern"] << 24 | width << 18 | b(v["pm"], 3) << 17 | b(lc, 3) << 16 | w1 & 0x3fff
            r = {0: (ids << 16 | lo, 0xffffffff), 1: (w, 0xfffc0000 | 0x33f1f | 0x2000), 2: (speed << 12 | b(dc2, 5) << 5 | b(dc2, 6) << 4, 0xf030),
                6: ((v["msid"] & 0xffff) << 16 | m, (0xffff0000 if msi else 0) | has), 7: (speed << 6 | width, 0x3ff)}
            if msi:
                r.update({3: (v["msia"] & 0xffffffff, 0xffffffff), 4: (v["msia"] >> 32, 0xffffffff), 5: (v["mask"], 0xffffffff)})
        else:
            r = {0: (low, 0xffff), 1: (ids, 0xffff), 2: (w1, 0xffff), 4: (b(dc2, 7) << 14 | b(dc2, 5) << 7 | b(dc2, 6) << 6, 0x40c0), 5: (speed << 12, 0xf000),
                12: (ctl | v["aern"] << 8 | m, 0xff00 | has), 14: (unc & 0xffff, 0xffff), 15: (unc >> 16, 0xffff), 16: (cor & 0xffff, 0xffff), 17: (cor >> 16, 0xffff),
                18: (sev & 0xffff, 0xffff), 19: (sev >> 16, 0xffff), 28: (width, 0x3f)}
            if msi:
                for i in range(4):
                    r[6 + i] = (v["msia"] >> 16 * i & 0xffff, 0xffff)
                r.update({10: (v["mask"] & 0xffff, 0xffff), 11: (v["mask"] >> 16, 0xffff), 13: (v["msid"] & 0xffff, 0xffff)})
        return r

    async def check_intel(self, hw, view):
        d = hw.d
        want = {(fn.num, a): x for fn in hw.fns for a, x in self.intel_regs(hw, fn, view[fn]).items()}
        n = (12 if hw.s10 else 34) * len(hw.fns) + 4
        seen = set()
        for _ in range(n):
            await hw.cycles(1)
            key = (int(d.tl_cfg_func.value), int(d.tl_cfg_add.value))
            val = int(d.tl_cfg_ctl.value)
            seen.add(key)
            if key in want:
                w, m = want[key]
                if (val ^ w) & m:
                    self.bad("P28", f"tl_cfg:{key[1]:x}", f"{hw.name} ({hw.spec['model']}{' L-tile' if hw.l_tile else ''}): configuration output word {key[1]:#x} of function "
                        f"{key[0]} is {val:#x}, configuration space says {w:#x} (judged bits {m:#x})")
                self.stats["ports_checked"] += 1
        if set(want) - seen:
            self.bad("P28", "tl_cfg:missing", f"{hw.name}: configuration output words {sorted(set(want) - seen)[:6]} never shown in {n} cycles")

    async def check_fc(self, hw, rng):
        """Flow-control ports in a quiet system against the credit counted on the link."""
        d = hw.d
        fc = self.fcmon[hw]
        if not fc.quiet():
            return
        names = ("ph", "pd", "nph", "npd", "cplh", "cpld")
        wid = (8, 12) * 3
        items = []
        if hw.kind == "us":
            items = [(sel, i, "cfg_fc_" + n) for sel in ((2, 4, 5, 6) if hw.plus else (0, 1, 2, 4, 5, 6)) for i, n in enumerate(names)]
        elif hw.s10:
            items = [(4, i, f"tx_{n}_cdts") for i, n in enumerate(names) if n not in ("npd", "cpld") or hw.l_tile]
        else:
            items = [(5, i, None) for i in range(6)]
        slot = (0, 4, 1, 5, 2, 6)        # P-Tile: time slots of PH, PD, NPH, NPD, CPLH, CPLD
        for sel, i, name in items:
            if fc.expect(sel, i) is None:
                continue
            bad = None
            # an update may be on its way from the link to the port while it is sampled
            for _ in range(4):
                if hw.kind == "us":
                    d.cfg_fc_sel.value = sel
                await hw.cycles(3)
                mask = (1 << wid[i]) - 1
                if name:
                    got = int(getattr(d, name).value)
                else:
                    mask = 0xffff if i % 2 else 0xfff
                    for _ in range(8):
                        await hw.cycles(1)
                        if int(d.tx_cdts_limit_tdm_idx.value) == slot[i]:
                            got = int(d.tx_cdts_limit.value)
                w = fc.expect(sel, i) & mask
                bad = None if got == w else (got, w)
                if not bad:
                    break
            if bad:
                self.bad("P28", f"fc:{sel}:{names[i]}", f"{hw.name} ({hw.spec['model']}): credit port {names[i]} (select {sel}) is {bad[0]:#x}, counted on the link {bad[1]:#x}")
            self.stats["fc_checked"] += 1

    # -- reset ---------------------------------------------------------------------
    def reset_level(self, hw):
        if hw.kind == "us":
            return hw.d.sys_reset
        return hw.perst

    def set_reset(self, hw, v):
        self.reset_level(hw).value = v
        self.reset_at[hw] = (v, self.k.time)

    async def reset_mon(self, hw):
        """User reset and link status against the reset input, on every clock edge."""
        d = hw.d
        us = hw.kind == "us"
        low = high = 0
        clk = RisingEdge(d.clk)
        per = None
        last = None
        while True:
            await clk
            if last is not None and per is None:
                per = self.k.time - last
            last = self.k.time
            v, t0 = self.reset_at[hw]
            age = self.k.time - t0
            if per is None or hw.clk_sig.stopped:
                continue
            if us:
                rst = int(d.user_reset.value)
                down = int(d.cfg_phy_link_down.value)
                up = int(d.user_lnk_up.value)
            elif hw.s10:
                rst = int(d.reset_status.value)
                down = None
            else:
                rst = int(d.reset_status.value)
                down = None
                if int(d.reset_status_n.value) == rst and self.edges[hw] > 3:
                    self.bad("P29", "polarity", f"{hw.name}: reset_status and reset_status_n are both {rst}")
            self.edges[hw] += 1
            if self.edges[hw] < 6:
                continue
            if not v:
                low += 1
                high = 0
                if low > 4:
                    if not rst:
                        self.bad("P29", "not_reset", f"{hw.name} ({hw.spec['model']}): reset has been low for {low} cycles but the user reset is not asserted")
                    if us and (not down or up):
                        self.bad("P29", "link_up", f"{hw.name} ({hw.spec['model']}): link reported up (link_down {down}, lnk_up {up}) after {low} cycles of reset")
            else:
                if age < 3 * per:
                    continue
                low = 0
                hold = int(100 * self.sys.ps)
                since = self.k.time - self.reset_at[hw][1]
                if since < hold and not rst and not self.first_up.get(hw):
                    self.bad("P29", "early", f"{hw.name} ({hw.spec['model']}): user reset released {since / self.sys.ps:.0f} ns after the reset input rose")
                if since > hold + 8 * per:
                    if rst:
                        self.bad("P29", "stuck_reset", f"{hw.name} ({hw.spec['model']}): user reset still asserted {since / self.sys.ps:.0f} ns after the reset input rose")
                    self.stats["reset_released"] += 1
                    if us and (down or not up):
                        self.bad("P29", "link_down", f"{hw.name} ({hw.spec['model']}): link still reported down {since / self.sys.ps:.0f} ns after reset ended")

    async def hold(self, node, hw, b):
        """Drives reset and the configuration enable through bring-up."""
        s = self.sys
        us = hw.kind == "us"

        async def ns(n):
            await Timer(max(int(n * s.ps), 1), "step")
        for step in b.get("steps", []):
            if step[0] == "ns":
                await ns(step[1])
            elif step[0] == "reset":
                self.set_reset(hw, step[1])
                self.out.faults["reset" if not step[1] else "reset_release"] += 1
            elif step[0] == "cse" and us and "cfg_config_space_enable" in hw.args:
                hw.d.cfg_config_space_enable.value = step[1]
                if not step[1]:
                    self.out.faults["config_declined"] += 1
            elif step[0] == "clk":
                await hw.cycles(step[1])
            elif step[0] == "gate":
                hw.stop_clock(step[1])
        hw.stop_clock(False)
        await hw.cycles(4)
        while self.k.time - self.reset_at[hw][1] < int(100 * s.ps):
            await hw.cycles(1)
        await hw.cycles(8)

    async def crs_phase(self, node, op, rng):
        """The device declines configuration for a while after enumeration."""
        s = self.sys
        hw = s.hw[node]
        fn = hw.fns[op["f"] % len(hw.fns)]
        mon = self.mons[node]
        how = op["how"]
        before = await self.cfg_rd(fn, 0x3c)
        if how == "cse" and "cfg_config_space_enable" in hw.args:
            hw.d.cfg_config_space_enable.value = 0
        else:
            self.set_reset(hw, 0)
        self.out.faults["config_declined"] += 1
        await hw.cycles(6)
        n0 = mon.crs
        v = await s.rc.config_read_dword(fn.id, 0, "little")
        if v not in (0xffff0001, 0xffffffff):
            self.bad("P29", "no_crs", f"{hw.name}: host read {v:#x} while the device declines configuration")
        if mon.crs != n0 + 1:
            self.bad("P29", "crs_count", f"{hw.name}: configuration read answered with {mon.crs - n0} retry completions")
        await s.rc.config_write(fn.id, 0x3c, b"\x5a")
        v = await self.cfg_rd(fn, 0x3c)
        if v != 0xffffffff:
            self.bad("P29", "no_crs", f"{hw.name}: host read {v:#x} at 0x3c while the device declines configuration")
        self.stats["crs_seen"] += mon.crs - n0
        if how == "cse" and "cfg_config_space_enable" in hw.args:
            hw.d.cfg_config_space_enable.value = 1
        else:
            self.set_reset(hw, 1)
        await hw.cycles(6)
        v = await self.cfg_rd(fn, 0x3c)
        if v != before:
            self.bad("P29", "crs_write", f"{hw.name}: register 0x3c reads {v:#x} after a write that was answered with a retry, held {before:#x}")
        v = await s.rc.config_read_dword(fn.id, 0, "little")
        if v & 0xffff != 0x1234:
            self.bad("P29", "not_served", f"{hw.name}: host reads {v:#x} once the device accepts configuration again")
        await Timer(int(150 * s.ps), "step")
        await hw.cycles(8)

    # -- the run ---------------------------------------------------------------------
    async def main(self, k):
        self.k = k
        cfg = self.plan["cfg"]
        s = self.sys = System(k, cfg, self.out, self.plan["faults"], cfg.get("jitter"))
        self.srng = random.Random(f"serve:{cfg['seed']}")
        self.bads = {(b[0], b[1], b[2]): (b[3], b[4], b[5]) for b in cfg.get("bads", [])}
        self.ids = {n: set() for n in s.hw}
        self.mons = {}
        self.fcmon = {}
        self.cellval = {}
        self.reset_at = {}
        self.first_up = {}
        self.edges = Counter()
        self.irq_lock = {h: Lock() for h in s.hw.values()}
        self.mgmt_lock = {h: Lock() for h in s.hw.values()}
        boot = []
        for node, hw in s.hw.items():
            m = self.mons[node] = LinkMon(self, node)
            s.taps[node].observers.append(m)
            f = self.fcmon[hw] = FcMon(s.ports[node][1])
            s.taps[node].observers.append(f)
            hw.on_bad = lambda kind, msg, n=node: self.hw_bad(n, kind, msg)
            hw.on_req = lambda r, n=node: self.on_req(n, r)
            if hw.kind == "us":
                hw.on_rc = lambda c, n=node: self.on_rc(n, c)
            b = cfg.get("boot", {}).get(str(node), {})
            self.set_reset(hw, b.get("reset", 1))
            if hw.kind == "us" and "cfg_config_space_enable" in hw.args:
                hw.d.cfg_config_space_enable.value = b.get("cse", 1)
            cocotb.start_soon(self.reset_mon(hw))
            boot.append((node, hw, b))
        holders = [cocotb.start_soon(self.hold(n, h, b)) for n, h, b in boot if b]
        for n, h, b in boot:
            if not b:
                await h.cycles(3)
                while int((h.d.user_reset if h.kind == "us" else h.d.reset_status).value):
                    await h.cycles(1)
                if cfg.get("gate", True):
                    h.stop_clock()
        await s.bring_up()
        for n, h, b in boot:
            h.stop_clock(False)
        for h in holders:
            await h.join()
        for t in s.taps.values():
            t.next_phase()
        self.shadow = {}
        for fn in s.fns:
            if fn.node in s.hw:
                self.ids[fn.node].add(fn.ep.pcie_id)
                for b in fn.bars:
                    self.shadow[fn.node, fn.num, b.idx] = bytearray(b.mem)
        self.host_shadow = [bytearray(r[0:size]) for a, size, r in s.host]
        self.io_shadow = bytearray(s.hostio[0][2][0:s.hostio[0][1]]) if s.hostio else None
        for m in self.mons.values():
            m.on = True
        for hw in s.hw.values():
            await hw.cycles(4)
        for op in cfg.get("crs", []):
            await self.crs_phase(op["node"], op, random.Random(f"crs:{cfg['seed']}"))
        self.irq_ready = False
        if cfg.get("irqs"):
            for fn in s.fns:
                if fn.node in s.hw:
                    await self.setup_quiet(fn)
        tasks = []
        for a in sorted({o["a"] for o in self.plan["ops"]}):
            tasks.append(cocotb.start_soon(self.actor([o for o in self.plan["ops"] if o["a"] == a], a)))
        last, since = self.progress, k.time
        step = max(int(1000 * s.ps), 1)
        while not all(t.done() for t in tasks):
            await Timer(step, "step")
            if last != self.progress:
                last, since = self.progress, k.time
            elif k.time - since > cfg.get("patience", 800_000) * s.ps:
                hs = [f"{h.name}: {h.outstanding} cost outstanding, {len(h.active)} tags active, {len(h.tag_wait)} waiting for tags" for h in s.hw.values()]
                self.bad(self.plan["prop"], "stuck", f"no progress; {sum(not t.done() for t in tasks)} of {len(tasks)} actors wait; {'; '.join(hs)}")
                return
        for t in tasks:
            t.result()
        await self.finish()
        if cfg.get("probes"):
            await self.probe()

    async def setup_quiet(self, fn):
        """Interrupt set-up writes the vector table through the BAR like any host write."""
        sp = self.sys.nodes[fn.node]["spec"]["irq"][fn.num]
        if sp.get("use") == "msix":
            b = next(x for x in fn.bars if x.idx == fn.msix.msix_table_bar_indicator_register)
            key = (fn.node, fn.num, b.idx)
            n = sp["msix"]["size"]
            off = fn.msix.msix_table_offset
            saved = self.wr
            self.wr = Sink(saved, key, off, off + 16 * n)
            self.rd_free = (key, off)
            for i in range(4):
                self.rd[key + (off + i, 0, 0)] += 1
            await self.irq_setup(fn)
            for i in range(4):
                self.rd[key + (off + i, 0, 0)] = 0
            self.wr = saved
            self.shadow[key][off:off+16*n] = b.mem[off:off+16*n]
        else:
            await self.irq_setup(fn)

    def hw_bad(self, node, kind, msg):
        p = self.tprop
        if kind in ("seq_num", "tag_extra", "tag_range", "tag_reuse", "np_credit", "error_code", "completed_flag"):
            p = "P25"
        self.bad(p, kind, f"{self.nm(node)}: {msg}")

    async def finish(self):
        s = self.sys
        for i in range(600):
            left = []
            if any(self.wr.values()):
                left.append(f"{sum(map(len, self.wr.values()))} bytes of host writes")
            if any(v > 0 for v in self.zero.values()):
                left.append(f"zero-length accesses {[k for k, v in self.zero.items() if v][:3]}")
            for n, h in s.hw.items():
                if h.kind == "us" and h.seq_missing():
                    left.append(f"{h.seq_missing()} sequence numbers of {self.nm(n)}")
                if h.tag_wait:
                    left.append(f"{len(h.tag_wait)} tag reports of {self.nm(n)}")
                if h.kind == "us" and self.mons[n].deliv:
                    left.append(f"{len(self.mons[n].deliv)} completions received by {self.nm(n)} and not presented")
            for j, (a, size, r) in enumerate(s.host):
                if bytes(r[0:size]) != bytes(self.host_shadow[j]):
                    m = bytes(r[0:size])
                    o = next(x for x in range(size) if m[x] != self.host_shadow[j][x])
                    left.append(f"host memory at {a+o:#x} holds {m[o:o+4].hex()}, should be {bytes(self.host_shadow[j][o:o+4]).hex()}")
            if not left and all(self.fired[k] == n for k, n in self.raised.items()):
                break
            await Timer(max(int(200 * s.ps), 1), "step")
        else:
            for x in left:
                p = "P25" if "sequence" in x or "tag reports" in x or "completions received" in x else self.tprop
                self.bad(p, "final:" + x.split(" ")[-1 if p == "P25" else 1], f"after all traffic: {x}")
            for k, n in self.raised.items():
                if self.fired[k] != n:
                    self.bad("P27", "lost", f"{k[0]}: {n} interrupts requested on {k[1]} vector {k[2]}, handler ran {self.fired[k]} times")
        await Timer(max(int(500 * s.ps), 1), "step")
        if s.hostio and bytes(s.hostio[0][2][0:s.hostio[0][1]]) != bytes(self.io_shadow):
            self.bad(self.tprop, "final_io", "host I/O memory differs from what DMA wrote")

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=plan["cfg"]["precision"], max_time_ns=1e9, max_events=12_000_000, rng_seed=plan["cfg"]["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


class Sink(dict):
    """Accepts writes to one range without a prediction."""

    def __init__(self, base, key, lo, hi):
        super().__init__(base)
        self.k = key
        self.lo = lo
        self.hi = hi

    def get(self, key, default=None):
        if key[:3] == self.k and self.lo <= key[3] < self.hi:
            return _Any()
        return super().get(key, default)


class _Any:
    def __bool__(self):
        return True

    def __getitem__(self, i):
        return _Same()

    def popleft(self):
        pass


class _Same:
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False


class Lock:
    """Serialises users of one set of wires."""

    def __init__(self):
        self.busy = False
        self.q = deque()

    async def acquire(self):
        while self.busy:
            e = Event()
            self.q.append(e)
            await e.wait()
        self.busy = True

    def release(self):
        self.busy = False
        if self.q:
            self.q.popleft().set()


class FcMon(Observer):
    """Credit of one device's link, counted from the packets that cross."""

    def __init__(self, port):
        self.port = port
        self.init_rx = [None] * 6     # what the partner advertised first
        self.lim = [None] * 6
        self.lim_ext = [0] * 6
        self.adv0 = [None] * 6        # what the device advertised first
        self.adv = [None] * 6
        self.sent = [0] * 6
        self.rcvd = [0] * 6

    def quiet(self):
        return all(x is not None for x in self.init_rx)

    def on_tx_tlp(self, d, tlp, rec, now):
        if d.idx == 1:
            self.sent[2*rec.cls] += 1
            self.sent[2*rec.cls+1] += rec.dc

    def on_rx_tlp(self, d, tlp, repeated, now):
        if d.idx == 0 and not repeated:
            rec = Rec(tlp, now)
            self.rcvd[2*rec.cls] += 1
            self.rcvd[2*rec.cls+1] += rec.dc

    def note(self, p, first, cur):
        t = int(p.type)
        hi, c = t & 0xf0, {0x00: 0, 0x10: 1, 0x20: 2}.get(t & 0x30)
        if c is None or hi & 0xc0 == 0:
            return
        for j, v in ((2*c, p.hdr_fc), (2*c+1, p.data_fc)):
            if first[j] is None:
                first[j] = v
            cur[j] = v

    def on_tx_dllp(self, d, p, now):
        if d.idx == 1 and self.isfc(p):
            self.note(p, self.adv0, self.adv)

    def on_rx_dllp(self, d, p, now):
        if d.idx == 0 and self.isfc(p):
            self.note(p, self.init_rx, self.lim)

    @staticmethod
    def isfc(p):
        return int(p.type) & 0xc0 != 0

    def expect(self, sel, i):
        rng = 4096 if i % 2 else 256
        if not (self.adv0 if sel < 4 else self.init_rx)[i]:
            return None              # unlimited: not counted
        if sel == 0:
            return self.adv0[i]      # in a quiet system everything received has been released
        if sel == 1:
            return self.adv0[i] + self.rcvd[i]
        if sel == 2:
            return self.rcvd[i]
        if sel == 4:
            return self.lim[i] - self.sent[i]
        if sel == 5:
            return self.lim[i]
        if sel == 6:
            return self.sent[i]


def run(plan):
    return Engine(plan).run()


# ---------------------------------------------------------------------------------------------

def gen_spec(rng, model, prop):
    conf = rng.choice(CONFIGS[model])
    spec = {"model": model, "conf": list(conf)}
    wide = conf[2] == 512
    pf = spec["pf"] = rng.choice([1, 1, 1, 2, 4] if model != "us" else [1, 1, 2])
    if prop in ("P27", "P28") and rng.random() < 0.6:
        pf = spec["pf"] = rng.choice([2, 3, 4]) if model != "us" else 2
    if model == "us":
        if conf[2] == 256 and rng.random() < 0.5:
            spec["straddle"] = [0, 0, 0, 2]
    elif model == "usp":
        st = [0, 0, 0, 0]
        if wide:
            st = [2 * (rng.random() < 0.5), 2 * (rng.random() < 0.5), 2 * (rng.random() < 0.5), rng.choice([0, 2, 4])]
        elif conf[2] == 256:
            st[3] = rng.choice([0, 2])
        spec["straddle"] = st
    pause = {}
    for j in range(8 if model in XIL else 4):
        if rng.random() < 0.35:
            pause[str(j)] = [rng.choice([0.1, 0.3, 0.5, 0.8]), rng.choice([1, 2, 5, 15])]
    spec["pause"] = pause
    spec["ext"] = int(rng.random() < 0.5)
    spec["mpss"] = rng.choice([0, 1, 1, 2, 3])
    spec["think"] = rng.choice([0, 0, 20, 200, 1500])
    omit = []
    if model in XIL:
        spec["client_tag"] = int(rng.random() < (0.3 if prop == "P25" else 0.6))
        m = rng.random()
        if m < 0.2 and prop != "P25":
            omit.append("np")
        else:
            spec["np"] = {"p": rng.choice([1.0, 0.5, 0.1, 0.03])}
            if rng.random() < 0.5:
                spec["np"]["ahead"] = rng.choice([1, 2, 4, 20])
    else:
        if rng.random() < 0.3:
            omit.append("vf")
        if rng.random() < 0.3:
            omit.append("par")
        if model == "s10":
            spec["l_tile"] = int(rng.random() < 0.4)
    if prop not in ("P28",) and rng.random() < 0.3:
        omit += [o for o in ("mgmt",) if model in XIL]
    if prop not in ("P27", "P28") and rng.random() < 0.3 and model in XIL:
        omit.append("int")
    spec["omit"] = omit
    if rng.random() < 0.4:
        spec["tags"] = rng.choice([1, 2, 4, 16])
    if rng.random() < 0.3:
        spec["room"] = rng.choice([8, 20])
    irq = []
    for i in range(pf):
        m = {}
        if rng.random() < 0.75:
            m["msi"] = rng.choice([1, 2, 4, 8, 16, 32])
            m["use"] = "msi"
        if rng.random() < 0.5:
            m["msix"] = {"size": rng.choice([1, 2, 4, 8])}
            if m.get("use") is None or rng.random() < 0.5:
                m["use"] = "msix"
        if rng.random() < 0.2:
            m.pop("use", None)
        irq.append(m)
    spec["irq"] = irq
    return spec


def gen_fn(rng, m, io_ok):
    bars = []
    room = 6
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["m32", "m32", "m32p", "m64", "m64p", "io"] if io_ok else ["m32", "m32p", "m64", "m64p"])
        need = 2 if kind.startswith("m64") else 1
        if need > room:
            continue
        room -= need
        bars.append({"kind": kind, "size": rng.choice([16, 64, 128, 256]) if kind == "io" else rng.choice([128, 256, 1024, 4096, 8192])})
    if m.get("msix"):
        # the vector table needs a memory BAR
        idx = 0
        for b in bars:
            if b["kind"] != "io":
                break
            idx += 1
        else:
            if room < 1:
                bars.pop()
                idx = sum(2 if b["kind"].startswith("m64") else 1 for b in bars)
            bars.append({"kind": "m32", "size": 4096})
            b = bars[-1]
            idx = sum(2 if x["kind"].startswith("m64") else 1 for x in bars[:-1])
        b["size"] = max(b["size"], 4096)
        n = m["msix"]["size"]
        off = rng.choice([0, 0x400, b["size"] - 0x800])
        m["msix"].update(bar=idx, off=off, pba=off + 0x400)
        b["taken"] = [off, off + 16 * n]
    return {"bars": bars}


def gen(prop, rng, tier, index):
    if prop == "P26":
        model = rng.choice(["s10", "ptile"])
    elif prop in ("P24", "P25"):
        model = rng.choice(["us", "usp", "usp"])
    elif prop == "P27":
        model = rng.choice(["us", "usp", "usp", "s10", "s10", "ptile"])
    elif prop == "P28":
        model = rng.choice(["us", "usp", "usp", "s10", "s10", "ptile"])
    else:
        model = rng.choice(["us", "usp", "usp", "s10", "ptile"])
    cfg = {"seed": rng.getrandbits(32), "rc": {}}
    spec = gen_spec(rng, model, prop)
    per = int(1e9 / (spec["conf"][3] * 1e6))
    cfg["precision"] = rng.choice([-12, -11, -10] if per % 2 else [-12, -12, -11, -10, -9])
    rc = cfg["rc"]
    if rng.random() < 0.5:
        rc["mpss"] = rng.randrange(6)
    if rng.random() < 0.3:
        rc["rcb"] = 1
    if rng.random() < 0.3:
        rc["split"] = 1
    nodes = cfg["nodes"] = []
    if rng.random() < 0.3:
        nodes.append({"parent": -1, "type": "sw"})
    main = len(nodes)
    cfg["main"] = main
    nodes.append({"parent": main - 1 if main else -1, "type": "hw", "spec": spec, "fns": [gen_fn(rng, m, True) for m in spec["irq"]]})
    if rng.random() < 0.3:
        for f in nodes[main]["fns"]:
            f["mrrs"] = rng.randrange(4)
    for n in nodes:
        n["delay"] = rng.choice([5, 5, 0, 40, 300])
        n["pdelay"] = rng.choice([5, 5, 0, 40])
        if n["type"] == "sw":
            n["speed"], n["width"] = rng.choice([3, 4, 5]), rng.choice([8, 16])
        if rng.random() < 0.3:
            n["pfc"] = sysgen.gen_fc(rng, "sw", 256)
    cfg["hostmem"] = [{"addr": None if rng.random() < 0.5 else 0x1_2345_0000 + 0x10000 * j if rng.random() < 0.5 else 0x9000_0000 + 0x10000 * j,
        "size": rng.choice([4096, 8192, 16384]), "slow": rng.choice([0, 0, 100, 2000])} for j in range(rng.choice([1, 2]))]
    cfg["hostio"] = [{"addr": None, "size": 256}]
    cfg["bads"] = []
    ops = []
    mode = {"P27": "irq", "P28": "cfg", "P29": "reset"}.get(prop, "traffic")
    hostsz = [h["size"] for h in cfg["hostmem"]]
    nact = rng.choice([1, 2, 3, 4])
    nops = {"traffic": rng.choice([4, 10, 20, 40]), "irq": rng.choice([0, 3, 10]), "cfg": rng.choice([0, 0, 4]), "reset": rng.choice([0, 2, 5])}[mode]
    if prop == "P25":
        mix = ["dr"] * 8 + ["hr"] * 5 + ["dw", "hw", "dw", "disc", "rogue", "rogue"]
    else:
        mix = ["hw"] * 4 + ["hr"] * 4 + ["dw"] * 4 + ["dr"] * 4 + ["disc", "hbad", "dbad", "clk"]
    fault_free = rng.random() < 0.3

    def cut(size, a, rng):
        lo = size * a // nact
        hi = size * (a + 1) // nact
        ln = min(rng.choice([0, 1, 2, 3, 4, 5, 8, 16, 60, 64, 128, 200, 256, 600, 1500, 4096]), hi - lo)
        off = lo + rng.randrange(hi - lo - ln + 1)
        if rng.random() < 0.3 and off % 64 and off - off % 64 >= lo:
            off -= off % 64
        return min(off, size - 1) if not ln else off, ln
    fns = nodes[main]["fns"]
    for _ in range(nops):
        a = rng.randrange(nact)
        k = rng.choice(mix)
        f = rng.randrange(spec["pf"])
        op = {"k": k, "a": a, "node": main, "f": f, "gap": rng.choice([0, 0, 0, 20, 300])}
        if k in ("hw", "hr"):
            b = rng.randrange(len(fns[f]["bars"]))
            bar = fns[f]["bars"][b]
            op["b"] = b
            op["off"], op["len"] = cut(bar["size"], a, rng)
            if bar["kind"] == "io":
                op["len"] = min(max(op["len"], 1), 12)
                op["off"] = min(op["off"], bar["size"] * (a + 1) // nact - op["len"])
                if op["off"] < bar["size"] * a // nact:
                    continue
            t = bar.get("taken")
            if t and k == "hw" and op["off"] < t[1] and t[0] < op["off"] + max(op["len"], 1):
                op["k"] = "hr"
            op["qos"] = rng.random() < 0.3
        elif k in ("dw", "dr", "disc"):
            if k == "disc" and (model not in XIL or spec.get("straddle", [0] * 4)[2]):
                continue             # one flag per beat: packets that share a beat with a discontinued one are lost with it
            op["h"] = rng.randrange(len(hostsz))
            op["off"], op["len"] = cut(hostsz[op["h"]], a, rng)
            if k == "disc":
                op["len"] = max(op["len"], 1)
            op["qos"] = rng.random() < 0.3
            op["wait"] = rng.random() < 0.5
            if k == "dr":
                op["par"] = rng.random() < 0.7
            if k != "disc" and rng.random() < 0.08:
                op["io"] = 1
                op["off"], op["len"] = 64 * a + rng.randrange(50), rng.choice([1, 2, 4, 7])
                op["h"] = 0
                op["qos"] = False
        elif k == "hbad":
            bl = [i for i, b in enumerate(fns[f]["bars"]) if b["kind"] != "io" and not b.get("taken")]
            if not bl or fault_free:
                continue
            b = rng.choice(bl)
            bar = fns[f]["bars"][b]
            idx = sum(2 if x["kind"].startswith("m64") else 1 for x in fns[f]["bars"][:b])
            if any(x[0] == main and x[1] == f and x[2] == idx for x in cfg["bads"]) or any(o.get("b") == b and o["f"] == f and o["k"] in ("hr", "hw") for o in ops):
                continue
            cfg["bads"].append([main, f, idx, 0, bar["size"], rng.choice(["CA", "UR"])])
            op["b"] = b
            op["off"] = rng.randrange(bar["size"] - 4)
            op["len"] = rng.choice([1, 4])
        elif k == "dbad":
            if fault_free:
                continue
            op["h"] = 0
            op["off"] = 0
            op["addr"] = rng.choice([0x7_0000_0000, 0xf000_0000]) + rng.randrange(0x8000)
            op["len"] = rng.choice([1, 4, 100, 300])
        elif k == "clk":
            if fault_free:
                continue
            op["ns"] = rng.choice([10, 100, 2000])
        elif k == "rogue":
            if fault_free:
                continue
            op["how"] = rng.choice(["tag", "mismatch", "mismatch"])
        ops.append(op)
    # BARs that refuse requests are not used otherwise
    badset = {(x[1], x[2]) for x in cfg["bads"]}

    def bidx(f, b):
        return sum(2 if x["kind"].startswith("m64") else 1 for x in fns[f]["bars"][:b])
    ops = [o for o in ops if not (o["k"] in ("hw", "hr") and (o["f"], bidx(o["f"], o["b"])) in badset)]
    for o in ops:
        if o["k"] == "hbad":
            x = next(x for x in cfg["bads"] if x[1] == o["f"] and x[2] == bidx(o["f"], o["b"]))
            x[3], x[4] = 0, fns[o["f"]]["bars"][o["b"]]["size"]
    if prop == "P27" or (prop in ("P24", "P26") and rng.random() < 0.25 and "int" not in spec["omit"]):
        cfg["irqs"] = 1
        for a in range(rng.choice([1, 2, 4])):
            for _ in range(rng.choice([2, 5, 12]) if prop == "P27" else 3):
                ops.append({"k": "irq", "a": 100 + a, "node": main, "f": rng.randrange(spec["pf"]), "bad": rng.random() < 0.15, "settle": rng.random() < 0.2,
                    "gap": rng.choice([0, 0, 50, 500])})
    if prop == "P28":
        cfg["probes"] = rng.choice([1, 2, 3])
        if "int" not in spec["omit"] and rng.random() < 0.3:
            cfg["irqs"] = 1
        for a in range(rng.choice([0, 1, 2, 4])):
            cells = rng.sample(["line", "cache", "msi_mask", "aer_unc_mask", "aer_sev", "aer_cor_mask", "msi_addr", "msi_data"], 2)
            # each register has one owner at a time
            used = {(o["f"], o["cell"]) for o in ops if "cell" in o}
            f = rng.randrange(spec["pf"])
            cells = [c for c in cells if (f, c) not in used and not any(o.get("cell") and o["f"] == f for o in ops)]
            for _ in range(rng.choice([3, 8])):
                if not cells:
                    break
                ks = ["cfg_w", "cfg_r"] + (["mgmt_w", "mgmt_w", "mgmt_r"] if model in XIL else [])
                ops.append({"k": rng.choice(ks), "a": 200 + a, "node": main, "f": f, "cell": rng.choice(cells), "gap": rng.choice([0, 0, 40])})
    if prop == "P29":
        us = model in XIL
        steps = []
        b = {"reset": 1, "cse": 1}
        decline = us and "cse" not in spec["omit"] and rng.random() < 0.5
        # once it has answered a configuration request, a device stays ready: it is reset again
        # and again only while it has not been allowed to answer yet
        n = rng.choice([0, 1, 1, 2, 3]) if decline or not us else 1
        for _ in range(n):
            if not steps:
                b["reset"] = 0
            else:
                steps.append(["reset", 0])
            steps += [["clk", rng.choice([8, 20, 60])], ["reset", 1], ["ns", rng.choice([20, 60, 90, 130, 400])], ["clk", 4]]
        if decline:
            b["cse"] = 0
            steps += [["clk", 60]]
            if rng.random() < 0.5:
                steps += [["gate", 1], ["ns", rng.choice([5_000, 20_000, 70_000, 600_000])], ["gate", 0]]
            steps += [["clk", 8], ["cse", 1], ["clk", 8]]
        cfg["boot"] = {str(main): dict(b, steps=steps)} if steps else {}
        if us and rng.random() < 0.6:
            cfg["crs"] = [{"node": main, "f": rng.randrange(spec["pf"]), "how": rng.choice(["cse", "reset"])} for _ in range(rng.choice([1, 2]))]
    elif rng.random() < 0.1:
        cfg["gate"] = False
    faults = []
    if not fault_free:
        for _ in range(rng.choice([0, 2, 5])):
            f = sysgen.gen_fault(rng, len(nodes))
            f["ph"] = 1
            if "ns" in f:
                f["ns"] = min(f["ns"], 2000)
            if f.get("what") == "init":
                f["what"] = "update"
            faults.append(f)
        if rng.random() < 0.3:
            cfg["jitter"] = {"ns": rng.choice([1, 10, 100]), "seed": rng.getrandbits(32)}
    fcpl = []
    if model in XIL and not fault_free and rng.random() < (0.6 if prop == "P25" else 0.15):
        for _ in range(rng.choice([1, 2, 4])):
            fcpl.append({"node": main, "n": rng.randrange(25), "how": rng.choice(["poison", "addr", "nodata"])})
    sched = {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}
    return {"engine": "hwmodel", "prop": prop, "cfg": cfg, "ops": ops, "faults": faults, "faults_cpl": fcpl, "sched": sched}


def simplify(plan):
    def var(fn):
        p = copy.deepcopy(plan)
        if fn(p) is not False:
            return p
    cfg = plan["cfg"]
    spec = cfg["nodes"][cfg["main"]]["spec"]
    out = []
    for i in range(len(plan.get("faults_cpl", []))):
        out.append(var(lambda p: p["faults_cpl"].pop(i)))
    for k in list(spec.get("pause", {})):
        out.append(var(lambda p: p["cfg"]["nodes"][cfg["main"]]["spec"]["pause"].pop(k)))
    for k in ("think", "room", "tags"):
        if spec.get(k):
            out.append(var(lambda p: p["cfg"]["nodes"][cfg["main"]]["spec"].pop(k)))
    for k in ("jitter", "crs", "probes", "irqs"):
        if cfg.get(k):
            out.append(var(lambda p: p["cfg"].pop(k)))
    for i, op in enumerate(plan["ops"]):
        if op.get("len", 0) > 1:
            for n in (1, op["len"] // 2):
                out.append(var(lambda p: p["ops"][i].__setitem__("len", n)))
        if op.get("gap"):
            out.append(var(lambda p: p["ops"][i].__setitem__("gap", 0)))
        if op.get("qos"):
            out.append(var(lambda p: p["ops"][i].__setitem__("qos", False)))
    yield from (x for x in out if x)
