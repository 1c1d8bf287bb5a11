"""Enumeration of arbitrary trees: what the host finds (P14) and the resources it assigns (P15)."""
import copy
import random

from dsim import kernel
import cocotb
from cocotb.triggers import Event, Timer, First

from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.bridge import RootPort, SwitchDownstreamPort, SwitchUpstreamPort
from cocotbext.pcie.core.caps import MsiCapability, MsixCapability
from cocotbext.pcie.core.utils import PcieId

from dsim.link import LinkTap, Observer
from dsim.outcome import Outcome
from dsim.system import BAR_KIND
from dsim.wire import MRD, MWR

HOST = 0x9000_0000


class Thing:
    """One function or bridge the harness built."""

    def __init__(self, what, obj, spec, path, devnum, fnnum):
        self.what = what
        self.obj = obj
        self.spec = spec
        self.path = path          # bridges above, outermost first (bridge Things)
        self.devnum = devnum      # expected device and function number; None: any
        self.fnnum = fnnum
        self.bars = []            # (index, kind, size, memory)
        self.rom = spec.get("rom") or 0
        self.children = []
        self.dev = None

    def __repr__(self):
        return f"{self.what} {self.obj.vendor_id:04x}:{self.obj.device_id:04x}"


class IdWatch(Observer):
    """Requester IDs of memory requests, by address."""

    def __init__(self):
        self.who = {}

    def on_tx_tlp(self, d, tlp, rec, now):
        if rec.ft in MRD or rec.ft in MWR:
            self.who.setdefault(rec.address & ~0x3f, set()).add(tuple(rec.requester_id))


class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.out = Outcome()
        self.stats = self.out.stats

    def bad(self, prop, kind, msg):
        self.out.violation(prop, kind, msg)

    # -- construction ------------------------------------------------------
    def dress(self, ep, spec, what, path, devnum, fnnum, memory=True):
        self.nid += 1
        ep.vendor_id = 0x1234
        ep.device_id = 0x1000 + self.nid
        ep.revision_id = self.nid & 0xff
        if what == "fn":
            ep.class_code = 0x020000 + self.nid
            ep.subsystem_vendor_id = 0x4321
            ep.subsystem_id = self.nid
        t = Thing(what, ep, spec, path, devnum, fnnum)
        if spec.get("rom"):
            ep.expansion_rom_addr_mask = 0xffffffff & ~(spec["rom"] - 1)
        if spec.get("mpss") is not None:
            ep.pcie_cap.max_payload_size_supported = spec["mpss"]
        idx = 0
        for b in spec.get("bars", []):
            idx += b.get("skip", 0)
            ext, pf, io = BAR_KIND[b["kind"]]
            mem = None
            if memory:
                ep.bar_ptr = idx
                mem = bytearray(64)

                # only the two ends of the range are backed by storage
                def mk(mem, size):
                    def at(a):
                        return a if a < 32 else 32 + a - (size - 32)

                    async def rd(a, n):
                        return bytes(mem[at(a):at(a)+n])

                    async def wr(a, d):
                        mem[at(a):at(a)+len(d)] = bytes(d)
                    return rd, wr
                ep.add_region(b["size"], *mk(mem, b["size"]), ext, pf, io)
            else:
                ep.configure_bar(idx, b["size"], ext, pf, io)
            t.bars.append((idx, b["kind"], b["size"], mem))
            idx += 2 if ext else 1
        if spec.get("msi"):
            ep.register_capability(MsiCapability())
        if spec.get("msix"):
            ep.register_capability(MsixCapability())
        self.things.append(t)
        for p in path:
            p.children.append(t)
        return t

    def link(self, bridge, port_owner, port, spec):
        br = bridge
        up = br.downstream_port
        if spec.get("speed"):
            port.max_link_speed = spec["speed"]
        if spec.get("width"):
            port.max_link_width = spec["width"]
        port.port_delay = spec.get("delay", 5) * 1e-9
        i = len(self.taps)
        tap = LinkTap(self.k, f"L{i}", up, port, faults=[f for f in self.plan["faults"] if f["link"] == i],
            jitter=self.plan["cfg"].get("jitter"), fired=self.out.faults)
        tap.observers.append(self.ids)
        self.taps.append(tap)
        if spec.get("rev"):
            port_owner.connect(up)
        else:
            br.connect(port_owner)

    def node(self, parent, spec, path):
        """Attach one device or switch below `parent` (a Switch or the root complex)."""
        br = parent.make_port()
        root = parent is self.rc
        bt = self.dress(br, spec.get("port", {}), "root port" if root else "downstream port", path, br.pcie_id.device, 0, memory=False)
        below = path + [bt]
        if spec["type"] == "dev":
            dev = Device()
            for f in spec["fns"]:
                ep = MemoryEndpoint()
                ep.pcie_id = PcieId(0, 0, f["num"])
                dev.add_function(ep)
                self.dress(ep, f, "fn", below, 0, f["num"])
            self.link(br, dev, dev.upstream_port, spec)
        else:
            sw = Switch()
            if spec.get("mpss") is not None:
                sw.upstream_bridge.pcie_cap.max_payload_size_supported = spec["mpss"]
            ut = self.dress(sw.upstream_bridge, spec.get("up", {}), "upstream port", below, 0, 0, memory=False)
            self.link(br, sw, sw.upstream_bridge.upstream_port, spec)
            self.inner(sw, spec, below + [ut])

    def inner(self, sw, spec, path):
        for c in spec["kids"]:
            self.node(sw, c, path)

    # -----------------------------------------------------------------------
    async def main(self, k):
        plan, cfg = self.plan, self.plan["cfg"]
        self.k = k
        self.ps = 10.0 ** (-9 - k.precision)
        self.things = []
        self.taps = []
        self.ids = IdWatch()
        self.nid = 0
        rc = self.rc = RootComplex()
        self.inner(rc, {"kids": cfg["tree"]}, [])
        region = rc.mem_address_space
        from cocotbext.axi import MemoryRegion
        self.host = MemoryRegion(64 * 256)
        region.register_region(self.host, HOST)
        if cfg.get("boot_delay"):
            await Timer(int(cfg["boot_delay"] * self.ps), "step")
        done = []
        ev = Event()

        async def go():
            await rc.enumerate(timeout=cfg.get("timeout", 2_000_000), timeout_unit="ns")
            done.append(1)
            ev.set()
        cocotb.start_soon(go())
        await First(ev.wait(), Timer(int((5e6 + 3e6 * len(self.things)) * self.ps), "step"))
        if not done:
            self.bad("P14", "stuck", "enumeration did not finish")
            return
        self.stats["functions"] += len(self.things)
        self.stats["enumeration_ns"] = int(k.time / self.ps)
        if not self.check_tree():
            return
        await self.check_regs()
        self.check_ranges()
        if not self.out.violations:
            await self.check_use()

    # -- P14 ---------------------------------------------------------------
    def check_tree(self):
        rc = self.rc
        found = {}
        buses = []

        def scan(bus, path):
            buses.append(bus)
            for d in bus.devices:
                if (d.vendor_id, d.device_id) in found:
                    self.bad("P14", "twice", f"{d.vendor_id:04x}:{d.device_id:04x} was recorded at {found[(d.vendor_id, d.device_id)][0].pcie_id} and {d.pcie_id}")
                found[(d.vendor_id, d.device_id)] = (d, path, bus)
                if d.subordinate is not None:
                    scan(d.subordinate, path + [d])
        scan(rc.host_bridge.bus, [])
        ok = True
        for t in self.things:
            key = (t.obj.vendor_id, t.obj.device_id)
            if key not in found:
                self.bad("P14", "missing", f"{t} was not found")
                ok = False
                continue
            d, path, bus = found.pop(key)
            t.dev = d
            want = [(p.obj.vendor_id, p.obj.device_id) for p in t.path]
            got = [(p.vendor_id, p.device_id) for p in path]
            if want != got:
                self.bad("P14", "place", f"{t} was recorded below {got}, is below {want}")
                ok = False
        for key, (d, path, bus) in found.items():
            self.bad("P14", "phantom", f"{key[0]:04x}:{key[1]:04x} recorded at {d.pcie_id} does not exist")
            ok = False
        if not ok:
            return False
        nums = [b.bus_num for b in buses]
        if len(set(nums)) != len(nums) or any(not 0 <= n <= 255 for n in nums):
            self.bad("P14", "bus_numbers", f"bus numbers are not distinct: {nums}")
        ids = {}
        for t in self.things:
            d = t.dev
            me = tuple(d.pcie_id)
            if me in ids:
                self.bad("P14", "same_id", f"{t} and {ids[me]} are both recorded at {d.pcie_id}")
            ids[me] = t
            if tuple(t.obj.pcie_id) != me:
                self.bad("P14", "own_id", f"{t} is recorded at {d.pcie_id} but uses {t.obj.pcie_id} as its own ID")
            if d.pcie_id.device != t.devnum or d.pcie_id.function != t.fnnum:
                self.bad("P14", "number", f"{t} is device {t.devnum} function {t.fnnum} but is recorded at {d.pcie_id}")
            if d.bus.bus_num != d.pcie_id.bus:
                self.bad("P14", "bus_of", f"{t} at {d.pcie_id} is recorded on bus {d.bus.bus_num}")
            if t.what == "fn":
                if (d.class_code, d.revision_id, d.subsystem_vendor_id, d.subsystem_id) != \
                        (t.obj.class_code, t.obj.revision_id, t.obj.subsystem_vendor_id, t.obj.subsystem_id):
                    self.bad("P14", "identity", f"{t}: class, revision or subsystem recorded wrongly")
                if d.is_bridge():
                    self.bad("P14", "header", f"{t} was recorded as a bridge")
            elif not d.is_bridge():
                self.bad("P14", "header", f"{t} was not recorded as a bridge")
            if self.rc.find_device(d.pcie_id) is not d:
                self.bad("P14", "find", f"find_device({d.pcie_id}) does not return {t}")
        return True

    # -- P14 and P15: what the registers say -------------------------------------
    async def check_regs(self):
        rc = self.rc

        async def rd(d, off):
            return int.from_bytes(await rc.config_read(d.pcie_id, off, 4), "little")
        for t in self.things:
            d = t.dev
            v = await rd(d, 0)
            if v != t.obj.vendor_id | t.obj.device_id << 16:
                self.bad("P14", "answers", f"{t} is recorded at {d.pcie_id}, where {v:#010x} answers")
                continue
            t.ranges = []          # (what, io, prefetchable window, address, size)
            for idx, kind, size, mem in t.bars:
                lo = await rd(d, 0x10 + 4 * idx)
                ext, pf, io = BAR_KIND[kind]
                flags = 1 if io else (4 if ext else 0) | (8 if pf else 0)
                addr = lo & (~3 if io else ~15) & 0xffffffff
                if lo & (3 if io else 15) != flags:
                    self.bad("P15", "flags", f"{t} BAR{idx} reads {lo:#x}, kind {kind}")
                if ext:
                    addr |= await rd(d, 0x14 + 4 * idx) << 32
                if d.bar_addr[idx] != addr:
                    self.bad("P15", "reported", f"{t} BAR{idx} is at {addr:#x}, the host reports {d.bar_addr[idx]}")
                if d.bar_size[idx] != size:
                    self.bad("P15", "size", f"{t} BAR{idx} has size {size:#x}, the host reports {d.bar_size[idx]}")
                t.ranges.append((f"BAR{idx}", "io" if io else "pf" if ext and pf else "mem", addr, size))
            used = {i for idx, kind, *_ in t.bars for i in ((idx, idx + 1) if BAR_KIND[kind][0] else (idx,))}
            for idx in range(6 if t.what == "fn" else 2):
                if idx not in used and d.bar_addr[idx] is not None:
                    self.bad("P15", "unimplemented", f"{t}: unimplemented BAR{idx} was given {d.bar_addr[idx]:#x}")
            if t.rom:
                v = await rd(d, 0x30 if t.what == "fn" else 0x38) & 0xfffff800
                if d.expansion_rom_addr != v or d.expansion_rom_size != t.rom:
                    self.bad("P15", "rom", f"{t}: expansion ROM of {t.rom:#x} at {v:#x}, the host reports {d.expansion_rom_size} at {d.expansion_rom_addr}")
                t.ranges.append(("ROM", "mem", v, t.rom))
            if t.what != "fn":
                b = await rd(d, 0x18)
                pri, sec, sub = b & 255, b >> 8 & 255, b >> 16 & 255
                below = {c.dev.pcie_id.bus for c in t.children} | {sec}
                below |= {c.dev.subordinate.bus_num for c in t.children if c.what != "fn"}
                if pri != d.pcie_id.bus or d.subordinate is None or d.subordinate.bus_num != sec or below != set(range(sec, sub + 1)):
                    self.bad("P14", "bus_range", f"{t} at {d.pcie_id} has primary {pri} secondary {sec} subordinate {sub}; buses below are {sorted(below)}")
                io = await rd(d, 0x1c)
                iou = await rd(d, 0x30)
                mem = await rd(d, 0x20)
                pf = await rd(d, 0x24)
                pb, pl = await rd(d, 0x28), await rd(d, 0x2c)
                t.win = {"io": (iou << 16 & 0xffff0000 | (io & 0xf0) << 8, (iou & 0xffff0000) | io & 0xf000 | 0xfff),
                    "mem": ((mem & 0xfff0) << 16, mem & 0xfff00000 | 0xfffff),
                    "pf": (pb << 32 | (pf & 0xfff0) << 16, pl << 32 | pf & 0xfff00000 | 0xfffff)}
                rep = {"io": (d.io_base, d.io_limit), "mem": (d.mem_base, d.mem_limit), "pf": (d.prefetchable_mem_base, d.prefetchable_mem_limit)}
                for w, (a, e) in t.win.items():
                    # an empty window may be reported in any form that is empty
                    if (a, e) != rep[w] and (a <= e or rep[w][0] <= rep[w][1]):
                        self.bad("P15", "window_reported", f"{t}: {w} window is {a:#x}-{e:#x}, the host reports {rep[w][0]:#x}-{rep[w][1]:#x}")

    def check_ranges(self):
        allr = []
        for t in self.things:
            if not hasattr(t, "ranges"):
                return
            for what, kind, addr, size in t.ranges:
                self.stats["ranges"] += 1
                n = f"{t} {what} {addr:#x}+{size:#x}"
                if addr % size:
                    self.bad("P15", "alignment", f"{n} is not aligned")
                top = 1 << 64 if kind == "pf" else 1 << 32
                base = {"io": self.rc.io_base, "mem": self.rc.mem_base, "pf": self.rc.prefetchable_mem_base}[kind]
                if not (base <= addr and addr + size <= top):
                    self.bad("P15", "space", f"{n} is outside the host's {kind} space")
                for b in t.path:
                    lo, hi = b.win[kind]
                    if not (lo <= addr and addr + size - 1 <= hi):
                        self.bad("P15", "outside_window", f"{n} is not inside the {kind} window {lo:#x}-{hi:#x} of {b}")
                allr.append((kind == "io", addr, addr + size, n, t, kind))
        allr.sort(key=lambda x: x[:3])
        for a, b in zip(allr, allr[1:]):
            if a[0] == b[0] and b[1] < a[2]:
                self.bad("P15", "overlap", f"{a[3]} overlaps {b[3]}")
        # windows of bridges that are not above one another, and ranges that are not below a bridge
        br = [t for t in self.things if t.what != "fn"]
        for i, a in enumerate(br):
            for w, (lo, hi) in a.win.items():
                if lo > hi:
                    continue
                self.stats["windows"] += 1
                for b in br[i+1:]:
                    if a in b.path or b in a.path:
                        continue
                    for w2, (l2, h2) in b.win.items():
                        if l2 <= h2 and (w == "io") == (w2 == "io") and lo <= h2 and l2 <= hi:
                            self.bad("P15", "windows_overlap", f"{w} window {lo:#x}-{hi:#x} of {a} overlaps {w2} window {l2:#x}-{h2:#x} of {b}")
                for io, s, e, n, t, kind in allr:
                    if io == (w == "io") and s <= hi and lo < e and a not in t.path:
                        self.bad("P15", "in_foreign_window", f"{n} lies in the {w} window {lo:#x}-{hi:#x} of {a}, which is not above it")
            for b in a.path:
                for w, (lo, hi) in a.win.items():
                    l2, h2 = b.win[w]
                    if lo <= hi and not (l2 <= lo and hi <= h2):
                        self.bad("P15", "window_nesting", f"{w} window {lo:#x}-{hi:#x} of {a} is not inside that of {b}, {l2:#x}-{h2:#x}")

    # -- use it -----------------------------------------------------------------
    async def check_use(self):
        rng = random.Random(f"use:{self.plan['cfg']['seed']}")
        rc = self.rc
        fns = [t for t in self.things if t.what == "fn"]
        for t in fns:
            await t.dev.enable_device()
            await t.dev.set_master()
        rng.shuffle(fns)

        async def one(t, j):
            for idx, kind, size, mem in t.bars:
                w = t.dev.bar_window[idx]
                for off in (0, size - 4):
                    d = rng.randbytes(4)
                    await w.write(off, d)
                    g = bytes(await w.read(off, 4))
                    if g != d:
                        self.bad("P15", "not_reached", f"{t} BAR{idx} of {size:#x} bytes: read back {g.hex()} after writing {d.hex()} at {off:#x}")
                        return
                    m = off if off < 32 else 32 + off - (size - 32)
                    if bytes(mem[m:m+4]) != d:
                        self.bad("P15", "not_reached", f"{t} BAR{idx}: a host write at {off:#x} did not reach the device")
                        return
                    self.stats["bar_probes"] += 1
            a = HOST + 64 * j
            d = rng.randbytes(32)
            await t.obj.mem_write(a, d)
            g = bytes(await t.obj.mem_read(a, 32))
            if g != d or bytes(self.host[64*j:64*j+32]) != d:
                self.bad("P14", "dma", f"{t}: data written to host memory reads back wrong")
            self.stats["dma_probes"] += 1
        left = []
        ev = Event()

        async def run(t, j):
            await one(t, j)
            left.append(j)
            ev.set()
        jobs = fns[:200]
        for j, t in enumerate(jobs):
            cocotb.start_soon(run(t, j))
        lim = Timer(int(3e7 * self.ps), "step")
        while len(left) < len(jobs):
            ev.clear()
            r = await First(ev.wait(), lim)
            if r is lim or (not ev.is_set() and len(left) < len(jobs)):
                self.bad("P14", "stuck", "accesses to enumerated devices do not finish")
                return
        for j, t in enumerate(jobs):
            ids = self.ids.who.get(HOST + 64 * j, set())
            if ids - {tuple(t.dev.pcie_id)}:
                self.bad("P14", "requester", f"{t}, recorded at {t.dev.pcie_id}, issues requests as {ids}")

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=plan["cfg"]["precision"], max_time_ns=5e10,
            max_events=12_000_000, rng_seed=plan["cfg"]["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


def run(plan):
    return Engine(plan).run()


# ---------------------------------------------------------------------------------------------

class Budget:
    """Space still free in the host's windows; the alignment loss is allowed for."""

    def __init__(self):
        self.mem = 0x3000_0000
        self.io = 0x0800_0000
        self.things = 0

    def mem_size(self, rng, lo):
        n = rng.choice([lo, 64, 128, 256, 4096, 4096, 65536, 1 << 20, 1 << 21, 1 << rng.randrange(6, 27)])
        n = max(n, lo)
        if n * 2 + (1 << 20) > self.mem:
            n = lo
        self.mem -= 2 * n
        return n


def gen_bars(rng, bud, slots, dense):
    bars = []
    used = 0
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if not dense else 6):
        kind = rng.choice(["m32", "m32", "m64p", "m64p", "m64", "m32p", "io"])
        skip = rng.choice([0, 0, 0, 0, 1])
        need = skip + (2 if kind in ("m64", "m64p") else 1)
        if used + need > slots:
            continue
        if kind == "io":
            size = 1 << rng.randrange(6, rng.choice([9, 9, 13, 17]))
            if size * 2 > bud.io:
                continue
            bud.io -= 2 * size
        elif kind == "m64p" and rng.random() < 0.7:
            size = 1 << rng.randrange(6, rng.choice([13, 24, 34, 44]))
        else:
            size = bud.mem_size(rng, 64)
        b = {"kind": kind, "size": size}
        if skip:
            b["skip"] = skip
        bars.append(b)
        used += need
    return bars


def gen_fn(rng, bud, num, dense):
    f = {"num": num, "bars": gen_bars(rng, bud, 6, dense)}
    if rng.random() < 0.25:
        f["rom"] = min(bud.mem_size(rng, 2048), 1 << 24)
        if f["rom"] < 2048:
            f["rom"] = 2048
    f["msi"] = rng.random() < 0.3
    f["msix"] = rng.random() < 0.2
    f["mpss"] = rng.choice([None, 0, 1, 3, 5])
    bud.things += 1
    return f


def gen_port(rng, bud, odd):
    p = {}
    if odd and rng.random() < 0.3:
        p["bars"] = gen_bars(rng, bud, 2, False)
    if odd and rng.random() < 0.2:
        p["rom"] = rng.choice([2048, 65536, 1 << 21])
        bud.mem -= 2 * p["rom"]
    return p


def gen_node(rng, bud, depth, style, timed):
    n = {"port": gen_port(rng, bud, style["odd"])}
    bud.things += 1
    bud.mem -= 1 << 20
    bud.io -= 4096
    if timed:
        n["speed"] = rng.randrange(1, 6)
        n["width"] = rng.choice([1, 2, 4, 8, 16])
    # an untimed link sends a link-layer packet every time step until it is initialised
    n["delay"] = rng.choice([0, 5, 5, 50, 500] if timed else [0, 5])
    n["rev"] = rng.random() < 0.4
    if depth > 0 and rng.random() < style["sw"] and bud.things < style["max"]:
        n["type"] = "sw"
        n["up"] = gen_port(rng, bud, style["odd"])
        n["mpss"] = rng.choice([None, None, 0, 2, 5])
        n["kids"] = gen_kids(rng, bud, depth - 1, style, timed, rng.choice(style["fan"]))
        bud.things += 1
    else:
        n["type"] = "dev"
        k = rng.choice([1, 1, 1, 1, 2, 3, 8])
        nums = [0] + sorted(rng.sample(range(1, 8), k - 1))
        n["fns"] = [gen_fn(rng, bud, x, rng.random() < style["dense"]) for x in nums]
    return n


def gen_kids(rng, bud, depth, style, timed, count):
    kids = []
    for _ in range(count):
        if bud.things >= style["max"]:
            break
        kids.append(gen_node(rng, bud, depth, style, timed))
    return kids


def gen(prop, rng, tier, index):
    bud = Budget()
    x = rng.random()
    style = {"sw": 0.45, "fan": [0, 1, 1, 2, 3, 4], "max": rng.choice([4, 6, 8, 14]), "odd": rng.random() < 0.5, "dense": rng.choice([0, 0.2, 0.8])}
    depth = rng.choice([0, 1, 2, 3])
    count = rng.choice([1, 1, 2, 3, 5])
    if x < 0.08:       # a long chain of switches
        depth = rng.choice([4, 7])
        style.update(sw=1.0, fan=[1], max=20)
        count = 1
    elif x < 0.14:     # many devices side by side
        style.update(sw=0.2, fan=[6, 9], max=rng.choice([14, 14, 36]))
        count = rng.choice([6, 10, 31])
    elif x < 0.145 and tier == "thorough":
        depth = 60
        style.update(sw=1.0, fan=[1], max=120)
        count = 1
    timed = rng.random() < 0.8
    cfg = {"seed": rng.getrandbits(32), "precision": rng.choice([-9, -10, -11, -12, -12] if timed else [-9, -10]), "tree": gen_kids(rng, bud, depth, style, timed, count)}
    if rng.random() < 0.4:
        cfg["jitter"] = {"seed": rng.getrandbits(32), "ns": rng.choice([1, 20, 200] if timed else [1, 20])}
    if rng.random() < 0.3:
        cfg["boot_delay"] = rng.choice([10, 300, 20000])
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        kind = rng.choice(["dllp_drop", "dllp_drop", "dllp_dup", "stall", "tlp_stall", "tlp_replay"])
        f = {"kind": kind, "link": rng.randrange(max(len(cfg["tree"]), 3)), "dir": rng.randrange(2), "n": rng.randrange(80)}
        if kind in ("stall", "tlp_stall"):
            f["ns"] = rng.choice([100, 3000, 30000])
        if kind == "dllp_drop":
            f["what"] = rng.choice(["update", "init", "ack"])
            f["n"] = rng.randrange(20)
        if kind == "tlp_replay":
            f["k"] = rng.choice([1, 1, 3])
        faults.append(f)
    return {"engine": "enumeration", "prop": prop, "cfg": cfg, "ops": [], "faults": faults,
        "sched": {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}}


def simplify(plan):
    """Smaller plans that might still fail."""
    def paths(kids, pre):
        for i, k in enumerate(kids):
            yield pre + [i]
            if "kids" in k:
                yield from paths(k["kids"], pre + [i])

    def at(p, path):
        kids = p["cfg"]["tree"]
        for i in path[:-1]:
            kids = kids[i]["kids"]
        return kids, path[-1]
    for i in range(len(plan["faults"])):
        p = copy.deepcopy(plan)
        del p["faults"][i]
        yield p
    allp = list(paths(plan["cfg"]["tree"], []))
    for path in allp:
        p = copy.deepcopy(plan)
        kids, i = at(p, path)
        del kids[i]
        yield p
    for path in allp:
        kids, i = at(plan, path)
        if kids[i].get("kids"):
            p = copy.deepcopy(plan)
            k2, i2 = at(p, path)
            k2[i2:i2+1] = k2[i2]["kids"]
            yield p
        for key in ("port", "up"):
            if kids[i].get(key):
                p = copy.deepcopy(plan)
                k2, i2 = at(p, path)
                k2[i2][key] = {}
                yield p
        specs = range(len(kids[i].get("fns", [])))
        for f in specs:
            if kids[i]["fns"][f]["num"]:
                p = copy.deepcopy(plan)
                k2, i2 = at(p, path)
                del k2[i2]["fns"][f]
                yield p
        for f in specs:
            src = kids[i]["fns"][f]
            for b in range(len(src["bars"])):
                p = copy.deepcopy(plan)
                k2, i2 = at(p, path)
                del k2[i2]["fns"][f]["bars"][b]
                yield p
            for key in ("rom", "msi", "msix"):
                if src.get(key):
                    p = copy.deepcopy(plan)
                    k2, i2 = at(p, path)
                    k2[i2]["fns"][f][key] = 0
                    yield p
    for key in ("jitter", "boot_delay"):
        if key in plan["cfg"]:
            p = copy.deepcopy(plan)
            del p["cfg"][key]
            yield p
    if plan["sched"]["policy"] != "fifo":
        p = copy.deepcopy(plan)
        p["sched"] = {"policy": "fifo", "seed": 0}
        yield p
