"""Builds a simulated PCIe system (root complex, switches, devices, host memory) from a plan."""
import random

from dsim import kernel
import cocotb
from cocotb.triggers import Event, Timer
from cocotbext.axi import MemoryRegion

from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.caps import MsiCapability, MsixCapability
from cocotbext.pcie.core.utils import PcieId

from dsim.link import LinkTap


def retire(port):
    """Silence a default port that is about to be replaced (an unconnected port may not transmit)."""
    async def park(pkt):
        await Event().wait()
    port.handle_tx = park


class HostRegion(MemoryRegion):
    """Host memory that may be slow, may fail and lets the harness observe each access."""

    def __init__(self, size, k=None, slow_ns=0, rng=None):
        super().__init__(size)
        self.k = k
        self.slow = slow_ns
        self.rng = rng
        self.on_write = []       # fn(offset, data) after the bytes are stored
        self.fail = []           # (start, end) ranges that raise

    async def _wait(self):
        if self.slow:
            n = int(self.rng.random() * self.slow * 10.0 ** (-9 - self.k.precision))
            if n > 0:
                await Timer(n, "step")

    async def read(self, address, length, **kwargs):
        await self._wait()
        for s, e in self.fail:
            if address < e and s < address + length:
                raise Exception("memory error")
        return bytes(self.mem[address:address+length])

    async def write(self, address, data, **kwargs):
        await self._wait()
        for s, e in self.fail:
            if address < e and s < address + len(data):
                raise Exception("memory error")
        self.mem[address:address+len(data)] = bytes(data)
        for f in self.on_write:
            f(address, bytes(data))


class Bar:
    def __init__(self, idx, kind, size):
        self.idx = idx
        self.kind = kind
        self.size = size
        self.mem = None
        self.on_write = []
        self.addr = None
        self.window = None

    @property
    def io(self):
        return self.kind == "io"


class Fn:
    """Harness view of one device function."""

    def __init__(self, node, num, ep):
        self.node = node
        self.num = num
        self.ep = ep
        self.bars = []
        self.msi = None
        self.msix = None
        self.dev = None         # host-side PciDevice
        self.id = None

    def __repr__(self):
        return f"fn{self.node}.{self.num}"


BAR_KIND = {
    # kind: (ext, prefetch, io)
    "m32": (False, False, False), "m32p": (False, True, False), "m64": (True, False, False), "m64p": (True, True, False), "io": (False, False, True)}


class System:
    def __init__(self, k, cfg, out, faults=(), jitter=None):
        self.k = k
        self.cfg = cfg
        self.out = out
        self.ps = 10.0 ** (-9 - k.precision)
        self.nodes = cfg["nodes"]
        self.obj = {}
        self.hw = {}             # node -> vendor device model with its user logic
        self.ports = {}          # node -> (upstream-side SimPort, node-side SimPort)
        self.taps = {}
        self.fns = []
        self.children = {-1: []}
        self.rng = random.Random(f"sys:{cfg['seed']}")
        c = cfg["rc"]
        rc = self.rc = RootComplex()
        if "mpss" in c:
            rc.max_payload_size_supported = c["mpss"]
        if "mps" in c:
            rc.max_payload_size = c["mps"]
        if "mrrs" in c:
            rc.max_read_request_size = c["mrrs"]
        if c.get("rcb"):
            rc.read_completion_boundary = True
        if c.get("split"):
            rc.split_on_all_rcb = True
        if c.get("tags"):
            rc.tag_count = c["tags"]
        for i, n in enumerate(self.nodes):
            self.children[i] = []
            self.children[n["parent"]].append(i)
            self._make(i, n)
        for i, n in enumerate(self.nodes):
            self._connect(i, n, [f for f in faults if f["link"] == i], jitter)
        self.host = []
        for j, h in enumerate(cfg.get("hostmem", [])):
            if h.get("addr") is None:
                r = rc.mem_pool.alloc_region(h["size"])
                r.on_write = []
                a = r.get_absolute_address(0)
            else:
                r = HostRegion(h["size"], k, h.get("slow", 0), random.Random(f"hm:{cfg['seed']}:{j}"))
                if h.get("fail"):
                    r.fail.append(tuple(h["fail"]))
                rc.mem_address_space.register_region(r, h["addr"])
                a = h["addr"]
            r[0:h["size"]] = random.Random(f"hi:{cfg['seed']}:{j}").randbytes(h["size"])
            self.host.append((a, h["size"], r))
        self.hostio = []
        for j, h in enumerate(cfg.get("hostio", [])):
            if h.get("addr") is None:
                r = rc.io_pool.alloc_region(h["size"])
                a = r.get_absolute_address(0)
            else:
                r = HostRegion(h["size"], k, h.get("slow", 0), random.Random(f"hio:{cfg['seed']}:{j}"))
                rc.io_address_space.register_region(r, h["addr"])
                a = h["addr"]
            r[0:h["size"]] = random.Random(f"hio:{cfg['seed']}:{j}").randbytes(h["size"])
            self.hostio.append((a, h["size"], r))

    # -- construction -----------------------------------------------------
    def _make(self, i, n):
        if n["type"] == "sw":
            sw = Switch()
            if n.get("mpss") is not None:
                sw.upstream_bridge.pcie_cap.max_payload_size_supported = n["mpss"]
            if n.get("fc"):
                retire(sw.upstream_bridge.upstream_port)
                sw.set_upstream_port(SimPort([list(n["fc"])] * 8))
            self.obj[i] = sw
            port = sw.upstream_bridge.upstream_port
        elif n["type"] == "hw":
            from dsim import hw
            h = self.hw[i] = hw.make(self.k, f"hw{i}", n["spec"], f"{self.cfg['seed']}:{i}")
            self.obj[i] = dev = h.dev
            for fi, f in enumerate(n["fns"]):
                self._make_hw_fn(i, h, fi, f)
            port = dev.upstream_port
        else:
            dev = Device()
            if n.get("fc"):
                retire(dev.upstream_port)
                dev.set_port(SimPort([list(n["fc"])] * 8))
            self.obj[i] = dev
            for fi, f in enumerate(n["fns"]):
                self._make_fn(i, dev, fi, f)
            port = dev.upstream_port
        if n.get("speed") and n["type"] != "hw":
            port.max_link_speed = n["speed"]
        if n.get("width") and n["type"] != "hw":
            port.max_link_width = n["width"]
        if n.get("delay") is not None:
            port.port_delay = n["delay"] * 1e-9
        self.ports[i] = [None, port]

    def _make_fn(self, i, dev, fi, f):
        ep = MemoryEndpoint()
        ep.vendor_id = 0x1234
        ep.device_id = 0x5000 + i * 16 + fi
        fn = Fn(i, fi, ep)
        if f.get("mpss") is not None:
            ep.pcie_cap.max_payload_size_supported = f["mpss"]
        if f.get("ext") is not None:
            ep.pcie_cap.extended_tag_supported = bool(f["ext"])
        if f.get("tags"):
            ep.tag_count = f["tags"]
        if f.get("msi") is not None:
            fn.msi = MsiCapability()
            fn.msi.msi_multiple_message_capable = f["msi"]
            fn.msi.msi_64bit_address_capable = f.get("msi64", 1)
            fn.msi.msi_per_vector_mask_capable = f.get("msimask", 1)
            ep.register_capability(fn.msi)
        if f.get("msix") is not None:
            m = fn.msix = MsixCapability()
            m.msix_table_size = f["msix"]["size"] - 1
            m.msix_table_bar_indicator_register = f["msix"]["bar"]
            m.msix_table_offset = f["msix"]["off"]
            m.msix_pba_bar_indicator_register = f["msix"]["bar"]
            m.msix_pba_offset = f["msix"]["pba"]
            ep.register_capability(m)
        if f.get("rom"):
            ep.expansion_rom_addr_mask = 0xffffffff & ~(f["rom"] - 1)
        for bi, b in enumerate(f.get("bars", [])):
            self._make_bar(fn, bi, b)
        dev.append_function(ep)
        self.fns.append(fn)

    def _make_hw_fn(self, i, h, fi, f):
        """A function of a vendor device model; the memory behind its BARs belongs to the user logic."""
        ep = h.dev.functions[fi]
        ep.vendor_id = 0x1234
        ep.device_id = 0x5000 + i * 16 + fi
        fn = Fn(i, fi, ep)
        fn.model = h.spec["model"]
        spec = h.spec["irq"][fi]
        fn.msi = ep.msi_cap if spec.get("msi") else None
        fn.msix = ep.msix_cap if spec.get("msix") else None
        idx = 0
        for bi, b in enumerate(f["bars"]):
            ext, pf, io = BAR_KIND[b["kind"]]
            bar = Bar(idx, b["kind"], b["size"])
            ep.configure_bar(idx, b["size"], ext, pf, io)
            idx += 2 if ext else 1
            bar.mem = bytearray(random.Random(f"bar:{self.cfg['seed']}:{i}:{fi}:{bi}").randbytes(b["size"]))
            fn.bars.append(bar)
        h.fns.append(fn)
        self.fns.append(fn)

    def _make_bar(self, fn, bi, b):
        ext, pf, io = BAR_KIND[b["kind"]]
        bar = Bar(fn.ep.bar_ptr, b["kind"], b["size"])
        init = random.Random(f"bar:{self.cfg['seed']}:{fn.node}:{fn.num}:{bi}").randbytes(b["size"])
        if b.get("cb"):
            mem = bytearray(init)
            rng = random.Random(f"cb:{self.cfg['seed']}:{fn.node}:{fn.num}:{bi}")
            slow = b.get("slow", 0)
            ps = self.ps

            async def wait():
                n = int(rng.random() * slow * ps)
                if n > 0:
                    await Timer(n, "step")

            async def rd(addr, length):
                if slow:
                    await wait()
                return bytes(mem[addr:addr+length])

            async def wr(addr, data):
                if slow:
                    await wait()
                mem[addr:addr+len(data)] = bytes(data)
                for f in bar.on_write:
                    f(addr, bytes(data))
            fn.ep.add_region(b["size"], rd, wr, ext, pf, io)
            bar.mem = mem
        else:
            bar.mem = fn.ep.add_region(b["size"], None, None, ext, pf, io)
            bar.mem[0:b["size"]] = init
        fn.bars.append(bar)

    def _connect(self, i, n, faults, jitter):
        p = n["parent"]
        up = self.rc if p == -1 else self.obj[p]
        port = None
        if n.get("pfc"):
            port = SimPort([list(n["pfc"])] * 8)
        br = up.make_port()
        if port is not None:
            retire(br.downstream_port)
            br.set_downstream_port(port)
        up_port = br.downstream_port
        if n.get("pdelay") is not None:
            up_port.port_delay = n["pdelay"] * 1e-9
        self.ports[i][0] = up_port
        n_ = self.obj[i]
        tap = LinkTap(self.k, f"L{i}", up_port, self.ports[i][1], faults=faults, jitter=jitter, fired=self.out.faults)
        self.taps[i] = tap
        if n.get("connect", True):
            # either side may initiate the connection
            if n.get("rev"):
                n_.connect(br.downstream_port)
            else:
                br.connect(n_)
        self.bridge_of = getattr(self, "bridge_of", {})
        self.bridge_of[i] = br

    # -- bring-up ---------------------------------------------------------
    async def enumerate(self, timeout_ns=200000):
        await self.rc.enumerate(timeout=timeout_ns, timeout_unit="ns")

    async def bring_up(self, timeout_ns=200000, enable=True):
        await self.enumerate(timeout_ns)
        for fn in self.fns:
            self.bind(fn)
        if enable:
            for fn in self.fns:
                await fn.dev.enable_device()
                await fn.dev.set_master()
                f = self.nodes[fn.node]["fns"][fn.num]
                if f.get("mrrs") is not None:
                    await fn.dev.set_readrq(f["mrrs"])

    def bind(self, fn):
        fn.id = fn.ep.pcie_id
        fn.dev = self.rc.find_device(fn.id)
        if fn.dev is None:
            raise AssertionError(f"{fn}: enumeration did not record a device at {fn.id}")
        for b in fn.bars:
            b.addr = fn.dev.bar_addr[b.idx]
            b.window = fn.dev.bar_window[b.idx]

    # -- topology ---------------------------------------------------------
    def path_up(self, i):
        out = []
        while i != -1:
            out.append(i)
            i = self.nodes[i]["parent"]
        return out

    def subtree(self, i):
        out = {i}
        for c in self.children[i]:
            out |= self.subtree(c)
        return out


def walk(bus):
    for d in bus.devices:
        yield d
    for c in bus.children:
        yield from walk(c)
