"""Whole systems under mixed traffic: data integrity, wire rules, tags, ordering, forwarding, progress."""
import copy
import random
import struct

from dsim import kernel
import cocotb
from cocotb.triggers import Event, Timer, First, NullTrigger

from cocotbext.pcie.core.caps import PciCapId
from cocotbext.pcie.core.tlp import TlpAttr, TlpTc
from dsim.outcome import Outcome
from dsim.system import System
from dsim.wire import CreditMonitor, WireOracle


class Target:
    def __init__(self, key, addr, size, mem, hooks, io, prop, desc):
        self.key = key
        self.addr = addr
        self.size = size
        self.mem = mem
        self.hooks = hooks
        self.io = io
        self.desc = desc
        self.prop = prop
        self.shadow = bytearray(bytes(mem[0:size]))
        self.old = bytearray(self.shadow)
        self.checks = []

    def hook(self, off, data):
        for f in self.checks:
            f(off, data)


class Engine:
    wire_class = WireOracle

    def __init__(self, plan):
        self.plan = plan
        self.out = Outcome()
        self.stats = self.out.stats
        self.progress = 0
        self.current = {}

    def bad(self, prop, kind, msg):
        self.out.violation(prop, kind, msg)

    # ------------------------------------------------------------------
    def target(self, t):
        key = tuple(t)
        if key in self.targets:
            return self.targets[key]
        s = self.s
        if t[0] == "bar":
            fn = next(f for f in s.fns if f.node == t[1] and f.num == t[2])
            b = fn.bars[t[3]]
            tg = Target(key, b.addr, b.size, b.mem, b.on_write if isinstance(b.mem, bytearray) else None, b.io, None, f"{fn} BAR{b.idx}")
            tg.fn = fn
            tg.bar = b
        else:
            a, size, r = (s.host if t[0] == "host" else s.hostio)[t[1]]
            hooks = r.on_write if hasattr(r, "fail") else None
            tg = Target(key, a, size, r.mem, hooks, t[0] == "hostio", None, f"{t[0]}[{t[1]}]")
        if tg.hooks is not None:
            tg.hooks.append(tg.hook)
        self.targets[key] = tg
        return tg

    def prop_for(self, who, tg):
        if tg.io:
            return "P08"
        if who == "host":
            return "P05"
        return "P06" if tg.key[0] == "host" else "P07"

    async def main(self, k):
        plan, cfg = self.plan, self.plan["cfg"]
        self.k = k
        self.ps = 10.0 ** (-9 - k.precision)
        self.targets = {}
        self.owed = 0
        self.owe_q = []
        s = self.s = System(k, cfg, self.out, plan["faults"], cfg.get("jitter"))
        self.monitors = [CreditMonitor(t, self.bad, self.stats) for t in s.taps.values()]
        wire = self.wire = self.wire_class(s, self.bad, self.stats)
        wire.engine = self
        done = Event()

        async def boot():
            await s.bring_up(timeout_ns=5e6)
            for fn in s.fns:
                if fn.msi is not None:
                    n = await fn.dev.alloc_irq_vectors(1, 32)
                    fn.nvec = n
            done.set()
        cocotb.start_soon(boot())
        if not await self.watch(done.wait, lambda: done.is_set()):
            self.bad("P21", "stuck", "enumeration never finished")
            self.bad("P14", "stuck", "enumeration never finished")
            return
        self.t0 = k.time
        limits = {(0, 0, 0): {"mps": s.rc.max_payload_size, "mrrs": s.rc.max_read_request_size, "tags": min(s.rc.tag_count, 256),
            "rcb": 128 if cfg["rc"].get("rcb") else 64, "node": -1, "cmps": s.rc.max_payload_size}}
        for fn in s.fns:
            mps, mrrs = await fn.dev.get_mps(), await fn.dev.get_readrq()
            ctl = await fn.dev.capability_read_word(PciCapId.EXP, 8)
            tags = 256 if ctl & 0x100 else 32
            n = s.nodes[fn.node]["fns"][fn.num].get("tags")
            fn.tags = min(tags, n) if n else tags
            limits[tuple(fn.id)] = {"mps": mps, "mrrs": mrrs, "tags": fn.tags, "rcb": 128, "node": fn.node, "cmps": mps}
        wire.arm(limits)
        for t in s.taps.values():
            t.next_phase()
        self.tasks = 0
        self.finished = Event()
        actors = cfg["actors"]
        per = {i: [] for i in range(len(actors))}
        for op in plan["ops"]:
            per[op["a"]].append(op)
        for i, a in enumerate(actors):
            if per[i]:
                self.tasks += 1
                cocotb.start_soon(self.actor(i, a, per[i]))
        if self.tasks and not await self.watch(self.finished.wait, lambda: self.tasks == 0):
            what = ", ".join(sorted({v[1] for v in self.current.values()}))[:300]
            self.bad("P21", "stuck", f"no progress; operations outstanding: {what}")
            for p in sorted({v[0] for v in self.current.values()}):
                self.bad(p, "stuck", f"no progress; operations outstanding: {what}")
            return
        for j, pr in enumerate(cfg.get("probe", [])):
            if not await self.probe(pr):
                self.bad("P21", "stuck", f"probe reads of {pr} do not finish after the traffic")
                self.bad("P11", "stuck", f"probe reads of {pr} do not finish after the traffic")
                return
        nd = sum(1 for f in plan["faults"] if f["kind"] == "dllp_drop")
        jit = cfg.get("jitter", {}).get("ns", 0) if cfg.get("jitter") else 0
        hold = sum(f.get("ns", 0) for f in plan["faults"])
        await Timer(int((75_000 + 35_000 * nd + hold + jit * 20 + cfg.get("slow", 0) * 40) * self.ps), "step")
        self.final()

    async def watch(self, waitf, isdone):
        """Wait while something moves; False when nothing moved for a whole window."""
        cfg = self.plan["cfg"]
        nd = sum(1 for f in self.plan["faults"] if f["kind"] == "dllp_drop")
        win = 120_000 + nd * 35_000 + max([f.get("ns", 0) for f in self.plan["faults"]] + [0]) * 2 + cfg.get("slow", 0) * 10
        while not isdone():
            p = self.mark()
            w = Timer(int(win * self.ps), "step")
            await First(cocotb.start_soon(self._wait(waitf)), w)
            if not isdone() and self.mark() == p:
                return False
        return True

    async def _wait(self, f):
        await f()

    def mark(self):
        n = self.progress
        for t in self.s.taps.values():
            for d in t.dirs:
                n += d.n_tlp + (d.phase << 32)
        return n

    # ------------------------------------------------------------------
    async def actor(self, i, a, ops):
        who = a["who"]
        st = {"seq": {}, "irqs": 0, "rng": random.Random(f"act:{self.plan['cfg']['seed']}:{i}")}
        fn = None if who == "host" else next(f for f in self.s.fns if [f.node, f.num] == list(who))
        if fn is not None and any(o["k"] == "irq" for o in ops) and getattr(fn, "nvec", 0):
            self.setup_irq(i, fn, st)
        st["flagged"] = {o["s"] for o in ops if o["k"] in ("pub", "irq")}
        for op in ops:
            await self.do(i, a, who, fn, st, op)
            self.progress += 1
        for si, sl in enumerate(a["slices"]):
            if any(o.get("s") == si for o in ops):
                step = 2048 if self.plan["cfg"].get("p2p") else 1 << 20
                for o in range(0, sl["hi"] - sl["lo"], step):
                    await self.do(i, a, who, fn, st, {"k": "r", "s": si, "off": o, "len": min(step, sl["hi"] - sl["lo"] - o), "ext": [0, 0]})
        self.current.pop(i, None)
        self.tasks -= 1
        if self.tasks == 0:
            self.finished.set()

    def requester(self, fn):
        return (0, 0, 0) if fn is None else tuple(fn.id)

    async def do(self, i, a, who, fn, st, op):
        k = op["k"]
        if k == "d":
            await Timer(max(int(op["ns"] * self.ps), 1), "step")
            return
        if k in ("cr", "cw"):
            return await self.cfg_op(i, op)
        sl = a["slices"][op["s"]]
        tg = self.target(sl["t"])
        prop = self.prop_for(who, tg)
        lo, hi = sl["lo"], sl["hi"]
        desc = f"{'host' if fn is None else fn} {k} {tg.desc}"
        self.current[i] = (prop, desc)
        tc, attr = op.get("tc", 0), op.get("attr", 0)
        self.stats["op_" + k] += 1
        self.stats["ops_" + prop] += 1
        if k == "w":
            if op["s"] in st["flagged"]:
                # keep off the sequence number
                lo = ((lo + 3) & ~3) + 4
                if lo >= hi:
                    return
            off = lo + op["off"] % (hi - lo)
            n = min(op["len"], hi - off)
            data = random.Random(op["seed"]).randbytes(n)
            await self.write(who, fn, tg, off, data, tc, attr, op.get("api", 0))
        elif k == "r":
            off = lo + op["off"] % (hi - lo)
            n = min(op["len"], hi - off)
            await self.read_check(who, fn, tg, prop, off, n, op.get("ext", [0, 0]), tc, attr, op.get("api", 0))
        elif k == "rr":
            r = random.Random(op["seed"])
            tasks = []
            for _ in range(op["n"]):
                off = lo + r.randrange(hi - lo)
                n = min(r.choice([1, 2, 4, 7, 16, 64, 200]), hi - off)
                tasks.append(cocotb.start_soon(self.read_check(who, fn, tg, prop, off, n, [r.randrange(3), r.randrange(3)], tc, attr, 0)))
            for t in tasks:
                await t.join()
        elif k in ("pub", "irq"):
            # payload first, then a sequence number that announces it
            fl = (lo + 3) & ~3
            if hi - fl < 8:
                return
            if k == "irq" and not getattr(fn, "nvec", 0):
                return
            key = tg.key + (lo,)
            seq = st["seq"].get(key, 0) + 1
            if seq == 1:
                first = struct.pack("<L", 0)
                await self.write(who, fn, tg, fl, first, tc, attr & 4, 0)
                await self.read_check(who, fn, tg, prop, fl, 4, [0, 0], tc, attr & 4, 0)
                st.setdefault("pub", {})[key] = {"seq": 0, "want": {}}
                if tg.hooks is not None:
                    tg.checks.append(self.make_check(tg, fl, st["pub"][key], desc))
            st["seq"][key] = seq
            off = fl + 4 + op["off"] % (hi - fl - 4)
            n = min(op["len"], hi - off)
            data = random.Random(op["seed"]).randbytes(n)
            st["pub"][key]["want"][seq] = (off, data)
            # ordered traffic only: no relaxed ordering, one traffic class
            await self.write(who, fn, tg, off, data, tc, attr & 4, 0)
            await self.write(who, fn, tg, fl, struct.pack("<L", seq), tc, attr & 4, 0)
            if k == "irq":
                vec = op["vec"] % fn.nvec
                ev = Event() if op.get("wait") else None
                st["pend"].append((tg, fl, seq, off if ev else None, data, ev))
                d = fn.dev.msi_vectors[0]
                self.wire.want(self.requester(fn), "w", d.addr, 4, tc, attr & 4)
                await fn.msi.issue_msi_interrupt(vec, attr=TlpAttr(attr & 4), tc=TlpTc(tc))
                if ev is not None:
                    await ev.wait()
        self.progress += 1

    def make_check(self, tg, fl, st, desc):
        def check(off, data):
            if off <= fl < off + len(data):
                v = struct.unpack("<L", bytes(tg.mem[fl:fl+4]))[0]
                if v != st["seq"] + 1:
                    self.bad("P19", "order", f"{desc}: flag written {v} after {st['seq']}")
                st["seq"] = v
                w = st["want"].get(v)
                if w and bytes(tg.mem[w[0]:w[0]+len(w[1])]) != w[1]:
                    self.bad("P19", "payload_after_flag", f"{desc}: flag {v} visible before its {len(w[1])} bytes at offset {w[0]:#x}")
                self.stats["flags_seen"] += 1
        return check

    # Peer-to-peer traffic can wedge the model when devices run out of completion credit (a recorded finding, see
    # DESIGN.md); with such traffic the workload keeps the completions devices owe below every port's pool.
    async def owe(self, n):
        if not self.plan["cfg"].get("p2p"):
            return
        n = min(n, 56)
        while self.owed + n > 56:
            ev = Event()
            self.owe_q.append(ev)
            await ev.wait()
        self.owed += n

    def settle(self, n):
        if not self.plan["cfg"].get("p2p"):
            return
        self.owed -= min(n, 56)
        q, self.owe_q = self.owe_q, []
        for ev in q:
            ev.set()

    @staticmethod
    def debt(tg, n):
        return n // 4 + 2 if tg.io else 2 * (n // 128 + 2)

    def setup_irq(self, i, fn, st):
        st["pend"] = pend = []

        async def cb():
            self.stats["irqs"] += 1
            if not pend:
                self.bad("P19", "extra_irq", f"{fn}: interrupt handler ran without an interrupt raised")
                return
            tg, fl, seq, off, data, ev = pend.pop(0)
            v = struct.unpack("<L", bytes(tg.mem[fl:fl+4]))[0]
            if v < seq:
                self.bad("P19", "irq_before_data", f"{fn}: interrupt {seq} handled but memory still holds sequence {v}")
            if off is not None and bytes(tg.mem[off:off+len(data)]) != data:
                self.bad("P19", "irq_before_data", f"{fn}: interrupt {seq} handled before its {len(data)} bytes were stored")
            if ev is not None:
                ev.set()
        # one handler on every vector: order of interrupts of one function is the order of issue
        for v in range(fn.nvec):
            fn.dev.request_irq(v, cb)

    # ------------------------------------------------------------------
    async def write(self, who, fn, tg, off, data, tc, attr, api):
        n = len(data)
        tg.old[off:off+n] = tg.shadow[off:off+n]
        tg.shadow[off:off+n] = data
        addr = tg.addr + off
        if tg.io:
            dev = tg.key[0] == "bar"
            if dev:
                await self.owe(self.debt(tg, n))
            if fn is None:
                if api == 1 and n % 4 == 0 and n:
                    await self.s.rc.io_write_dwords(addr, list(struct.unpack(f"<{n//4}L", data)))
                elif api == 2:
                    await tg.bar.window.write(off, data)
                else:
                    await self.s.rc.io_write(addr, data)
            else:
                if api == 1 and n % 2 == 0 and n:
                    await fn.ep.io_write_words(addr, list(struct.unpack(f">{n//2}H", data)), "big")
                else:
                    await fn.ep.io_write(addr, data)
            if dev:
                self.settle(self.debt(tg, n))
            # an I/O write has taken effect when it returns
            if bytes(tg.mem[off:off+n]) != data:
                self.bad("P08", "write_not_applied", f"{'host' if fn is None else fn} I/O write of {n} bytes at {tg.desc}+{off:#x} returned before it took effect")
            return
        self.wire.want(self.requester(fn), "w", addr, n, tc, attr)
        kw = {"tc": TlpTc(tc), "attr": TlpAttr(attr)}
        if fn is None:
            if api == 1 and n % 4 == 0 and n:
                await self.s.rc.mem_write_dwords(addr, list(struct.unpack(f"<{n//4}L", data)), **kw)
            elif api == 2:
                await tg.bar.window.write(off, data, **kw)
            elif api == 3 and n % 8 == 0 and n:
                await self.s.rc.mem_write_qwords(addr, list(struct.unpack(f">{n//8}Q", data)), "big", **kw)
            else:
                await self.s.rc.mem_write(addr, data, **kw)
        else:
            if api == 1 and n % 4 == 0 and n:
                await fn.ep.mem_write_dwords(addr, list(struct.unpack(f"<{n//4}L", data)), **kw)
            elif api == 3 and n % 2 == 0 and n:
                await fn.ep.mem_write_words(addr, list(struct.unpack(f">{n//2}H", data)), "big", **kw)
            else:
                await fn.ep.mem_write(addr, data, **kw)

    async def read_check(self, who, fn, tg, prop, off, n, ext, tc, attr, api):
        a = max(off - ext[0], 0) if n else off
        b = min(off + n + ext[1], tg.size) if n else off
        ln = b - a
        addr = tg.addr + a
        name = "host" if fn is None else str(fn)
        dev = tg.key[0] == "bar"
        if dev:
            await self.owe(self.debt(tg, ln))
        try:
            if tg.io:
                if fn is None:
                    if api == 1 and ln % 4 == 0 and ln:
                        d = struct.pack(f"<{ln//4}L", *await self.s.rc.io_read_dwords(addr, ln // 4))
                    elif api == 2:
                        d = await tg.bar.window.read(a, ln)
                    else:
                        d = await self.s.rc.io_read(addr, ln)
                elif api == 1 and ln % 2 == 0 and ln:
                    d = struct.pack(f">{ln//2}H", *await fn.ep.io_read_words(addr, ln // 2, "big"))
                else:
                    d = await fn.ep.io_read(addr, ln)
            else:
                self.wire.want(self.requester(fn), "r", addr, ln, tc, attr)
                kw = {"tc": TlpTc(tc), "attr": TlpAttr(attr)}
                if fn is None:
                    if api == 1 and ln % 4 == 0 and ln:
                        d = struct.pack(f"<{ln//4}L", *await self.s.rc.mem_read_dwords(addr, ln // 4, **kw))
                    elif api == 2:
                        d = await tg.bar.window.read(a, ln, **kw)
                    elif api == 3 and ln % 8 == 0 and ln:
                        d = struct.pack(f">{ln//8}Q", *await self.s.rc.mem_read_qwords(addr, ln // 8, "big", **kw))
                    else:
                        d = await self.s.rc.mem_read(addr, ln, **kw)
                elif api == 1 and ln % 4 == 0 and ln:
                    d = struct.pack(f"<{ln//4}L", *await fn.ep.mem_read_dwords(addr, ln // 4, **kw))
                elif api == 3 and ln % 2 == 0 and ln:
                    d = struct.pack(f">{ln//2}H", *await fn.ep.mem_read_words(addr, ln // 2, "big", **kw))
                else:
                    d = await fn.ep.mem_read(addr, ln, **kw)
        except AssertionError:
            raise
        except Exception as e:
            self.bad(prop, "op_failed", f"{name} read of {ln} bytes at {tg.desc}+{a:#x} failed: {type(e).__name__}: {e}")
            return
        finally:
            if dev:
                self.settle(self.debt(tg, ln))
        self.progress += 1
        self.stats["bytes_read"] += ln
        d = bytes(d)
        if len(d) != ln:
            self.bad(prop, "read_length", f"{name} read of {ln} bytes at {tg.desc}+{a:#x} returned {len(d)} bytes")
            return
        own = d[off-a:off-a+n]
        want = bytes(tg.shadow[off:off+n])
        if own != want:
            j = next(x for x in range(n) if own[x] != want[x])
            nb = sum(1 for x in range(n) if own[x] != want[x])
            stale = all(own[x] == want[x] or own[x] == tg.old[off+x] for x in range(n))
            self.bad(prop, "read_data", f"{name} read of {ln} bytes at {tg.desc}+{a:#x}: {nb} of its {n} own bytes wrong, first at "
                f"offset {off+j:#x}: {own[j]:#04x}, last written {want[j]:#04x}")
            if stale:
                self.bad("P19", "stale_read", f"{name} read of {tg.desc}+{a:#x} returned data from before its own earlier write (offset {off+j:#x})")

    # ------------------------------------------------------------------
    async def cfg_op(self, i, op):
        fn = self.s.fns[op["fn"] % len(self.s.fns)]
        dev = fn.dev
        self.current[i] = ("P16", f"host config {op['k']} {fn}")
        self.stats["op_" + op["k"]] += 1
        if op["k"] == "cr":
            want = {0: struct.pack("<HH", 0x1234, fn.ep.device_id), 1: None, 2: struct.pack("<L", fn.ep.class_code << 8 | fn.ep.revision_id)}
            r = (0, 2)[op["seed"] & 1]
            off = op["off"] % 4
            n = min(1 + op["len"] % 4, 4 - off)
            d = bytes(await dev.config_read(r * 4 + off, n))
            if d != want[r][off:off+n]:
                self.bad("P16", "read", f"config read of {fn} register {r*4+off:#x} length {n} returned {d.hex()}, expected {want[r][off:off+n].hex()}")
        else:
            # each configuration actor owns the cache line size and interrupt line registers of its function
            reg = 0x0c if op["seed"] & 1 else 0x3c
            v = op["seed"] >> 8 & 0xff
            await dev.config_write_byte(reg, v)
            g = await dev.config_read_byte(reg)
            if g != v:
                self.bad("P16", "readback", f"config byte {reg:#x} of {fn} reads {g:#x} after {v:#x} was written")
        self.progress += 1

    # ------------------------------------------------------------------
    async def probe(self, pr):
        """More concurrent reads than tags: all must finish, so every tag is usable."""
        tg = self.target(pr["t"])
        fn = None if pr["who"] == "host" else next(f for f in self.s.fns if [f.node, f.num] == list(pr["who"]))
        n = (fn.tags if fn else self.s.rc.tag_count) + 12
        prop = self.prop_for(pr["who"], tg)
        left = [n]
        ev = Event()

        async def one(j):
            off = (j * 4) % (tg.size & ~3)
            await self.read_check(pr["who"], fn, tg, prop, off, min(4, tg.size - off), [0, 0], 0, 0, 0)
            left[0] -= 1
            if left[0] == 0:
                ev.set()
        for j in range(n):
            cocotb.start_soon(one(j))
        self.stats["probes"] += 1
        return await self.watch(ev.wait, lambda: left[0] == 0)

    def final(self):
        for m in self.monitors:
            m.final("P21")
        self.wire.final()
        for key, tg in self.targets.items():
            got = bytes(tg.mem[0:tg.size])
            if got != bytes(tg.shadow):
                j = next(x for x in range(tg.size) if got[x] != tg.shadow[x])
                nb = sum(1 for x in range(tg.size) if got[x] != tg.shadow[x])
                props = {"P08"} if tg.io else ({"P06"} if key[0] == "host" else {"P05", "P07"})
                for p in sorted(props):
                    self.bad(p, "final_memory", f"{tg.desc}: {nb} bytes differ at the end from what was written, first at {j:#x}: "
                        f"{got[j]:#04x}, should be {tg.shadow[j]:#04x}")
        self.stats["irq_pending"] += 0
        self.stats["transfer_ns"] = int((self.k.time - self.t0) / self.ps)

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=plan["cfg"]["precision"], max_time_ns=5e10,
            max_events=8_000_000, rng_seed=plan["cfg"]["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


def run(plan):
    return Engine(plan).run()


# ---------------------------------------------------------------------------------------------
HOST_ADDRS = [0x8001_0000, 0xb000_0000, 0x1_0000_0000, 0x12_3456_0000, 0x4000_0000_0000]


def gen_tree(rng, prop, p2p, maxdev, maxsw=3):
    """Random topology; returns nodes."""
    nodes = []
    nsw = rng.choice([0, 0, 1, 1, 2, 3][:maxsw + 3])
    for _ in range(nsw):
        par = rng.choice([-1] + [i for i in range(len(nodes))])
        nodes.append({"type": "sw", "parent": par})
    ndev = rng.randrange(2 if p2p else 1, maxdev + 1)
    for j in range(ndev):
        sws = [i for i, n in enumerate(nodes) if n["type"] == "sw"]
        # leaf switches first, so that none is left empty too often
        empty = [i for i in sws if not any(n["parent"] == i for n in nodes)]
        par = rng.choice(empty) if empty and rng.random() < 0.8 else rng.choice([-1] + sws)
        nodes.append({"type": "dev", "parent": par, "fns": []})
    return nodes


def gen_links(rng, nodes, small, heavy_fc):
    timed = rng.random() < 0.8
    for n in nodes:
        if timed:
            n["speed"] = rng.randrange(1, 6)
            n["width"] = rng.choice([1, 2, 4, 8, 16])
        n["delay"] = rng.choice([5, 5, 5, 0, 40, 300])
        n["pdelay"] = rng.choice([5, 5, 5, 0, 40])
        n["rev"] = rng.random() < 0.4
        if small:
            n["fc"] = gen_fc(rng, n["type"], heavy_fc)
            n["pfc"] = gen_fc(rng, "sw", heavy_fc)
    return timed


def gen_fc(rng, typ, need):
    """Credit pools; a class must be able to hold its largest TLP.  Devices consume completions unconditionally."""
    p = rng.choice([1, 1, 2, 3, 8, 64])
    np_ = rng.choice([1, 1, 2, 4, 64])
    c = rng.choice([1, 2, 3, 8, 64])
    pd = need + rng.choice([0, 0, 1, 4, 64, 1024])
    cd = need + rng.choice([0, 0, 1, 4, 64, 1024])
    if typ == "dev":
        c, cd = 0, 0
    return [p, pd, np_, rng.choice([1, 2, 64]), c, cd]


def slices(rng, size, n):
    """Cut a region into n adjoining unaligned slices with occasional unowned gaps."""
    n = min(n, max(size // 24, 1))
    if n == 1:
        return [(0, size)] if rng.random() < 0.5 else [(rng.randrange(0, size // 3 + 1), size - rng.randrange(0, size // 3))]
    cuts = sorted(rng.sample(range(12, size - 11), n - 1))
    cuts = [0] + cuts + [size]
    return [(a, b) for a, b in zip(cuts, cuts[1:]) if b - a >= 1]


LENS = [0, 1, 1, 2, 3, 4, 4, 5, 7, 8, 12, 13, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024, 2048, 4096, 4097, 6000]


def gen(prop, rng, tier, index):
    cfg = {"seed": rng.getrandbits(32), "precision": rng.choice([-12, -12, -12, -11, -10])}
    heavy = prop in ("P11", "P21") or rng.random() < 0.2
    p2p = prop == "P07" or (prop == "P08" and rng.random() < 0.5) or (prop in ("P09", "P10", "P19", "P20", "P21", "P11") and rng.random() < 0.4)
    io = prop == "P08" or rng.random() < 0.25
    irq = prop in ("P19", "P21") or rng.random() < 0.15
    small = rng.random() < (0.6 if prop in ("P21", "P19", "P11") else 0.3)
    rc = cfg["rc"] = {"mpss": rng.choice([5, 5, 0, 1, 2, 3]), "mrrs": rng.randrange(6)}
    rc["mps"] = rng.randrange(rc["mpss"] + 1) if rng.random() < 0.7 else 0
    if rng.random() < 0.3:
        rc["rcb"] = True
    if rng.random() < 0.25:
        rc["split"] = True
    nodes = cfg["nodes"] = gen_tree(rng, prop, p2p, 5 if prop in ("P20", "P07") else 4)
    need = (128 << rc["mps"]) // 16
    if p2p:
        small = False
        cfg["p2p"] = True
    timed = gen_links(rng, nodes, small, need)
    if not timed:
        cfg["precision"] = -9
    slow = 0
    for n in nodes:
        if n["type"] == "sw":
            if rng.random() < 0.5:
                n["mpss"] = rng.choice([5, 5, 1, 2])
            continue
        nf = rng.choice([1, 1, 1, 2, 2, 3])
        for fi in range(nf):
            f = {"bars": []}
            if rng.random() < 0.5:
                f["mpss"] = rng.randrange(6)
            if rng.random() < 0.4:
                f["ext"] = rng.random() < 0.4
            if rng.random() < 0.25:
                f["tags"] = rng.choice([1, 2, 5, 32, 100])
            if rng.random() < 0.7:
                f["mrrs"] = rng.randrange(6)
            if irq and rng.random() < 0.7:
                f["msi"] = rng.randrange(6)
                f["msi64"] = rng.randrange(2)
            regs = 6
            for bi in range(rng.choice([1, 1, 2, 2, 3])):
                kind = rng.choice(["m32", "m32", "m64p", "m64p", "m32p", "m64"])
                if io and rng.random() < 0.5:
                    kind = "io"
                need_r = 2 if kind.startswith("m64") else 1
                if regs < need_r:
                    break
                regs -= need_r
                b = {"kind": kind, "size": 1 << (rng.randrange(4, 9) if kind == "io" else rng.choice([7, 8, 10, 12, 12, 13, 14]))}
                if rng.random() < 0.4:
                    b["cb"] = True
                    if rng.random() < 0.5:
                        b["slow"] = rng.choice([10, 100, 800])
                        slow = max(slow, b["slow"])
                f["bars"].append(b)
            n["fns"].append(f)
    cfg["hostmem"] = []
    addrs = rng.sample(HOST_ADDRS, 2)
    for j in range(rng.randrange(1, 4)):
        h = {"size": rng.choice([4096, 8192, 16384]), "addr": None}
        if j < 2 and rng.random() < 0.7:
            h["addr"] = addrs[j]
            if rng.random() < 0.3:
                h["slow"] = rng.choice([10, 200, 1000])
                slow = max(slow, h["slow"])
        cfg["hostmem"].append(h)
    cfg["hostio"] = []
    if io:
        h = {"size": rng.choice([64, 256]), "addr": None}
        cfg["hostio"].append(h)
    cfg["slow"] = slow
    # who touches what
    fns = [(i, fi) for i, n in enumerate(nodes) if n["type"] == "dev" for fi in range(len(n["fns"]))]
    actors = cfg["actors"] = []
    nact = rng.randrange(3, 9)
    weights = {"P05": (6, 1, 0, 1), "P06": (1, 6, 0, 1), "P07": (1, 1, 6, 0), "P08": (1, 1, 1, 1), "P19": (2, 4, 1, 0)}.get(prop, (3, 3, 2, 1))
    hosts = devs = 0
    for a in range(nact):
        c = rng.choices(["host", "dma", "p2p", "cfg"], weights)[0]
        if c == "p2p" and not p2p:
            c = "dma"
        if c in ("host", "cfg"):
            actors.append({"who": "host", "cls": c, "slices": []})
        else:
            actors.append({"who": list(rng.choice(fns)), "cls": c, "slices": []})
    if prop == "P05" and not any(a["cls"] == "host" for a in actors):
        actors.append({"who": "host", "cls": "host", "slices": []})
    # targets: each bar / region is shared by several actors with neighbouring slices
    bars = [("bar", i, fi, bi) for (i, fi) in fns for bi in range(len(nodes[i]["fns"][fi]["bars"]))]

    def barcfg(t):
        return nodes[t[1]]["fns"][t[2]]["bars"][t[3]]
    tgts = [(t, barcfg(t)["size"], barcfg(t)["kind"] == "io") for t in bars]
    tgts += [(("host", j), h["size"], False) for j, h in enumerate(cfg["hostmem"])]
    tgts += [(("hostio", j), h["size"], True) for j, h in enumerate(cfg["hostio"])]
    want = {}
    for ai, a in enumerate(actors):
        if a["cls"] == "cfg":
            continue
        ok = []
        for t, size, isio in tgts:
            if a["who"] == "host":
                if t[0] == "bar":
                    ok.append((t, size))
            elif a["cls"] == "dma":
                if t[0] in ("host", "hostio"):
                    ok.append((t, size))
            elif t[0] == "bar" and t[1] != a["who"][0]:
                ok.append((t, size))
        if prop == "P08":
            ok2 = [x for x in ok if (x[0][0] == "hostio") or (x[0][0] == "bar" and barcfg(x[0])["kind"] == "io")]
            ok = ok2 if ok2 and rng.random() < 0.8 else ok
        if not ok:
            continue
        for t, size in rng.sample(ok, min(len(ok), rng.choice([1, 1, 2]))):
            want.setdefault(t, []).append(ai)
    sizes = {t: s for t, s, _ in tgts}
    ios = {t: i for t, _, i in tgts}
    for t, al in want.items():
        sl = slices(rng, sizes[t], len(al))
        rng.shuffle(sl)
        for ai, (lo, hi) in zip(al, sl):
            actors[ai]["slices"].append({"t": list(t), "lo": lo, "hi": hi, "io": ios[t]})
    ops = []
    nops = rng.choice([4, 8, 12]) if not heavy else rng.choice([10, 16])
    maxlen = rng.choice([64, 512, 4097, 6000])
    for ai, a in enumerate(actors):
        # attributes constant per actor: reordering rules then do not depend on mixing them
        for _ in range(rng.randrange(1, nops + 1)):
            if a["cls"] == "cfg":
                ops.append({"a": ai, "k": rng.choice(["cr", "cw"]), "fn": ai, "seed": rng.getrandbits(16), "off": rng.randrange(4), "len": rng.randrange(4)})
                continue
            if not a["slices"]:
                break
            if rng.random() < 0.08:
                ops.append({"a": ai, "k": "d", "ns": rng.choice([1, 50, 1000])})
                continue
            s = rng.randrange(len(a["slices"]))
            sl = a["slices"][s]
            k = rng.choice(["w", "w", "w", "r", "r", "rr"])
            if not sl["io"] and rng.random() < (0.5 if prop == "P19" else 0.15):
                k = "pub"
                if a["cls"] == "dma" and nodes[a["who"][0]]["fns"][a["who"][1]].get("msi") is not None and rng.random() < 0.6:
                    k = "irq"
            op = {"a": ai, "s": s, "k": k, "seed": rng.getrandbits(32), "off": rng.choice([0, rng.randrange(6000), rng.randrange(64)]),
                "len": min(rng.choice(LENS), 24 if sl["io"] else maxlen), "api": rng.choice([0, 0, 0, 1, 2, 3]), "ext": rng.choice([[0, 0], [0, 0], [3, 5], [1, 0], [130, 70]])}
            if p2p and not sl["io"]:
                op["len"] = min(op["len"], 2048)
                op["ext"] = [min(x, 30) for x in op["ext"]]
            if op["api"] == 2 and a["who"] != "host":
                op["api"] = 0
            if not sl["io"]:
                op["tc"] = rng.choice([0, 0, rng.randrange(8)])
                op["attr"] = rng.choice([0, 0, rng.randrange(8)])
            if k == "rr":
                op["n"] = rng.choice([2, 4, 8]) if not heavy else rng.choice([8, 20, 45])
                if sl["io"]:
                    op["n"] = min(op["n"], 8)
            if k == "irq":
                op["vec"] = rng.randrange(32)
                op["wait"] = rng.random() < 0.6
            ops.append(op)
    # interrupts of one function are matched in order of issue: one issuing actor per function
    seen = {}
    for op in ops:
        if op["k"] == "irq":
            w = tuple(actors[op["a"]]["who"])
            if seen.setdefault(w, op["a"]) != op["a"]:
                op["k"] = "pub"
    # one configuration actor per function
    seen = {}
    for op in ops:
        if op["k"] == "cw":
            if seen.setdefault(op["fn"] % len(fns), op["a"]) != op["a"]:
                op["k"] = "cr"
    if rng.random() < (0.5 if prop in ("P11", "P21") else 0.08):
        cfg["probe"] = []
        t = rng.choice([t for t in tgts if t[0][0] == "host"])
        who = rng.choice(fns)
        cfg["probe"].append({"who": list(who), "t": list(t[0])})
        b = [t for t in tgts if t[0][0] == "bar" and not t[2]]
        if b and rng.random() < 0.5:
            cfg["probe"].append({"who": "host", "t": list(rng.choice(b)[0])})
    if rng.random() < 0.4:
        cfg["jitter"] = {"ns": rng.choice([1, 5, 50, 300]), "seed": rng.getrandbits(32)}
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.randrange(1, 8)):
            f = gen_fault(rng, len(nodes))
            f["ph"] = 1 if rng.random() < 0.8 else 0
            if not timed and not f["ph"] and "ns" in f:
                f["ns"] = min(f["ns"], 300)
            faults.append(f)
    if not timed and cfg.get("jitter"):
        # an untimed link moves a packet per time step and repeats initialisation packets at that rate
        cfg["jitter"]["ns"] = min(cfg["jitter"]["ns"], 20)
    return {"engine": "system", "prop": prop, "cfg": cfg, "ops": ops, "faults": faults,
        "sched": {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}}


def gen_fault(rng, nlinks, tlps=60):
    kind = rng.choice(["dllp_drop", "dllp_drop", "dllp_dup", "stall", "tlp_stall", "tlp_replay"])
    f = {"kind": kind, "link": rng.randrange(nlinks), "dir": rng.randrange(2)}
    if kind.startswith("dllp"):
        f["what"] = rng.choice(["ack", "update", "update", "init"])
        f["n"] = rng.randrange(12)
    elif kind == "stall":
        f["n"] = rng.randrange(60)
        f["ns"] = rng.choice([10, 300, 5000, 20000])
    elif kind == "tlp_stall":
        f["n"] = rng.randrange(tlps)
        f["ns"] = rng.choice([10, 300, 5000, 20000])
    else:
        f["n"] = rng.randrange(tlps)
        f["k"] = rng.choice([1, 2, 5])
    return f


def simplify(plan):
    cfg = plan["cfg"]
    # drop unused leaf nodes is unsafe for indices; simplify parameters instead
    for i, op in enumerate(plan["ops"]):
        if op.get("n", 0) > 1 and op["k"] == "rr":
            for n in (1, op["n"] // 2, op["n"] - 1):
                p = copy.deepcopy(plan)
                p["ops"][i]["n"] = n
                yield p
        if op.get("len", 0) > 4:
            for n in (4, op["len"] // 2):
                p = copy.deepcopy(plan)
                p["ops"][i]["len"] = n
                yield p
        for kk in ("tc", "attr", "api"):
            if op.get(kk):
                p = copy.deepcopy(plan)
                p["ops"][i][kk] = 0
                yield p
    for kk in ("jitter", "probe"):
        if cfg.get(kk):
            p = copy.deepcopy(plan)
            p["cfg"].pop(kk)
            yield p
    # remove the last node if no actor or fault refers to it
    last = len(cfg["nodes"]) - 1
    used = {a["who"][0] for a in cfg["actors"] if a["who"] != "host"} | {sl["t"][1] for a in cfg["actors"] for sl in a["slices"] if sl["t"][0] == "bar"}
    used |= {f["link"] for f in plan["faults"]} | {n["parent"] for n in cfg["nodes"]}
    if last > 0 and last not in used and not cfg.get("probe"):
        p = copy.deepcopy(plan)
        p["cfg"]["nodes"].pop()
        yield p
