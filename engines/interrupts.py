"""Interrupts of many functions, set up in any order and raised concurrently (P17 MSI, P18 MSI-X)."""
import copy
import random
import struct

from dsim import kernel
import cocotb
from cocotb.triggers import Timer

from dsim.link import Observer
from dsim.outcome import Outcome
from dsim.system import System
from engines import system as sysgen


class Irq:
    """Host-side view of one function's interrupts."""

    def __init__(self, fn):
        self.fn = fn
        self.mode = None         # "msi" | "msix"
        self.epoch = 0
        self.nvec = 0
        self.raised = {}         # vector -> raises in this epoch
        self.handlers = {}       # vector -> list of counters
        self.fired = {}          # (epoch, vector, handler) -> count
        self.ev_raised = set()
        self.table = []

    def prop(self):
        return "P17" if self.mode == "msi" else "P18"


class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.out = Outcome()
        self.stats = self.out.stats
        self.progress = 0

    def bad(self, prop, kind, msg):
        self.out.violation(prop, kind, msg)

    def make_handler(self, irq, vec, h):
        ep = irq.epoch
        irq.fired[ep, vec, h] = 0

        async def cb():
            irq.fired[ep, vec, h] += 1
            self.stats["handled"] += 1
            self.progress += 1
            if ep == irq.epoch and irq.fired[ep, vec, h] > irq.raised.get(vec, 0):
                self.bad(irq.prop(), "extra", f"{irq.fn}: handler of {irq.mode} vector {vec} ran {irq.fired[ep, vec, h]} times "
                    f"after {irq.raised.get(vec, 0)} interrupts; in flight: {self.in_flight()}")
            elif ep != irq.epoch and irq.raised.get(vec, 0) == 0:
                self.bad(irq.prop(), "extra", f"{irq.fn}: an old handler of vector {vec} ran without an interrupt; in flight: {self.in_flight()}")
        return cb

    def in_flight(self):
        return ", ".join(f"{i.fn} {i.mode} {v}" for i in self.irqs for v, n in sorted(i.raised.items())
            if any(i.fired.get((i.epoch, v, h), 0) < n for h in range(len(i.handlers.get(v, [])) or 1)))[:300]

    async def setup(self, irq, op):
        """Driver side: allocate vectors and register handlers."""
        fn = irq.fn
        rng = random.Random(f"setup:{self.plan['cfg']['seed']}:{op['seed']}")
        how = op["how"]
        before = None
        nmsix = (fn.msix.msix_table_size + 1) if fn.msix else 0
        nmsi = (1 << fn.msi.msi_multiple_message_capable) if fn.msi else 0
        lo = op.get("min", 1)
        hi = op.get("max", 2048)
        bm = None
        if fn.msix:
            bm = next(b for b in fn.bars if b.idx == fn.msix.msix_table_bar_indicator_register)
            before = bytes(bm.mem[0:bm.size])
        if how == "alloc":
            want = "msix" if nmsix >= lo and nmsix else ("msi" if nmsi >= lo and nmsi else None)
            n = await fn.dev.alloc_irq_vectors(lo, hi)
        elif how == "msi":
            want = "msi" if nmsi >= lo and nmsi else None
            n = await fn.dev.enable_msi_range(lo, hi)
        else:
            want = "msix" if nmsix >= lo and nmsix else None
            n = await fn.dev.enable_msix_range(lo, hi, 0)
        self.stats["setups"] += 1
        exp = min({"msix": nmsix, "msi": nmsi, None: 0}[want], hi)
        p = {"msix": "P18", "msi": "P17", None: self.plan["prop"]}[want]
        if want is None or hi < lo:
            if n > 0:
                self.bad(self.plan["prop"], "granted", f"{fn}: {how} of {lo} to {hi} vectors granted {n} with {nmsi} MSI and {nmsix} MSI-X vectors")
            self.stats["refused_setups"] += 1
            return
        if n != exp:
            self.bad(p, "count", f"{fn}: {how} of {lo} to {hi} vectors returned {n}, {exp} available ({nmsi} MSI, {nmsix} MSI-X)")
            return
        irq.epoch += 1
        irq.mode = want
        irq.nvec = n
        irq.raised = {}
        irq.handlers = {}
        irq.ev_raised = set()
        if want == "msix":
            off = fn.msix.msix_table_offset
            now = bytes(bm.mem[0:bm.size])
            irq.table = [struct.unpack_from("<QLL", now, off + 16 * i) for i in range(nmsix)]
            if now[:off] != before[:off] or now[off+16*nmsix:] != before[off+16*nmsix:]:
                self.bad("P18", "outside", f"{fn}: BAR {bm.idx} changed outside the MSI-X table of {nmsix} entries at {off:#x}")
            seen = set()
            for i, (a, d, c) in enumerate(irq.table):
                if (a, d) in seen:
                    self.bad("P18", "distinct", f"{fn}: MSI-X entry {i} repeats message {a:#x} {d:#x}")
                if c & 1:
                    self.bad("P18", "masked", f"{fn}: MSI-X entry {i} is left masked")
                seen.add((a, d))
            for o in self.irqs:
                if o is not irq and o.mode == "msix" and seen & {(a, d) for a, d, c in o.table}:
                    self.bad("P18", "distinct", f"{fn} and {o.fn} share MSI-X messages")
        vecs = list(range(n))
        some = set(rng.sample(vecs, min(n, op.get("nh", 4)))) | {0, n - 1}
        for v in sorted(some):
            irq.handlers[v] = []
            for h in range(rng.choice([1, 1, 2, 3])):
                cb = self.make_handler(irq, v, h)
                irq.handlers[v].append(cb)
                fn.dev.request_irq(v, cb)
        for v in vecs:
            fn.dev.msi_vectors[v].event.clear()
        irq.live = True

    async def issue(self, irq, v, rng):
        fn = irq.fn
        kw = {}
        if rng.random() < 0.3:
            kw["tc"] = rng.choice(self.tcs)
        if irq.mode == "msi":
            await fn.msi.issue_msi_interrupt(v, **kw)
        else:
            a, d, c = irq.table[v]
            await fn.msix.issue_msix_interrupt(a, d, **kw)

    async def raise_one(self, irq, v, rng):
        if v not in irq.handlers and v in irq.ev_raised:
            return  # without a handler a second interrupt before the event is cleared leaves no trace
        irq.raised[v] = irq.raised.get(v, 0) + 1
        irq.ev_raised.add(v)
        self.stats["raised_" + irq.mode] += 1
        await self.issue(irq, v, rng)
        self.progress += 1

    async def settle(self, irq):
        """Wait for everything raised to arrive, then check the counts."""
        fn = irq.fn
        for _ in range(400):
            if all(irq.fired[irq.epoch, v, h] >= irq.raised.get(v, 0) for v, hs in irq.handlers.items() for h in range(len(hs))) and \
                    all(fn.dev.msi_vectors[v].event.is_set() for v in irq.ev_raised):
                break
            await Timer(max(int(500 * self.sys.ps), 1), "step")
        else:
            miss = [(v, irq.raised[v]) for v in irq.raised if any(irq.fired[irq.epoch, v, h] < irq.raised[v] for h in range(len(irq.handlers.get(v, []))))
                or not fn.dev.msi_vectors[v].event.is_set()]
            self.bad(irq.prop(), "lost", f"{fn}: {irq.mode} of {irq.nvec} vectors: raised {[f'{n} x vector {v}' for v, n in miss][:6]} without effect")
            return False
        # what is still travelling could only be a repetition
        await Timer(max(int(300 * self.sys.ps), 1), "step")
        for v in range(irq.nvec):
            if fn.dev.msi_vectors[v].event.is_set() != (v in irq.ev_raised):
                self.bad(irq.prop(), "event", f"{fn}: event of {irq.mode} vector {v} is {fn.dev.msi_vectors[v].event.is_set()} with "
                    f"vectors {sorted(irq.ev_raised)} raised; others: {self.in_flight()}")
            fn.dev.msi_vectors[v].event.clear()
        irq.ev_raised = set()
        self.stats["settled"] += 1
        return True

    async def refused(self, irq, rng):
        fn = irq.fn
        self.stats["refusals"] += 1
        tries = []
        if fn.msi:
            if irq.mode == "msi":
                n = 1 << fn.msi.msi_multiple_message_capable
                tries += [(fn.msi.issue_msi_interrupt, (rng.choice([n, n + 1, -1, 2 * n]),))]
            else:
                tries += [(fn.msi.issue_msi_interrupt, (0,))]
        if fn.msix and irq.mode != "msix":
            a, d = (irq.table[0][0], irq.table[0][1]) if irq.table else (0x8000_0000, 0)
            tries += [(fn.msix.issue_msix_interrupt, (a, d))]
        for f, a in tries:
            try:
                await f(*a)
            except (ValueError, Exception):
                continue
            self.bad(self.plan["prop"] if f is None else ("P17" if f == fn.msi.issue_msi_interrupt else "P18") if fn.msi else "P18", "not_refused",
                f"{fn}: interrupt {a} was sent although {'it is not enabled' if irq.mode else 'interrupts are disabled'}")

    async def actor(self, irq, ops):
        fn = irq.fn
        for op in ops:
            rng = random.Random(f"op:{self.plan['cfg']['seed']}:{op['seed']}")
            if op.get("gap"):
                await Timer(max(int(rng.random() * op["gap"] * self.sys.ps), 1), "step")
            k = op["k"]
            if k == "setup":
                if irq.mode:
                    continue
                await self.setup(irq, op)
            elif k == "free":
                if irq.mode:
                    if not await self.settle(irq):
                        return
                    await fn.dev.free_irq_vectors()
                    irq.mode = None
                    irq.raised = {}
                    irq.epoch += 1
                    await self.refused(irq, rng)
            elif k == "refuse":
                await self.refused(irq, rng)
            elif k == "raise" and irq.mode:
                vs = [rng.choice(sorted(irq.handlers)) if rng.random() < 0.7 else rng.randrange(irq.nvec) for _ in range(op["n"])]
                if op.get("par"):
                    ts = [cocotb.start_soon(self.raise_one(irq, v, rng)) for v in vs]
                    for t in ts:
                        await t
                else:
                    for v in vs:
                        await self.raise_one(irq, v, rng)
            elif k == "settle" and irq.mode:
                if not await self.settle(irq):
                    return
        if irq.mode:
            await self.settle(irq)

    async def traffic(self, rng, n):
        """Other writes that share the path with the interrupts."""
        s = self.sys
        fns = [f for f in s.fns]
        for _ in range(n):
            f = rng.choice(fns)
            a, size, r = s.host[0]
            ln = rng.choice([1, 4, 64, 200])
            await f.ep.mem_write(a + rng.randrange(size - ln), rng.randbytes(ln))
            self.progress += 1
            if rng.random() < 0.4:
                await f.ep.mem_read(a, 8)

    async def main(self, k):
        self.k = k
        cfg = self.plan["cfg"]
        self.sys = s = System(k, cfg, self.out, self.plan["faults"], cfg.get("jitter"))
        from cocotbext.pcie.core.tlp import TlpTc
        self.tcs = list(TlpTc)
        for fn in s.fns:
            spec = s.nodes[fn.node]["fns"][fn.num]
            if fn.msi:
                fn.msi.msi_extended_message_data_capable = spec.get("msiext", 0)
        await s.bring_up()
        for t in s.taps.values():
            t.next_phase()
        self.irqs = [Irq(fn) for fn in s.fns if fn.msi or fn.msix]
        tasks = []
        for a in range(cfg["actors"]):
            pass
        seq = [o for o in self.plan["ops"] if o.get("boot")]
        for op in seq:          # drivers that load one after another
            irq = self.irqs[op["f"] % len(self.irqs)]
            if not irq.mode:
                await self.setup(irq, op)
        for j, irq in enumerate(self.irqs):
            ops = [o for o in self.plan["ops"] if not o.get("boot") and o["f"] % len(self.irqs) == j]
            tasks.append(cocotb.start_soon(self.actor(irq, ops)))
        if cfg.get("traffic"):
            tasks.append(cocotb.start_soon(self.traffic(random.Random(f"traffic:{cfg['seed']}"), cfg["traffic"])))
        pending = list(tasks)
        while True:
            pending = [t for t in pending if not t.done()]
            if not pending:
                break
            last = self.progress, self.stats["settled"], self.stats["setups"]
            await Timer(int(1_000_000 * s.ps), "step")
            if last == (self.progress, self.stats["settled"], self.stats["setups"]) and any(not t.done() for t in pending):
                self.bad(self.plan["prop"], "stuck", f"no progress; {sum(not t.done() for t in pending)} of {len(tasks)} drivers wait")
                return
        for t in tasks:
            t.result()
        await Timer(max(int(2000 * s.ps), 1), "step")
        for irq in self.irqs:
            if irq.mode:
                for v, hs in irq.handlers.items():
                    for h in range(len(hs)):
                        n = irq.fired[irq.epoch, v, h]
                        if n != irq.raised.get(v, 0):
                            self.bad(irq.prop(), "final", f"{irq.fn}: handler {h} of {irq.mode} vector {v} ran {n} times for {irq.raised.get(v, 0)} interrupts")
                for v in range(irq.nvec):
                    if irq.fn.dev.msi_vectors[v].event.is_set():
                        self.bad(irq.prop(), "event", f"{irq.fn}: event of {irq.mode} vector {v} set at the end")

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=plan["cfg"]["precision"], max_time_ns=5e10,
            max_events=8_000_000, rng_seed=plan["cfg"]["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


def run(plan):
    return Engine(plan).run()


# ---------------------------------------------------------------------------------------------

def gen_fn(rng, prop):
    pm, px = (0.85, 0.4) if prop == "P17" else (0.4, 0.85)
    f = {"bars": [], "mpss": rng.choice([0, 2]), "ext": rng.randrange(2)}
    has_msi = rng.random() < pm
    has_x = rng.random() < px or not has_msi
    if has_msi:
        f["msi"] = rng.randrange(6)
        f["msi64"] = rng.randrange(2)
        f["msimask"] = rng.randrange(2)
        f["msiext"] = rng.randrange(2)
    if has_x:
        size = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 40, 64, 65, 130])
        idx = 0
        for _ in range(rng.choice([0, 0, 1, 2])):
            kind = rng.choice(["m32", "m64", "io"])
            f["bars"].append({"kind": kind, "size": 256})
            idx += 2 if kind == "m64" else 1
        bs = 4096
        kind = rng.choice(["m32", "m32p", "m64", "m64p"])
        while True:
            room = bs - 16 * size
            if room >= 64:
                break
            bs *= 2
        off = rng.choice([0, 8, 0x40, rng.randrange(0, room - 32) & ~7, room & ~7])
        pba = 0 if off >= 32 else (off + 16 * size + 7) & ~7
        f["bars"].append({"kind": kind, "size": bs, "cb": rng.randrange(2), "slow": rng.choice([0, 0, 100])})
        f["msix"] = {"size": size, "bar": idx, "off": off, "pba": pba}
    return f


def gen(prop, rng, tier, index):
    nodes = sysgen.gen_tree(rng, prop, False, 4, 2)
    timed = sysgen.gen_links(rng, nodes, rng.random() < 0.4, 16)
    for n in nodes:
        if n["type"] == "dev":
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                n["fns"].append(gen_fn(rng, prop))
    nf = sum(len(n.get("fns", [])) for n in nodes)
    ops = []

    def setup(f, **kw):
        o = {"k": "setup", "f": f, "how": rng.choice(["alloc", "alloc", "msi", "msix"]), "seed": rng.getrandbits(32), "nh": rng.choice([1, 3, 8, 32])}
        if rng.random() < 0.4:
            o["min"] = rng.choice([1, 2, 4, 8, 32])
        if rng.random() < 0.4:
            o["max"] = rng.choice([1, 2, 3, 8, 16, 32, 100])
        o.update(kw)
        return o
    if rng.random() < 0.7:
        order = list(range(nf))
        rng.shuffle(order)
        for f in order[:rng.randrange(1, nf + 1)]:
            ops.append(setup(f, boot=1))
    for f in range(nf):
        ops.append(setup(f, gap=rng.choice([0, 0, 2000])))
        for _ in range(rng.choice([1, 3, 6, 10])):
            x = rng.random()
            if x < 0.55:
                ops.append({"k": "raise", "f": f, "n": rng.choice([1, 1, 2, 5, 20]), "par": rng.randrange(2), "seed": rng.getrandbits(32), "gap": rng.choice([0, 0, 300])})
            elif x < 0.7:
                ops.append({"k": "settle", "f": f, "seed": 0})
            elif x < 0.8:
                ops.append({"k": "refuse", "f": f, "seed": rng.getrandbits(32)})
            elif x < 0.9:
                ops.append({"k": "free", "f": f, "seed": rng.getrandbits(32)})
                ops.append(setup(f))
    cfg = {"seed": rng.getrandbits(32), "precision": rng.choice([-9, -10, -11, -12] if timed else [-9, -10]), "rc": {}, "nodes": nodes, "actors": 0,
        "hostmem": [{"size": 4096}], "traffic": rng.choice([0, 0, 5, 30])}
    if rng.random() < 0.4:
        cfg["jitter"] = {"seed": rng.getrandbits(32), "ns": rng.choice([1, 20, 200] if timed else [1, 20])}
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        f = sysgen.gen_fault(rng, len(nodes), 100)
        f["ph"] = rng.choice([0, 1, 1, 1])
        if not timed and "ns" in f:
            f["ns"] = min(f["ns"], 300)
        faults.append(f)
    return {"engine": "interrupts", "prop": prop, "cfg": cfg, "ops": ops, "faults": faults,
        "sched": {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}}


def simplify(plan):
    cfg = plan["cfg"]
    last = len(cfg["nodes"]) - 1
    if last > 0 and cfg["nodes"][last]["type"] == "sw" and not any(n["parent"] == last for n in cfg["nodes"]) and not any(f["link"] == last for f in plan["faults"]):
        p = copy.deepcopy(plan)
        p["cfg"]["nodes"].pop()
        yield p
    if cfg.get("jitter"):
        p = copy.deepcopy(plan)
        p["cfg"].pop("jitter")
        yield p
    if cfg.get("traffic"):
        p = copy.deepcopy(plan)
        p["cfg"]["traffic"] = 0
        yield p
    for i, op in enumerate(plan["ops"]):
        if op.get("n", 1) > 1:
            p = copy.deepcopy(plan)
            p["ops"][i]["n"] = 1
            yield p
