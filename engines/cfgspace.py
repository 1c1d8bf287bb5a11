"""Configuration space under concurrent accesses (P16): every access is checked against a register model
built from the standard's layout, by linearising the history of each register."""
import copy
import random

from dsim import kernel, cfgspace
import cocotb
from cocotb.triggers import Timer, Event

from cocotbext.pcie.core.caps import PciCapId, PciExtCapId, MsiCapability, MsixCapability, AerExtendedCapability, PcieExtendedCapability
from cocotbext.pcie.core.utils import PcieId

from dsim.link import Observer
from dsim.outcome import Outcome
from dsim.system import System
from engines import system as sysgen

CFG = {(0, 4): "CfgRd0", (2, 4): "CfgWr0", (0, 5): "CfgRd1", (2, 5): "CfgWr1"}
STD = {"pm": (1, 2), "pcie": (0x10, 15), "msi": (5, 6), "msix": (0x11, 3)}
EXT = {"aer": 1, "exp2": 0x19}


def cap_name(c):
    return PciCapId(STD[c][0]) if c in STD else PciExtCapId(EXT[c])


class Word:
    """History of one register: the set of values it may hold, and the accesses not yet explained."""

    def __init__(self, reg):
        self.reg = reg
        self.states = None
        self.open = 0
        self.batch = []

    def explain(self):
        """Values the register may hold after the batch, or None if no order of the accesses explains it."""
        ops = sorted(self.batch, key=lambda o: o["t0"])
        n = len(ops)
        keep = 0xffffffff & ~self.reg.ignore
        out = set()
        seen = set()
        work = [(0, s) for s in self.states]
        full = (1 << n) - 1
        while work:
            done, state = work.pop()
            if (done, state) in seen:
                continue
            seen.add((done, state))
            if done == full:
                out.add(state)
                continue
            first_end = min(ops[i]["t1"] for i in range(n) if not done >> i & 1)
            for i in range(n):
                if done >> i & 1:
                    continue
                o = ops[i]
                if o["t0"] > first_end:
                    break
                if o["k"] == "r":
                    if (state ^ o["v"]) & o["m"] & keep:
                        continue
                    work.append((done | 1 << i, state))
                elif o["k"] == "w":
                    work.append((done | 1 << i, self.reg.write(state, o["v"], o["be"])))
                else:
                    work.append((done | 1 << i, (state & ~o["m"]) | o["v"]))
        return out or None


class Thing:
    def __init__(self, desc, obj, id_, kind, bars=(), rom=0, devtype=0):
        self.desc = desc
        self.obj = obj
        self.id = PcieId(id_)
        self.kind = kind
        self.bars = bars
        self.rom = rom
        self.devtype = devtype
        self.caps = {"pm": obj.pm_cap, "pcie": obj.pcie_cap}
        self.off = {}
        self.words = {}
        self.dev = None

    def __repr__(self):
        return f"{self.desc} {self.id}"


class Watch(Observer):
    """Configuration TLPs on one link."""

    def __init__(self, eng, node):
        self.eng = eng
        self.node = node
        self.open = {}

    def on_tx_tlp(self, d, tlp, rec, now):
        e = self.eng
        if not e.live:
            return
        down = d.tx is e.sys.ports[self.node][0]
        if rec.ft in CFG:
            e.stats["cfg_tlps"] += 1
            if not down:
                e.bad("P16", "upward", f"{CFG[rec.ft]} travels upstream on link {self.node}: {rec}")
                return
            bus = e.last_bus[self.node]
            want = "0" if rec.completer_id.bus == bus else "1"
            if CFG[rec.ft][-1] != want:
                e.bad("P16", "type", f"request to {rec.completer_id!s} on the link to bus {bus} is of type {CFG[rec.ft][-1]}: {rec}")
            if not bus <= rec.completer_id.bus <= e.sub_bus[self.node]:
                e.bad("P16", "misrouted", f"request to {rec.completer_id!s} sent on the link to buses {bus} to {e.sub_bus[self.node]}: {rec}")
            if rec.length != 1 or rec.last_be or len(rec.data) != (4 if rec.fmt == 2 else 0):
                e.bad("P16", "format", f"configuration request is not one dword: {rec}")
            key = (tuple(rec.requester_id), rec.tag)
            if key in self.open:
                e.bad("P16", "tag", f"tag {rec.tag} still outstanding: {rec}")
            self.open[key] = rec
        elif rec.is_cpl() and not down:
            key = (tuple(rec.requester_id), rec.tag)
            req = self.open.pop(key, None)
            if req is None:
                e.bad("P16", "answered_twice", f"completion for no outstanding request on link {self.node}: {rec}")
                return
            t = e.by_id.get(tuple(req.completer_id))
            if t:
                if int(rec.status) != 0:
                    e.bad("P16", "status", f"request to {t} answered with status {int(rec.status)}: {req}")
                elif tuple(rec.completer_id) != tuple(t.id):
                    e.bad("P16", "completer", f"request to {t} answered by {rec.completer_id!s}: {rec}")
                if (req.fmt == 0) != (len(rec.data) == 4):
                    e.bad("P16", "format", f"completion of {req} carries {len(rec.data)} bytes")
            elif int(rec.status) == 0:
                e.bad("P16", "ghost", f"request to absent {req.completer_id!s} answered successfully: {rec}")


class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.out = Outcome()
        self.stats = self.out.stats
        self.live = False
        self.seq = 0
        self.progress = 0

    def bad(self, prop, kind, msg):
        self.out.violation(prop, kind, msg)

    def tick(self):
        self.seq += 1
        return self.seq

    # -- construction -----------------------------------------------------
    def dress(self, t, spec, rng):
        """Attach capabilities in the given order and set the read-only fields."""
        for step in spec.get("caps", []):
            k = step["cap"]
            self.stats["cap_steps"] += 1
            if step.get("drop"):
                if step.get("ext"):
                    t.obj.deregister_extended_capability(t.caps.pop(k))
                else:
                    t.obj.deregister_capability(t.caps.pop(k))
                continue
            c = t.caps.get(k)
            if c is None:
                if k == "msi":
                    c = MsiCapability()
                    c.msi_multiple_message_capable = step["mmc"]
                    c.msi_64bit_address_capable = step["a64"]
                    c.msi_per_vector_mask_capable = step["pvm"]
                    c.msi_extended_message_data_capable = step["ext_data"]
                elif k == "msix":
                    c = MsixCapability()
                    c.msix_table_size = rng.randrange(2048)
                    c.msix_table_bar_indicator_register = rng.randrange(6)
                    c.msix_table_offset = rng.getrandbits(29) << 3
                    c.msix_pba_bar_indicator_register = rng.randrange(6)
                    c.msix_pba_offset = rng.getrandbits(29) << 3
                elif k == "pm":
                    c = t.obj.pm_cap
                elif k == "aer":
                    c = AerExtendedCapability()
                    c.length = step["len"]
                elif k == "exp2":
                    c = PcieExtendedCapability()
                    c.length = step["len"]
                t.caps[k] = c
            if k in EXT:
                t.obj.register_extended_capability(c, step.get("off"))
            else:
                t.obj.register_capability(c, step.get("off"))
        t.cap_regs = {}
        for k, c in t.caps.items():
            t.cap_regs[k] = {"pm": lambda: cfgspace.pm(c), "pcie": lambda: cfgspace.pcie(c, t.devtype), "msi": lambda: cfgspace.msi(c),
                "msix": lambda: cfgspace.msix(c), "aer": lambda: cfgspace.aer(c, c.length), "exp2": lambda: cfgspace.exp2(c, c.length)}[k]()
        t.head = cfgspace.bridge(t.obj) if t.kind == "bridge" else cfgspace.endpoint(t.obj, t.bars, t.rom)
        keep = {"vendor_id", "device_id", "class_code", "max_payload_size_supported", "extended_tag_supported", "multifunction_device",
            "crs_software_visibility", "pcie_device_type", "msi_multiple_message_capable", "msi_64bit_address_capable",
            "msi_per_vector_mask_capable", "msi_extended_message_data_capable", "msix_table_size", "msix_table_bar_indicator_register",
            "msix_pba_bar_indicator_register", "msi_extended_message_data_enable"}
        if t.kind == "bridge":
            keep |= {"master_data_parity_error", "detected_parity_error"}
        for regs in [t.head] + list(t.cap_regs.values()):
            for r in regs.values():
                for lsb, width, kind, attr in r.fields:
                    if kind in ("ro", "w1c") and attr not in keep and rng.random() < 0.5:
                        v = rng.getrandbits(width)
                        setattr(r.obj, attr, bool(v) if width == 1 else v)

    def build(self):
        cfg = self.plan["cfg"]
        s = self.sys
        rng = random.Random(f"cfgattr:{cfg['seed']}")
        self.things = []
        for i, n in enumerate(s.nodes):
            br = s.bridge_of[i]
            root = n["parent"] == -1
            br.vendor_id = 0x1234
            br.device_id = 0x7000 + i
            self.things.append(Thing(f"{'root' if root else 'downstream'} port {i}", br, (0, 0, 0), "bridge", devtype=4 if root else 6))
            self.things[-1].spec = n.get("port", {})
            if n["type"] == "sw":
                up = s.obj[i].upstream_bridge
                up.vendor_id = 0x1234
                up.device_id = 0x7100 + i
                self.things.append(Thing(f"upstream port {i}", up, (0, 0, 0), "bridge", devtype=5))
                self.things[-1].spec = n.get("up", {})
        for fn in s.fns:
            spec = s.nodes[fn.node]["fns"][fn.num]
            t = Thing(repr(fn), fn.ep, (0, 0, 0), "fn", [(b.idx, b.kind, b.size) for b in fn.bars], spec.get("rom") or 0)
            t.spec = spec
            self.things.append(t)
        for t in self.things:
            self.dress(t, t.spec, rng)

    # -- recorded accesses ------------------------------------------------
    def begin(self, id_, off, n, k, data=None):
        t = self.by_id.get(tuple(PcieId(id_)))
        recs = []
        if not t or not self.live:
            return t, recs
        i = 0
        while i < n:
            a = off + i
            j = min(n - i, 4 - a % 4)
            w = t.words.get(a // 4)
            if w is None and a // 4 in t.skipped:
                i += j
                continue
            if w is None:
                w = t.words[a // 4] = Word(cfgspace.Reg())
                w.states = {0}
                w.name = f"register {a // 4 * 4:#x}"
            be = ((1 << j) - 1) << (a % 4)
            rec = {"k": k, "be": be, "m": sum(0xff << (8 * b) for b in range(4) if be >> b & 1), "t0": self.tick(), "t1": 1 << 60}
            if k == "w":
                rec["v"] = int.from_bytes(bytes(a % 4) + bytes(data[i:i+j]), "little")
            w.open += 1
            w.batch.append(rec)
            recs.append((w, rec, i, j, a % 4))
            i += j
        return t, recs

    def end(self, t, recs, data=None):
        for w, rec, i, j, lane in recs:
            rec["t1"] = self.tick()
            if rec["k"] == "r":
                rec["v"] = int.from_bytes(bytes(lane) + bytes(data[i:i+j]), "little")
            w.open -= 1
            self.flush(t, w)

    def flush(self, t, w):
        if w.open or not w.batch:
            return
        self.stats["batches"] += 1
        if len(w.batch) > 1:
            self.stats["overlapping"] += len(w.batch)
        out = w.explain()
        if out is None:
            h = ", ".join({"r": f"read {o.get('v', 0):#010x} & {o['m']:#010x}", "w": f"write {o.get('v', 0):#010x} be {o['be']:x}",
                "e": f"set {o.get('v', 0):#010x} & {o['m']:#010x}"}[o["k"]] for o in w.batch)
            self.bad("P16", "value", f"{t}: {w.name} held {' or '.join(f'{x:#010x}' for x in sorted(w.states)[:4])}; no order explains: {h}")
            out = w.states
            r = [o for o in w.batch if o["k"] == "r"]
            if r:
                out = {r[-1]["v"]} if r[-1]["be"] == 15 else w.states
        w.states = out
        w.batch = []

    def wrap(self):
        rc = self.sys.rc
        rd, wr = rc.config_read, rc.config_write

        async def config_read(dev, addr, length, *a, **kw):
            t, recs = self.begin(dev, addr, length, "r")
            data = await rd(dev, addr, length, *a, **kw)
            if self.live:
                if len(data) != length:
                    self.bad("P16", "length", f"read of {length} bytes at {dev!s} {addr:#x} returned {len(data)}")
                elif t is None and any(b != 0xff for b in data):
                    self.bad("P16", "absent", f"read of absent {PcieId(dev)!s} {addr:#x} returned {bytes(data).hex()}")
            self.end(t, recs, data)
            self.progress += 1
            return data

        async def config_write(dev, addr, data, *a, **kw):
            data = bytes(data)
            t, recs = self.begin(dev, addr, len(data), "w", data)
            await wr(dev, addr, data, *a, **kw)
            self.end(t, recs)
            self.progress += 1
        rc.config_read = config_read
        rc.config_write = config_write

    def event(self, t, reg, fields, rng):
        """Hardware changes read-only or status bits."""
        w = t.words[reg]
        lsb, width, kind, attr = fields
        m = ((1 << width) - 1) << lsb
        if kind == "w1c":
            v = (getattr(w.reg.obj, attr) | rng.getrandbits(width)) if width > 1 else 1
        else:
            v = rng.getrandbits(width)
        setattr(w.reg.obj, attr, bool(v) if width == 1 else v)
        s = self.tick()
        if kind == "w1c":
            m = v << lsb      # only sets
        w.batch.append({"k": "e", "m": m, "v": v << lsb, "t0": s, "t1": s})
        self.flush(t, w)
        self.stats["events_set"] += 1

    # -- the run ----------------------------------------------------------
    async def find_caps(self, t):
        """Walk both capability lists as software does."""
        rc = self.sys.rc
        found = {}
        ids = {v[0]: k for k, v in STD.items()}
        p = await rc.config_read_byte(t.id, 0x34)
        head = p
        n = 0
        while p:
            n += 1
            if n > 20 or p < 0x40 or p & 3:
                self.bad("P16", "caplist", f"{t}: capability list from {head:#x} reaches {p:#x} after {n} steps")
                return
            v = await rc.config_read_word(t.id, p)
            k = ids.get(v & 0xff)
            if k in found or k not in t.caps:
                self.bad("P16", "caplist", f"{t}: capability {v & 0xff:#x} at {p:#x} is {'listed twice' if k in found else 'not registered'}")
                return
            found[k] = p // 4
            t.nextp = v >> 8
            p = v >> 8
        if any(k in EXT for k in t.caps):
            ids = {v: k for k, v in EXT.items()}
            p = 0x100
            n = 0
            while p:
                n += 1
                v = await rc.config_read_dword(t.id, p)
                k = ids.get(v & 0xffff)
                if n > 20 or p < 0x100 or p & 3 or k in found or k not in t.caps:
                    self.bad("P16", "caplist", f"{t}: extended capability list has {v:#010x} at {p:#x}, registered {sorted(t.caps)}, found {found}")
                    return
                if v >> 16 & 15 != {"aer": 2, "exp2": 1}[k]:
                    self.bad("P16", "caplist", f"{t}: extended capability {k} has version {v >> 16 & 15}")
                found[k] = p // 4
                p = v >> 20
        missing = set(t.caps) - set(found)
        if missing:
            self.bad("P16", "caplist", f"{t}: capabilities {sorted(missing)} are registered but not in the list {found}")
            return
        lens = {k: (max(t.cap_regs[k]) + 1) for k in found}
        order = sorted(found, key=lambda k: found[k])
        for a, b in zip(order, order[1:]):
            if found[a] + lens[a] > found[b]:
                self.bad("P16", "caplist", f"{t}: {a} at {found[a] * 4:#x} with {lens[a]} registers overlaps {b} at {found[b] * 4:#x}")
                return
        for step in t.spec.get("caps", []):
            if step.get("final") and step["cap"] in found and found.get(step["cap"]) != step["off"]:
                self.bad("P16", "caplist", f"{t}: {step['cap']} was placed at {step['off'] * 4:#x} but is found at {found[step['cap']] * 4:#x}")
        t.off = found
        t.ok = True

    async def adopt(self, t, full):
        """Start the model from what the host reads once, after checking the bits hardware fixes."""
        rc = self.sys.rc
        regs = {}
        for a, r in t.head.items():
            regs[a] = (r, f"register {a * 4:#x}")
        regs[13] = (cfgspace.Reg([(0, 8, "ro", "x")], obj=type("P", (), {"x": min((o for k, o in t.off.items() if k in STD), default=0) * 4})), "register 0x34")
        for k, o in t.off.items():
            for a, r in t.cap_regs[k].items():
                regs[o + a] = (r, f"{k} register {a * 4:#x}")
        heads = sorted(o for k, o in t.off.items() if k in STD)
        exts = sorted(o for k, o in t.off.items() if k in EXT)
        for k, o in t.off.items():
            lst, = [x for x in (heads, exts) if o in x]
            nx = lst[lst.index(o) + 1] * 4 if o != lst[-1] else 0
            if k in STD:
                r = t.cap_regs[k].get(0)
                r.extra = (nx << 8) | STD[k][0]
            else:
                r = cfgspace.Reg()
                r.extra = (nx << 20) | ({"aer": 2, "exp2": 1}[k] << 16) | EXT[k]
                regs[o] = (r, f"{k} header")
        t.skipped = set() if full else set(regs) - set(random.Random(f"adopt:{self.plan['cfg']['seed']}:{t.id}").sample(sorted(regs), 12))
        for a, (r, name) in sorted(regs.items()):
            if a in t.skipped:
                continue
            v = await rc.config_read_dword(t.id, a * 4)
            want = r.fixed() | getattr(r, "extra", 0)
            diff = (v ^ want) & ~r.rw & ~r.ignore
            if diff:
                self.bad("P16", "layout", f"{t}: {name} reads {v:#010x}; bits {diff:#010x} should read {want & diff:#010x}")
                v = (v & (r.rw | r.ignore)) | (want & ~r.rw & ~r.ignore)
            w = t.words[a] = Word(r)
            w.name = name
            w.states = {v}
            self.stats["registers"] += 1

    async def main(self, k):
        self.k = k
        cfg = self.plan["cfg"]
        jit = cfg.get("jitter")
        self.sys = s = System(k, cfg, self.out, self.plan["faults"], jit)
        self.by_id = {}
        self.build()
        await s.enumerate()
        rc = s.rc
        for t in self.things:
            t.id = t.obj.pcie_id
            t.dev = rc.find_device(t.id)
            if t.dev is None or tuple(t.id) in self.by_id:
                self.bad("P16", "identity", f"{t}: not enumerated under its own ID")
                return
            self.by_id[tuple(t.id)] = t
        self.last_bus = {}
        self.sub_bus = {}
        for i in range(len(s.nodes)):
            br = s.bridge_of[i]
            self.last_bus[i] = br.sec_bus_num
            self.sub_bus[i] = br.sub_bus_num
        self.wrap()
        whole = random.Random(f"whole:{cfg['seed']}").sample(self.things, min(len(self.things), 3))
        for t in self.things:
            t.ok = False
            await self.find_caps(t)
            if not t.ok:
                return
            await self.adopt(t, t in whole)
        self.watches = []
        for i, tap in s.taps.items():
            w = Watch(self, i)
            tap.observers.append(w)
            self.watches.append(w)
            tap.next_phase()
        self.live = True
        self.absent = self.absentees()
        tasks = []
        for a in range(cfg["actors"]):
            ops = [(i, o) for i, o in enumerate(self.plan["ops"]) if o["a"] == a]
            tasks.append(cocotb.start_soon(self.actor(ops)))
        last = -1
        pending = list(tasks)
        while True:
            pending = [t for t in pending if not t.done()]
            if not pending:
                break
            last = self.progress
            await Timer(int(400_000 * s.ps), "step")
            if self.progress == last and any(not t.done() for t in pending):
                self.bad("P16", "stuck", f"no configuration access completes any more, {sum(not t.done() for t in pending)} of {len(tasks)} actors wait")
                return
        for t in tasks:
            t.result()
        for t in self.things:
            r = random.Random(f"final:{cfg['seed']}:{t.id}")
            names = set(t.words)
            if len(names) > 40:
                hot = {a for a in names if len(t.words[a].states) > 1 or t.words[a].reg.rw}
                names = set(r.sample(sorted(hot), min(20, len(hot)))) | set(r.sample(sorted(names), 10))
            for a in sorted(names):
                await rc.config_read_dword(t.id, a * 4)
            for a in sorted(t.words):
                w = t.words[a]
                if len(w.states) != 1:
                    continue
                st, = w.states
                for lsb, width, kind, attr in w.reg.fields:
                    if attr is None or kind not in ("rw", "w1c") or w.reg.ignore >> lsb & 1:
                        continue
                    have = int(getattr(w.reg.obj, attr))
                    want = st >> lsb & ((1 << width) - 1)
                    if have != want:
                        self.bad("P16", "attribute", f"{t}: {w.name} holds {st:#010x}, but {attr} is {have:#x}")
        for w in self.watches:
            for rec in w.open.values():
                self.bad("P16", "unanswered", f"never answered on link {w.node}: {rec}")

    def absentees(self):
        """IDs at which nothing is."""
        out = []
        buses = {0}
        for t in self.things:
            buses.add(t.id.bus)
        for i in self.last_bus:
            buses.add(self.last_bus[i])
        top = max(buses)
        for b in sorted(buses):
            for d in (0, 1, 2, 3, 5, 31):
                for f in range(8):
                    if (b, d, f) not in self.by_id and (b, d, f) != (0, 0, 0):
                        out.append((b, d, f))
        for b in (top + 1, top + 7, 255):
            if b <= 255:
                out += [(b, 0, 0), (b, 0, 3), (b, 4, 1)]
        return out

    async def actor(self, ops):
        rc = self.sys.rc
        for i, op in ops:
            rng = random.Random(f"op:{self.plan['cfg']['seed']}:{op['seed']}")
            if op.get("gap"):
                n = int(rng.random() * op["gap"] * self.sys.ps)
                if n:
                    await Timer(n, "step")
            k = op["k"]
            if k == "absent":
                id_ = PcieId(rng.choice(self.absent))
                off = rng.choice([0, 0, 4, 6, 0xe, 0x10, 0x34, 0x100, rng.randrange(4090)])
                n = rng.choice([1, 2, 4, 4, 7])
                if rng.random() < 0.5:
                    await rc.config_read(id_, off, n)
                else:
                    await rc.config_write(id_, off, rng.randbytes(n))
                self.stats["absent_ops"] += 1
                continue
            t = self.things[op["t"] % len(self.things)]
            hot = sorted(t.words)
            pick = random.Random(f"reg:{op['reg']}")
            pool = op.get("pool", "any")
            if pool == "rw":
                hot = [a for a in hot if t.words[a].reg.rw or t.words[a].reg.w1c] or hot
            elif pool == "w1c":
                hot = [a for a in hot if t.words[a].reg.w1c] or hot
            elif pool in STD or pool in EXT:
                if pool in t.off:
                    o = t.off[pool]
                    hot = [a for a in hot if o <= a < o + max(t.cap_regs[pool]) + 1] or hot
            reg = pick.choice(hot)
            if k == "event":
                fs = [x for x in t.words[reg].reg.fields if x[2] in ("ro", "w1c") and x[3] and x[3] != "x" and not (t.words[reg].reg.ignore >> x[0] & 1)
                    and not x[3].startswith(("vendor", "device_id", "class", "multifunction", "max_payload", "extended_tag_s", "crs_", "msi_", "msix_", "capabil"))]
                if t.kind == "bridge":
                    fs = [x for x in fs if "parity" not in x[3]]
                if fs:
                    self.event(t, reg, rng.choice(fs), rng)
                continue
            if pool == "wild":
                off = rng.randrange(4096 - 70)
                n = rng.choice([1, 2, 4, 8, 13, 64])
            else:
                off = reg * 4 + rng.choice([0, 0, 0, 1, 2, 2, 3])
                n = rng.choice([1, 1, 2, 2, 3, 4, 4, 4, 5, 6, 8, 12])
            n = min(n, 4096 - off)
            await self.access(t, k, off, n, op.get("api", 0), rng)

    async def access(self, t, k, off, n, api, rng):
        rc = self.sys.rc
        if k == "w":
            if t.kind == "bridge" and off < 0x1b and off + n > 0x19:
                return       # would renumber the buses under the other actors
            data = rng.choice([rng.randbytes(n), rng.randbytes(n), b"\xff" * n, bytes(n)])
        order = rng.choice(["little", "big"])
        caps = [c for c in t.off if t.off[c] * 4 <= off]
        self.stats["reads" if k == "r" else "writes"] += 1
        if k == "r":
            if api == 0:
                return await rc.config_read(t.id, off, n)
            via, a = (rc, (t.id,)) if api in (1, 2) else (t.dev, ())
            name = "config_read"
            raw = None
            if api == 4 and caps:
                c = rng.choice(caps)
                a = (cap_name(c),)
                name = "capability_read"
                base = t.off[c] * 4
            else:
                base = 0
            kind, ws = rng.choice([("byte", 1), ("word", 2), ("dword", 4), ("qword", 8), ("raw", n), ("words", 2), ("dwords", 4)])
            if kind == "raw":
                return await getattr(via, name)(*a, off - base, n)
            cnt = rng.choice([1, 2, 3]) if kind.endswith("s") else 1
            if off + ws * cnt > 4096:
                return
            seen = {}
            if kind == "byte":
                v = await getattr(via, f"{name}_{kind}")(*a, off - base)
            elif kind.endswith("s"):
                v = await getattr(via, f"{name}_{kind}")(*a, off - base, cnt, order)
                if len(v) != cnt:
                    self.bad("P16", "length", f"{name}_{kind} of {cnt} returned {len(v)} values")
            else:
                v = await getattr(via, f"{name}_{kind}")(*a, off - base, order)
            return v
        if api == 0:
            return await rc.config_write(t.id, off, data)
        via, a = (rc, (t.id,)) if api in (1, 2) else (t.dev, ())
        name = "config_write"
        base = 0
        if api == 4 and caps:
            c = rng.choice(caps)
            a = (cap_name(c),)
            name = "capability_write"
            base = t.off[c] * 4
        if n in (1, 2, 4, 8):
            kind = {1: "byte", 2: "word", 4: "dword", 8: "qword"}[n]
            if kind == "byte":
                return await getattr(via, f"{name}_byte")(*a, off - base, data[0])
            return await getattr(via, f"{name}_{kind}")(*a, off - base, int.from_bytes(data, order), order)
        if n % 4 == 0:
            return await getattr(via, f"{name}_dwords")(*a, off - base, [int.from_bytes(data[i:i+4], order) for i in range(0, n, 4)], order)
        if n % 2 == 0:
            return await getattr(via, f"{name}_words")(*a, off - base, [int.from_bytes(data[i:i+2], order) for i in range(0, n, 2)], order)
        return await getattr(via, name)(*a, off - base, data)

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=plan["cfg"]["precision"], max_time_ns=5e10,
            max_events=8_000_000, rng_seed=plan["cfg"]["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


def run(plan):
    return Engine(plan).run()


# ---------------------------------------------------------------------------------------------

def gen_msi(rng):
    return {"cap": "msi", "mmc": rng.randrange(6), "a64": rng.randrange(2), "pvm": rng.randrange(2), "ext_data": rng.randrange(2)}


def gen_caps(rng, fn):
    steps = []
    # one explicitly placed capability leaves room for the others wherever it lies
    placed = False
    if rng.random() < 0.15:
        steps.append({"cap": "pm", "drop": 1})
    todo = []
    if rng.random() < (0.7 if fn else 0.3):
        todo.append(gen_msi(rng))
    if rng.random() < (0.5 if fn else 0.2):
        todo.append({"cap": "msix"})
    rng.shuffle(todo)
    for s in todo:
        if not placed and rng.random() < 0.4:
            placed = True
            s["off"] = rng.choice([0x10, 0x11, 0x12, 0x13, 0x14, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x30, 0x38, 0x3a])
            s["final"] = 1
        steps.append(s)
    if steps and not steps[0].get("drop") and rng.random() < 0.15:
        steps.append({"cap": rng.choice([s["cap"] for s in steps]), "drop": 1})
    elif rng.random() < 0.1 and steps and steps[0].get("drop"):
        # it keeps the place it had, and moves what was put there meanwhile
        for x in steps:
            x.pop("final", None)
        steps.append({"cap": "pm"})
    if rng.random() < 0.5:
        aer = {"cap": "aer", "ext": 1, "len": rng.choice([11, 14, 18])}
        exp2 = {"cap": "exp2", "ext": 1, "len": 3 + rng.choice([1, 1, 2, 4, 8, 16])}
        both = rng.choice([[aer], [exp2], [aer, exp2], [exp2, aer]])
        if len(both) == 2 and rng.random() < 0.4:
            both[1]["off"] = rng.choice([0x60, 0x80, 0x200, 0x3e0])
            both[1]["final"] = 1
        steps += both
    return steps


def gen(prop, rng, tier, index):
    nodes = sysgen.gen_tree(rng, "P16", False, 4, 2)
    timed = sysgen.gen_links(rng, nodes, rng.random() < 0.4, 2)
    for n in nodes:
        n["port"] = {"caps": gen_caps(rng, False)}
        if n["type"] == "sw":
            n["up"] = {"caps": gen_caps(rng, False)}
        else:
            for _ in range(rng.choice([1, 1, 2, 3, 8] if len(nodes) < 4 else [1, 1, 2])):
                bars = []
                slots = 6
                while slots and rng.random() < 0.6:
                    kind = rng.choice(["m32", "m32p", "m64", "m64p", "io"])
                    if kind.startswith("m64") and slots < 2:
                        continue
                    slots -= 2 if kind.startswith("m64") else 1
                    bars.append({"kind": kind, "size": rng.choice([4, 16, 256] if kind == "io" else [16, 128, 4096, 65536]), "cb": 1})
                n["fns"].append({"bars": bars, "caps": gen_caps(rng, True), "rom": rng.choice([0, 0, 0x800, 0x10000]),
                    "mpss": rng.choice([0, 2, 5]), "ext": rng.randrange(2)})
    small = sum(len(n.get("fns", [])) + 2 for n in nodes)
    actors = rng.choice([2, 3, 4, 6])
    nops = rng.choice([30, 60, 120, 200])
    ops = []
    # few registers at a time, so that accesses meet
    focus = [(rng.randrange(64), rng.randrange(1 << 20), rng.choice(["rw", "rw", "w1c", "pm", "pcie", "pcie", "msi", "msix", "aer", "exp2", "any"]))
        for _ in range(rng.choice([1, 2, 4, 12, 30]))]
    for i in range(nops):
        x = rng.random()
        op = {"a": rng.randrange(actors), "seed": rng.getrandbits(32)}
        if x < 0.1:
            op["k"] = "absent"
        else:
            t, reg, pool = rng.choice(focus)
            if rng.random() < 0.25:
                t, reg, pool = rng.randrange(64), rng.randrange(1 << 20), rng.choice(["any", "any", "rw", "pcie", "msi", "msix", "pm", "aer", "exp2", "wild"])
            op.update(t=t, reg=reg, pool=pool, k="event" if x < 0.25 else rng.choice("wwrrr"), api=rng.choice([0, 0, 1, 2, 3, 4]))
        if rng.random() < 0.3:
            op["gap"] = rng.choice([10, 200, 3000])
        ops.append(op)
    cfg = {"seed": rng.getrandbits(32), "precision": rng.choice([-9, -10, -11, -12] if timed else [-9, -10]), "rc": {"tags": rng.choice([0, 0, 1, 2, 5])},
        "nodes": nodes, "actors": actors}
    if rng.random() < 0.4:
        cfg["jitter"] = {"seed": rng.getrandbits(32), "ns": rng.choice([1, 20, 200] if timed else [1, 20])}
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        f = sysgen.gen_fault(rng, len(nodes), 100)
        f["ph"] = rng.choice([0, 1, 1, 1])
        if not timed and "ns" in f:
            f["ns"] = min(f["ns"], 300)
        faults.append(f)
    return {"engine": "cfgspace", "prop": prop, "cfg": cfg, "ops": ops, "faults": faults,
        "sched": {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}}


def simplify(plan):
    cfg = plan["cfg"]
    last = len(cfg["nodes"]) - 1
    if last > 0 and not any(n["parent"] == last for n in cfg["nodes"]) and not any(f["link"] == last for f in plan["faults"]):
        p = copy.deepcopy(plan)
        p["cfg"]["nodes"].pop()
        yield p
    if cfg.get("jitter"):
        p = copy.deepcopy(plan)
        p["cfg"].pop("jitter")
        yield p
    for i, n in enumerate(cfg["nodes"]):
        for j in range(len(n.get("fns", []))):
            if len(n["fns"]) > 1:
                p = copy.deepcopy(plan)
                del p["cfg"]["nodes"][i]["fns"][j]
                yield p
            for key in ("bars",):
                if n["fns"][j].get(key):
                    p = copy.deepcopy(plan)
                    p["cfg"]["nodes"][i]["fns"][j][key] = []
                    yield p
    for key in ("api", "gap"):
        if any(o.get(key) for o in plan["ops"]):
            p = copy.deepcopy(plan)
            for o in p["ops"]:
                o.pop(key, None)
            yield p
