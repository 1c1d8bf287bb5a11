"""Requests nobody can serve (P12) and operations that time out (P13), mixed with valid traffic."""
import copy
import random
from collections import Counter

from dsim import kernel  # noqa: F401 (installs the simulated GPI first)
import cocotb
from cocotb.triggers import Event, Timer

from cocotbext.pcie.core.tlp import TlpAttr, TlpTc
from cocotbext.pcie.core.utils import PcieId
from dsim.link import Rec
from dsim.wire import WireOracle, MRD, MWR, IO_R, IO_W, CFG0, CFG1, be_range
from engines import system
from engines.system import Engine

HARM = {"P05", "P06", "P07", "P08", "P11", "P19", "P21"}


class ErrWire(WireOracle):
    def arm(self, limits):
        super().arm(limits)
        self.present = set(self.s_present())
        self.seen_bytes = {}
        self.aliased = 0
        self.arrived = Counter()        # completions that reached the requester's port
        self.handled = Counter()        # completions the requester's port has delivered
        for i, t in self.s.taps.items():
            if self.s.nodes[i]["type"] == "dev":
                t.dirs[0].rx.rx_handler = self.counted(t.dirs[0].rx.rx_handler)
        b = self.s.rc.upstream_bridge
        if getattr(b, "upstream_tx_handler", None):
            b.upstream_tx_handler = self.counted(b.upstream_tx_handler)
        else:
            self.handled[(0, 0, 0)] = 1 << 60

    def counted(self, inner):
        async def handler(tlp):
            cpl = Rec(tlp).is_cpl()
            rid = tuple(tlp.requester_id)
            await inner(tlp)
            if cpl:
                self.handled[rid] += 1
        return handler

    def s_present(self):
        from dsim.system import walk
        yield (0, 0, 0)
        for d in walk(self.s.rc.host_bridge.bus):
            yield tuple(d.pcie_id)

    def hosts(self):
        for a, size, r in self.s.host:
            yield False, a, a + size, getattr(r, "fail", [])
        for a, size, r in self.s.hostio:
            yield True, a, a + size, getattr(r, "fail", [])
        yield False, 0x8000_0000, 0x8000_0000 + 0x1000, []

    def classify(self, req):
        """good, bad or maybe (partly served, or memory whose health changed)"""
        if req.ft in CFG0 or req.ft in CFG1:
            return "good" if tuple(req.completer_id) in self.present else "bad"
        io = req.ft in (IO_R, IO_W)
        lo, hi = req.address, req.address + 4 * req.length
        for fn_io, a, b, fn in self.bars:
            if fn_io == io and a <= lo and hi <= b:
                return "good"
            if fn_io == io and lo < b and a < hi:
                return "maybe"
        for h_io, a, b, fail in self.hosts():
            if h_io == io and lo < b and a < hi:
                if not (a <= lo and hi <= b):
                    return "maybe"
                for s, e in fail:
                    if lo - a < e and s < hi - a:
                        return "maybe" if io or not (s <= lo - a and hi - a <= e) else "bad"
                return "good"
        return "bad"

    def request(self, d, rec, node):
        key = (tuple(rec.requester_id), int(rec.tag))
        if rec.cls == 1:
            lo, hi, _ = be_range(rec)
            r = key[0]
            self.seen_bytes[r] = self.seen_bytes.get(r, 0) + max(hi - lo, 1)
            if key in self.out and self.engine.mode == "P13" and r in self.engine.dead_after:
                # a timed-out request's tag came round before its late completion
                self.stats["aliased"] += 1
                self.aliased += 1
                del self.out[key]
        super().request(d, rec, node)

    def completion(self, d, rec):
        key = (tuple(rec.requester_id), int(rec.tag))
        self.arrived[key[0]] += 1
        o = self.out.get(key)
        if o is not None and int(rec.status) == 0 and self.classify(o[0]) == "bad":
            self.bad("P12", "served", f"{d!r}: successful completion for a request that nobody claims or whose memory fails: {rec} for {o[0]}")
            del self.out[key]
            return
        if o is None and self.engine.mode == "P12":
            self.bad("P12", "unexpected", f"{d!r}: completion for no outstanding request: {rec}")
            return
        super().completion(d, rec)

    def status(self, d, req, rec):
        c = self.classify(req)
        st = int(rec.status)
        self.stats[f"status_{st}"] += 1
        if rec.tc != req.tc or rec.attr != req.attr:
            self.bad("P12", "attributes", f"{d!r}: error completion has tc {int(rec.tc)} attr {int(rec.attr)}, request {int(req.tc)}/{int(req.attr)}: {rec}")
        if st not in (1, 4):
            self.bad("P12", "status", f"{d!r}: completion with status {st}: {rec} for {req}")
        elif c == "good":
            self.bad("P12", "spurious_error", f"{d!r}: error status {st} for a request that can be served: {rec} for {req}")
        if rec.data:
            self.bad("P12", "data", f"{d!r}: error completion carries {len(rec.data)} bytes: {rec}")


class ErrEngine(Engine):
    wire_class = ErrWire

    def __init__(self, plan):
        super().__init__(plan)
        self.mode = plan.get("mode", plan["prop"])
        self.dead_after = {}
        self.asked = {}
        self.issued = {}
        self.live = {}           # requester -> list of [start count, older, end time or None]
        self.gate_ev = []

    def bad(self, prop, kind, msg):
        self.out.violation(prop, kind, msg)
        p = self.plan["prop"]
        if prop in HARM and prop != p:
            if self.mode == "P13" and getattr(self, "wire", None) is not None and getattr(self.wire, "aliased", 0):
                return
            self.out.violation(p, kind, msg)

    async def do(self, i, a, who, fn, st, op):
        k = op["k"]
        if k == "bad":
            return await self.bad_op(i, a, fn, op)
        if k == "badcfg":
            return await self.bad_cfg(i, op)
        if k == "fail":
            return await self.fail_op(i, fn, op)
        if k == "rt":
            return await self.timed_read(i, a, who, fn, op)
        if k == "crt":
            return await self.timed_cfg(i, op)
        return await super().do(i, a, who, fn, st, op)

    # -- P12 ---------------------------------------------------------------
    def holes(self, fn, io):
        """Addresses nobody claims, as (start, length)."""
        key = (fn is None, io)
        cache = self.__dict__.setdefault("_holes", {})
        if key in cache:
            return cache[key]
        busy = sorted((a, b) for x, a, b, _ in self.wire.bars if x == io)
        busy += [(a, b) for x, a, b, _ in self.wire.hosts() if x == io]
        busy.sort()
        cand = []
        for a, b in busy:
            cand.append(b)
            cand.append(b + 64)
        if io:
            cand += [0x8000_0000, 0x8100_0000, 0xffff_f000] + ([] if fn is None else [0x7000_0000, 0x1000])
            ok = (lambda x: x >= 0x8000_0000) if fn is None else (lambda x: x < 1 << 32)
        else:
            cand += [0xc000_0000, 0xf000_0000, 0xffff_f000, 0x8000_0000_0000_0000, 0x8000_0100_0000_0000] + \
                ([] if fn is None else [0x7fff_f000, 0x9000_0000, 0x2000_0000_0000, 0x1_2000_0000])
            ok = (lambda x: 0xc000_0000 <= x < 1 << 32 or x >= 1 << 63) if fn is None else (lambda x: True)
        out = []
        for c in cand:
            if not ok(c):
                continue
            lim = min([a for a, b in busy if a > c] + [c + 4096])
            for edge in (0x8000_0000, 0xc000_0000, 1 << 32, 1 << 63):
                if c < edge < lim:
                    lim = edge
            if any(a <= c < b for a, b in busy) or lim - c < 16 or (io and lim > 1 << 32):
                continue
            out.append((c, lim - c))
        cache[key] = out
        return out

    async def bad_op(self, i, a, fn, op):
        r = random.Random(op["seed"])
        hs = self.holes(fn, op["io"])
        if not hs:
            return
        base, room = r.choice(hs)
        off = r.choice([0, 0, r.randrange(room), 4 * r.randrange(room // 4)])
        n = max(min(op["len"], room - off), 0 if op["io"] else 1)
        addr = base + off
        name = "host" if fn is None else repr(fn)
        self.current[i] = (self.plan["prop"], f"{name} {'write' if op['w'] else 'read'} at unclaimed {addr:#x}")
        self.stats["bad_io" if op["io"] else "bad_mem"] += 1
        io = self.s.rc if fn is None else fn.ep
        debt = 2 * (n // 64 + 2) if not op["io"] else n // 4 + 2
        kw = {} if op["io"] else {"tc": TlpTc(op.get("tc", 0)), "attr": TlpAttr(op.get("attr", 0))}
        posted = op["w"] and not op["io"]
        if not posted:
            await self.owe(debt)
        failed = False
        try:
            if op["w"]:
                d = r.randbytes(n)
                await (io.io_write if op["io"] else io.mem_write)(addr, d, **kw)
            else:
                await (io.io_read if op["io"] else io.mem_read)(addr, n, **kw)
        except AssertionError:
            raise
        except Exception:
            failed = True
        if not posted:
            self.settle(debt)
        self.progress += 1
        if posted and failed:
            self.bad("P12", "posted_failed", f"{name} write of {n} bytes at unclaimed {addr:#x} raised an error; posted writes are dropped silently")
        if not posted and not failed and (n or not op["io"]):
            self.bad("P12", "not_failed", f"{name} {'write' if op['w'] else 'read'} of {n} bytes at unclaimed {addr:#x} did not fail")

    async def bad_cfg(self, i, op):
        r = random.Random(op["seed"])
        present = self.wire.present
        buses = sorted({p[0] for p in present})
        for _ in range(40):
            p = r.choice(sorted(present))
            m = r.randrange(4)
            t = (r.choice(buses), r.choice([0, 0, r.randrange(32)]), r.randrange(8)) if m == 0 else \
                (p[0], p[1], r.randrange(8)) if m == 1 else (p[0], r.randrange(32), p[2]) if m == 2 else (r.randrange(256), 0, 0)
            if t not in present:
                break
        else:
            return
        dev = PcieId(*t)
        off = r.choice([0, 0, 4, 8, r.randrange(256), r.randrange(4090)])
        n = r.choice([1, 2, 4, 4, 7, 8])
        n = min(n, 4096 - off)
        self.current[i] = (self.plan["prop"], f"host config access to absent {dev}")
        self.stats["bad_cfg"] += 1
        if op["w"]:
            await self.s.rc.config_write(dev, off, r.randbytes(n))
        else:
            d = bytes(await self.s.rc.config_read(dev, off, n))
            if d != b"\xff" * n:
                self.bad("P12", "absent_config", f"config read of {n} bytes at {off:#x} of absent {dev} returned {d.hex()}")
        self.progress += 1

    async def fail_op(self, i, fn, op):
        """A device accesses host memory part of which fails."""
        hosts = [(j, h) for j, h in enumerate(self.s.host) if getattr(h[2], "fail", None)]
        if not hosts or fn is None:
            return
        r = random.Random(op["seed"])
        j, (base, size, reg) = r.choice(hosts)
        s, e = reg.fail[0]
        m = r.randrange(4)
        if m == 0 or op["w"]:
            off = r.randrange(s, e)
            n = r.choice([1, 4, 16, 100, 300])
            n = min(n, e - off)
        elif m == 1:
            off, n = max(s - r.randrange(1, 64), 0), r.choice([64, 200, 600])
        else:
            off, n = r.randrange(s, e), r.choice([100, 1000, 3000])
        n = min(n, size - off)
        addr = base + off
        self.stats["bad_hostmem"] += 1
        self.current[i] = (self.plan["prop"], f"{fn} {'write to' if op['w'] else 'read of'} failing host memory")
        kw = {"tc": TlpTc(op.get("tc", 0)), "attr": TlpAttr(op.get("attr", 0))}
        before = bytes(reg.mem[0:size]) if op["w"] else None
        try:
            if op["w"]:
                await fn.ep.mem_write(addr, r.randbytes(n), **kw)
            else:
                await fn.ep.mem_read(addr, n, **kw)
            if not op["w"] and off < e and s < off + n:
                self.bad("P12", "not_failed", f"{fn} read of {n} bytes at host[{j}]+{off:#x} returned data although that memory fails")
        except AssertionError:
            raise
        except Exception as x:
            if op["w"]:
                self.bad("P12", "posted_failed", f"{fn} write to failing host memory raised {type(x).__name__}: {x}")
        self.progress += 1

    # -- P13 ---------------------------------------------------------------
    # The protocol cannot tell a late completion from that of a later request once the tag is in use again, so requests are held
    # back while an unresolved timed operation's tag could come round.
    def unresolved(self, rid):
        l = self.live.get(rid, [])
        quiet = self.asked.get(rid, 0) == self.wire.seen_bytes.get(rid, 0)
        keep = []
        for z in l:
            if z[2] is not None and quiet and z[4] is None:
                z[4] = self.k.time          # everything asked so far is on the wire
            if z[4] is not None and z[5] is None and not any(k[0] == rid and o[0].t <= z[4] for k, o in self.wire.out.items()):
                z[5] = self.wire.arrived[rid]
            if z[5] is not None and self.wire.handled[rid] >= z[5]:
                continue
            keep.append(z)
        self.live[rid] = keep
        return keep

    async def gate(self, rid, n, nbytes, timed):
        tags = self.wire.limits[rid]["tags"]
        if timed and n >= tags - 1:
            return None
        first = True
        while True:
            l = self.unresolved(rid)
            if all(self.issued.get(rid, 0) + n - z[0] + z[1] < tags - 1 for z in l):
                break
            if first:
                self.stats["gated"] += 1
                first = False
            await Timer(max(int(100 * self.ps), 1), "step")
        z = [self.issued.get(rid, 0), sum(x[3] for x in self.live.get(rid, [])), None, n, None, None]
        self.issued[rid] = z[0] + n
        self.asked[rid] = self.asked.get(rid, 0) + nbytes
        self.live.setdefault(rid, []).append(z)
        return z

    async def timed_read(self, i, a, who, fn, op):
        sl = a["slices"][op["s"]]
        tg = self.target(sl["t"])
        lo, hi = sl["lo"], sl["hi"]
        off = lo + op["off"] % (hi - lo)
        n = min(op["len"], hi - off)
        rid = self.requester(fn)
        name = "host" if fn is None else repr(fn)
        addr = tg.addr + off
        if n <= 0:
            return
        nreq = (n + 3) // 4 + 1 if tg.io else n // 128 + 2
        single = (addr & ~3) + 4 >= addr + n if tg.io else n <= 128 and (addr >> 7) == (addr + n - 1) >> 7 and (addr >> 6) == (addr + n - 1) >> 6
        if single:
            nreq = 1
        self.current[i] = (self.plan["prop"], f"{name} timed read of {tg.desc}")
        z = await self.gate(rid, nreq, n, True)
        if z is None:
            return
        io = self.s.rc if fn is None else fn.ep
        T = op["T"]
        busy = sum(x[3] for x in self.live[rid]) > self.wire.limits[rid]["tags"] - 1
        t0 = self.k.time
        self.stats["timed_ops"] += 1
        dead = False
        try:
            d = bytes(await (io.io_read if tg.io else io.mem_read)(addr, n, timeout=T, timeout_unit="ns"))
        except AssertionError:
            raise
        except Exception as e:
            dead = True
            msg = str(e)
        el = (self.k.time - t0) / self.ps
        z[2] = self.k.time
        self.progress += 1
        self.dead_after[rid] = max(self.dead_after.get(rid, -1), self.k.time + 1) if dead else self.dead_after.get(rid, -1)
        if self.wire.aliased:
            return
        if dead:
            self.stats["timeouts"] += 1
            if "imeout" not in msg:
                self.bad("P13", "op_failed", f"{name} read of {n} bytes at {tg.desc}+{off:#x} failed: {msg}")
                return
            if el < T - 1.01:
                self.bad("P13", "early", f"{name} read of {n} bytes at {tg.desc}+{off:#x} with timeout {T} ns reported it after {el:.2f} ns")
            if fn is None and single and not busy and el > T + 3:
                self.bad("P13", "late", f"{name} read of {n} bytes at {tg.desc}+{off:#x} with timeout {T} ns reported it after {el:.2f} ns")
            return
        self.stats["timed_ok"] += 1
        want = bytes(tg.shadow[off:off+n])
        if d != want:
            self.bad("P13", "wrong_data", f"{name} read of {n} bytes at {tg.desc}+{off:#x} (timeout {T} ns) returned wrong data: {d[:16].hex()}.. for {want[:16].hex()}..")

    async def timed_cfg(self, i, op):
        fn = self.s.fns[op["fn"] % len(self.s.fns)]
        rid = (0, 0, 0)
        self.current[i] = (self.plan["prop"], f"host timed config read of {fn}")
        want = {0: bytes([0x34, 0x12]) + fn.ep.device_id.to_bytes(2, "little"), 8: (fn.ep.class_code << 8 | fn.ep.revision_id).to_bytes(4, "little")}
        off = (0, 8)[op["seed"] & 1]
        z = await self.gate(rid, 1, 4, True)
        if z is None:
            return
        t0 = self.k.time
        d = bytes(await self.s.rc.config_read(fn.id, off, 4, timeout=op["T"], timeout_unit="ns"))
        z[2] = self.k.time
        el = (self.k.time - t0) / self.ps
        self.progress += 1
        self.stats["timed_cfg"] += 1
        if self.wire.aliased:
            return
        if d == b"\xff" * 4:
            self.stats["timeouts"] += 1
            self.dead_after[rid] = max(self.dead_after.get(rid, -1), self.k.time + 1)
            if el < op["T"] - 1.01:
                self.bad("P13", "early", f"config read of {fn} with timeout {op['T']} ns reported it after {el:.2f} ns")
        elif d != want[off]:
            self.bad("P13", "wrong_data", f"config read of {fn} register {off:#x} returned {d.hex()}, expected {want[off].hex()}")

    async def read_check(self, who, fn, tg, prop, off, n, ext, tc, attr, api):
        if self.mode != "P13" or not self.wire.armed:
            return await super().read_check(who, fn, tg, prop, off, n, ext, tc, attr, api)
        # untimed operations share the tag space: hold them back too
        a = max(off - ext[0], 0) if n else off
        b = min(off + n + ext[1], tg.size) if n else off
        ln = max(b - a, 1)
        step = 4 if tg.io else 64
        rid = self.requester(fn)
        if ln > step:
            for o in range(off, off + n, step):
                await self.read_check(who, fn, tg, prop, o, min(step, off + n - o), [0, 0], tc, attr, 0)
            return
        nreq = (ln + 3) // 4 + 1 if tg.io else 2
        z = await self.gate(rid, min(nreq, self.wire.limits[rid]["tags"] - 2), ln, False)
        await super().read_check(who, fn, tg, prop, off, n, ext, tc, attr, api)
        z[2] = self.k.time


    async def write(self, who, fn, tg, off, data, tc, attr, api):
        if self.mode != "P13" or not tg.io or not self.wire.armed:
            return await super().write(who, fn, tg, off, data, tc, attr, api)
        rid = self.requester(fn)
        # one dword at a time: every request is gated
        o = 0
        while True:
            n = min(len(data) - o, 4 - (tg.addr + off + o) % 4)
            z = await self.gate(rid, 1, max(n, 1), False)
            await super().write(who, fn, tg, off + o, data[o:o+n], tc, attr, 0)
            z[2] = self.k.time
            o += n
            if o >= len(data):
                break


def run(plan):
    return ErrEngine(plan).run()


# ---------------------------------------------------------------------------------------------

def gen(prop, rng, tier, index):
    base = rng.choice(["P05", "P06", "P06", "P08" if prop == "P12" else "P05"])
    plan = system.gen(base, rng, tier, index)
    cfg = plan["cfg"]
    plan["engine"] = "errors"
    plan["prop"] = prop
    plan["mode"] = mode = prop if prop == "P12" else "P13"
    fns = [[i, fi] for i, n in enumerate(cfg["nodes"]) if n["type"] == "dev" for fi in range(len(n["fns"]))]
    nact = len(cfg["actors"])
    if mode == "P12":
        fl = None
        if rng.random() < 0.6:
            # a host memory part of which fails; nobody else uses it
            fl = len(cfg["hostmem"])
            size = 8192
            s = rng.randrange(0, 6000)
            cfg["hostmem"].append({"size": size, "addr": 0xa000_0000, "fail": [s, s + rng.choice([1, 4, 64, 1000, 2000])], "slow": rng.choice([0, 0, 50])})
        for _ in range(rng.randrange(1, 5)):
            who = rng.choice(["host", "host"] + fns)
            cfg["actors"].append({"who": who, "cls": "err", "slices": []})
            a = len(cfg["actors"]) - 1
            burst = rng.choice([2, 5, 12]) if rng.random() < 0.8 else rng.choice([40, 70])
            for _ in range(burst):
                x = rng.random()
                if x < 0.3 and who == "host":
                    op = {"a": a, "k": "badcfg", "w": rng.random() < 0.3}
                elif x < 0.45 and who != "host" and fl is not None:
                    op = {"a": a, "k": "fail", "w": rng.random() < 0.3, "tc": rng.choice([0, rng.randrange(8)]), "attr": rng.choice([0, rng.randrange(8)])}
                else:
                    io = rng.random() < 0.25
                    op = {"a": a, "k": "bad", "io": io, "w": rng.random() < 0.4, "len": rng.choice([1, 4, 8, 13] if io else [1, 4, 16, 100, 300, 1000]),
                        "tc": rng.choice([0, rng.randrange(8)]), "attr": rng.choice([0, rng.randrange(8)])}
                op["seed"] = rng.getrandbits(32)
                plan["ops"].append(op)
                if rng.random() < 0.1:
                    plan["ops"].append({"a": a, "k": "d", "ns": rng.choice([1, 50, 1000])})
        if rng.random() < 0.5:
            cfg["probe"] = [{"who": list(rng.choice(fns)), "t": ["host", 0]}]
            mem = [(i, fi, bi) for i, fi in fns for bi, b in enumerate(cfg["nodes"][i]["fns"][fi]["bars"]) if b["kind"] != "io"]
            if mem and rng.random() < 0.6:
                cfg["probe"].append({"who": "host", "t": ["bar", *rng.choice(mem)]})
    else:
        cfg.pop("p2p", None)
        # single-path traffic: no peer-to-peer, untimed multi-read bursts become timed reads
        keep = []
        for op in plan["ops"]:
            a = cfg["actors"][op["a"]]
            if op["k"] in ("cr", "cw", "pub", "irq"):
                continue
            if op["k"] in ("r", "rr"):
                if a["slices"][op["s"]]["io"] or rng.random() < 0.85:
                    op = {"a": op["a"], "s": op["s"], "k": "rt", "off": op["off"], "len": min(max(op["len"], 1), 16 if a["slices"][op["s"]]["io"] else
                        rng.choice([4, 16, 64, 200, 500, 1500])), "T": rng.choice([20, 100, 300, 1000, 3000, 10000])}
            elif op["k"] == "w":
                op["len"] = min(op["len"], 256)
            keep.append(op)
            if rng.random() < 0.8 and op["k"] == "rt":
                for _ in range(rng.choice([1, 2, 6, 12])):
                    keep.append(dict(op, off=rng.randrange(6000), T=rng.choice([20, 100, 300, 1000, 3000, 10000])))
        plan["ops"] = keep
        for a in cfg["actors"]:
            a["slices"] = [s for s in a["slices"]]
        for n in cfg["nodes"]:
            for f in n.get("fns", []):
                f.pop("tags", None)
                if rng.random() < (0.3 if prop == "P13" else 0.8):
                    f["tags"] = rng.choice([8, 8, 16, 32])
                for b in f["bars"]:
                    if rng.random() < 0.7:
                        b["cb"] = True
                        b["slow"] = rng.choice([50, 300, 2000, 8000])
                        cfg["slow"] = max(cfg["slow"], b["slow"])
        for h in cfg["hostmem"]:
            if h["addr"] is not None and rng.random() < 0.7:
                h["slow"] = rng.choice([50, 300, 2000, 8000])
                cfg["slow"] = max(cfg["slow"], h["slow"])
        if rng.random() < 0.4:
            cfg["rc"]["tags"] = rng.choice([8, 16, 256])
        # configuration reads with a timeout
        if rng.random() < 0.4:
            cfg["actors"].append({"who": "host", "cls": "cfg", "slices": []})
            for _ in range(rng.randrange(1, 12)):
                plan["ops"].append({"a": len(cfg["actors"]) - 1, "k": "crt", "fn": rng.randrange(8), "seed": rng.getrandbits(16), "T": rng.choice([20, 100, 500, 3000])})
        for _ in range(rng.choice([0, 1, 3])):
            plan["faults"].append({"kind": "tlp_stall", "link": rng.randrange(len(cfg["nodes"])), "dir": rng.randrange(2), "n": rng.randrange(60),
                "ns": rng.choice([500, 3000, 12000]), "ph": 1})
        if "probe" in cfg:
            cfg["probe"] = [p for p in cfg["probe"] if p["who"] != "host"][:1]
            if not cfg["probe"]:
                cfg.pop("probe")
    return plan


def simplify(plan):
    yield from system.simplify(plan)
    for i, op in enumerate(plan["ops"]):
        if op["k"] == "rt" and op["len"] > 4:
            p = copy.deepcopy(plan)
            p["ops"][i]["len"] = 4
            yield p
