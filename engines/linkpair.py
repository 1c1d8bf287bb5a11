"""Two real ports joined by a faulty link: exactly-once delivery, credit safety and progress, ACKs."""
import random
from collections import Counter, deque

from dsim import kernel
import cocotb
from cocotb.triggers import Event, Timer, First, NullTrigger, Combine

from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.dllp import DllpType
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpAt, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from dsim.link import LinkTap, Observer, Rec, ACKS, INITS, UPDATES, HDR_FIELDS
from dsim.outcome import Outcome

# number of bits a lane moves per nanosecond after encoding
RATE = {1: 2.0, 2: 4.0, 3: 8 * 128 / 130, 4: 16 * 128 / 130, 5: 32 * 128 / 130}

NP_NODATA = [TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_READ_LOCKED, TlpType.MEM_READ_LOCKED_64,
    TlpType.IO_READ, TlpType.CFG_READ_0, TlpType.CFG_READ_1]
NP_DATA1 = [TlpType.IO_WRITE, TlpType.CFG_WRITE_0, TlpType.CFG_WRITE_1]
ATOMIC = [TlpType.FETCH_ADD, TlpType.FETCH_ADD_64, TlpType.SWAP, TlpType.SWAP_64, TlpType.CAS, TlpType.CAS_64]
MSG = [TlpType.MSG_TO_RC, TlpType.MSG_ADDR, TlpType.MSG_ID, TlpType.MSG_BCAST, TlpType.MSG_LOCAL, TlpType.MSG_GATHER]
MSGD = [TlpType.MSG_DATA_TO_RC, TlpType.MSG_DATA_ADDR, TlpType.MSG_DATA_ID, TlpType.MSG_DATA_BCAST,
    TlpType.MSG_DATA_LOCAL, TlpType.MSG_DATA_GATHER]
KINDS = {
    "p": lambda r: r.choice([TlpType.MEM_WRITE, TlpType.MEM_WRITE_64] * 3 + MSG + MSGD),
    "np": lambda r: r.choice(NP_NODATA * 2 + NP_DATA1 * 2 + ATOMIC),
    "cpl": lambda r: r.choice([TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA]),
    "mix": lambda r: KINDS[r.choice(["p", "np", "cpl"])](r),
}
NAMES = ("P", "NP", "CPL")


def make_tlp(r, kind, max_dw):
    t = Tlp()
    t.fmt_type = KINDS[kind](r)
    t.tc = TlpTc(r.randrange(8))
    for f in ("ln", "th", "td", "ep", "bcm"):
        setattr(t, f, r.random() < 0.2)
    t.attr = TlpAttr(r.randrange(8))
    t.at = TlpAt(r.randrange(3))
    t.completer_id = PcieId.from_int(r.randrange(65536))
    t.requester_id = PcieId.from_int(r.randrange(65536))
    t.status = CplStatus(r.choice([0, 1, 2, 4]))
    t.byte_count = r.randrange(1, 4097)
    t.tag = r.randrange(1024)
    t.first_be = r.randrange(16)
    t.last_be = r.randrange(16)
    t.lower_address = r.randrange(128)
    t.address = r.getrandbits(64) & ~3
    t.ph = r.randrange(4)
    t.length = r.randrange(1025)
    if t.fmt in (2, 3):
        ft = t.fmt_type
        if ft in NP_DATA1:
            n = 1
        elif ft in ATOMIC:
            n = r.choice([1, 2, 4, 8])
        else:
            n = min(r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 128, 256, 1024, r.randrange(1, 1025)]), max_dw)
        t.set_data(r.randbytes(4 * n))
    return t


def fc_range(i):
    return 4096 if i % 2 == 0 else 65536


class Monitor(Observer):
    """Wire-level oracle for one link pair.  Index: dir d carries packets from side d to side 1-d."""

    def __init__(self, eng):
        self.e = eng
        self.sent = ([], [])                       # TLPs in wire order
        self.consumed = [[0] * 6, [0] * 6]         # cumulative credit spent by side d
        self.limit = [[None] * 6, [None] * 6]      # cumulative credit delivered to side d
        self.adv = [[None] * 6, [None] * 6]        # cumulative credit advertised by side d
        self.advi = [[0] * 3, [0] * 3]
        self.rel_hist = [[[(0, 0)] for _ in range(3)] for _ in range(2)]   # released (h, d) by side
        self.recv_seq = [0, 0]                     # TLPs delivered to side d (cumulative)
        self.ack_cum = [0, 0]                      # TLPs side d has acknowledged (cumulative)
        self.unacked = (deque(), deque())         # (cumulative number, time received) not yet acknowledged by side d
        self.reack = ([], [])                      # times of replays not yet answered by side d
        self.init_seen = [[0] * 3, [0] * 3]
        self.last_ack = [0, 0]                     # newest ack delivered to side d

    # --- transmission side ------------------------------------------------
    def on_tx_tlp(self, d, tlp, rec, now):
        i = d.idx
        e = self.e
        self.sent[i].append(rec)
        want = (len(self.sent[i]) - 1) & 0xfff
        if rec.seq != want:
            e.bad("P01", "seq", f"dir {i}: TLP number {len(self.sent[i])-1} carries sequence number {rec.seq}, expected {want}")
        c = rec.cls
        self.consumed[i][2*c] += 1
        self.consumed[i][2*c+1] += rec.dc
        for j in (2*c, 2*c+1):
            lim = self.limit[i][j]
            if lim is None:
                e.bad("P02", "before_init", f"dir {i}: TLP sent before credit for {NAMES[c]} was advertised")
            elif lim != "inf" and self.consumed[i][j] > lim:
                e.bad("P02", "overrun", f"dir {i}: {NAMES[c]} {'header' if j%2==0 else 'data'} credit: "
                    f"{self.consumed[i][j]} consumed, {lim} granted")
            elif lim != "inf" and self.consumed[i][j] == lim:
                e.stats["credit_exhausted"] += 1
            if lim not in (None, "inf") and self.consumed[i][j] >= fc_range(j):
                e.stats["credit_wrapped"] += 1

    def on_tx_dllp(self, d, p, now):
        i = d.idx
        e = self.e
        if p.type in ACKS:
            if p.type == DllpType.NAK:
                e.bad("P04", "nak", f"side {i} sent a NAK although no TLP was lost")
                return
            have = self.recv_seq[i]
            # candidate cumulative count congruent to the ACK's sequence number
            cum = self.ack_cum[i] + ((p.seq + 1 - self.ack_cum[i]) & 0xfff)
            if cum > have:
                if (self.ack_cum[i] - p.seq - 1) & 0xfff < 2048 and self.ack_cum[i] >= 4096 - 2048:
                    e.bad("P04", "backwards", f"side {i} acknowledged seq {p.seq} after having acknowledged {(self.ack_cum[i]-1)&0xfff}")
                else:
                    e.bad("P04", "premature", f"side {i} acknowledged seq {p.seq} but has received only {have} TLPs")
                return
            self.ack_cum[i] = cum
            e.stats["acks"] += 1
            q = self.unacked[i]
            while q and q[0][0] <= cum:
                n, t0 = q.popleft()
                if now - t0 > e.ack_bound_steps[i]:
                    e.bad("P04", "late", f"side {i}: TLP {n-1} acknowledged only after {now-t0} steps (bound {e.ack_bound_steps[i]})")
            r = self.reack[i]
            if r:
                if now - r[0] > e.ack_bound_steps[i]:
                    e.bad("P04", "late_replay", f"side {i}: replayed TLP acknowledged only after {now-r[0]} steps (bound {e.ack_bound_steps[i]})")
                r.clear()
        elif p.type in INITS:
            c = {0x40: 0, 0x50: 1, 0x60: 2}[int(p.type) & 0x70]
            self.init_seen[i][c] += 1
            want = e.fc[i][2*c:2*c+2]
            for j in range(2):
                if self.adv[i][2*c+j] is None:
                    self.adv[i][2*c+j] = want[j]
        elif p.type in UPDATES:
            c = {0x00: 0, 0x10: 1, 0x20: 2}[int(p.type) & 0x70]
            vals = (p.hdr_fc, p.data_fc)
            cums = []
            for j in range(2):
                init = e.fc[i][2*c+j]
                if init == 0:
                    if vals[j] != 0:
                        e.bad("P02", "inf_update", f"side {i} advertised non-zero {NAMES[c]} credit {vals} for an infinite class")
                    cums.append(0)
                    continue
                prev = self.adv[i][2*c+j]
                prev = init if prev is None else prev
                cum = prev + ((vals[j] - prev) % fc_range(j))
                self.adv[i][2*c+j] = cum
                cums.append(cum)
            hist = self.rel_hist[i][c]
            k = self.advi[i][c]
            ini = e.fc[i]
            while k < len(hist):
                h, dd = hist[k]
                if all(ini[2*c+j] == 0 or cums[j] == ini[2*c+j] + (h, dd)[j] for j in range(2)):
                    break
                k += 1
            if k == len(hist):
                e.bad("P02", "over_advertised", f"side {i} advertised {NAMES[c]} credit {vals} (cumulative {cums}); configured "
                    f"{ini[2*c:2*c+2]}, released so far {hist[-1]}: no moment in its history matches")
            else:
                self.advi[i][c] = k
            e.stats["updates"] += 1

    # --- delivery side -----------------------------------------------------
    def on_rx_dllp(self, d, p, now):
        i = 1 - d.idx       # side receiving
        e = self.e
        if p.type in INITS:
            c = {0x40: 0, 0x50: 1, 0x60: 2}[int(p.type) & 0x70]
            for j, v in ((2*c, p.hdr_fc), (2*c+1, p.data_fc)):
                if self.limit[i][j] is None:
                    self.limit[i][j] = "inf" if v == 0 else v
                    if v != e.fc[1-i][j]:
                        e.bad("P03", "init_value", f"side {i} learns initial {NAMES[c]} credit {v}, configured {e.fc[1-i][j]}")
        elif p.type in UPDATES:
            c = {0x00: 0, 0x10: 1, 0x20: 2}[int(p.type) & 0x70]
            for j, v in ((2*c, p.hdr_fc), (2*c+1, p.data_fc)):
                lim = self.limit[i][j]
                if lim not in (None, "inf"):
                    self.limit[i][j] = lim + ((v - lim) % fc_range(j))
        elif p.type in ACKS:
            cum = self.last_ack[i] + ((p.seq + 1 - self.last_ack[i]) & 0xfff)
            if cum <= len(self.sent[i]):
                self.last_ack[i] = cum

    def on_rx_tlp(self, d, tlp, repeated, now):
        i = 1 - d.idx
        e = self.e
        if not repeated:
            self.recv_seq[i] += 1
            self.unacked[i].append((self.recv_seq[i], now))
        else:
            e.stats["replayed_tlps"] += 1
            self.reack[i].append(now)


class Engine:
    def __init__(self, plan):
        self.plan = plan
        self.out = Outcome()
        self.stats = self.out.stats
        cfg = plan["cfg"]
        self.fc = cfg["fc"]

    def bad(self, prop, kind, msg):
        self.out.violation(prop, kind, msg)

    async def main(self, k):
        plan, cfg = self.plan, self.plan["cfg"]
        self.k = k
        ports = []
        for s in range(2):
            p = SimPort([list(self.fc[s])] + [[1, 1, 1, 1, 1, 1]] * 7)
            if cfg["speed"][s]:
                p.max_link_speed = cfg["speed"][s]
            if cfg["width"][s]:
                p.max_link_width = cfg["width"][s]
            p.port_delay = cfg["port_delay"][s] * 1e-9
            ports.append(p)
        self.ports = ports
        sp = min((x for x in cfg["speed"] if x), default=None)
        wd = min((x for x in cfg["width"] if x), default=None)
        if sp and wd:
            bpns = RATE[sp] * wd
            self.byte_ns = 8 / bpns
            uf = 1.4 if wd <= 4 else 2.5 if wd == 8 else 3.0
            lat_ns = ((128 + 28) * uf / wd + {1: 19, 2: 70}.get(sp, 115)) * 8 / RATE[sp]
            self.delay_ns = sum(cfg["port_delay"])
        else:
            self.byte_ns = 0
            lat_ns = 0
            self.delay_ns = 0
        ps = 10.0 ** (-9 - k.precision)
        step_ns = 1 / ps
        maxpkt = 16 + 8 + 4 * max(cfg["max_dw"], 8)      # atomic operands may be longer than max_dw
        ab = (lat_ns + self.byte_ns * (maxpkt + 3 * 8) + self.delay_ns) * ps + 40
        self.ack_bound_steps = [int(ab) + 1] * 2
        self.lat_ns = lat_ns

        tap = LinkTap(k, "l", ports[0], ports[1], faults=plan["faults"], jitter=cfg.get("jitter"), fired=self.out.faults)
        mon = self.mon = Monitor(self)
        tap.observers.append(mon)

        self.expected = [[], []]          # per direction: (task, key) in per-task order
        self.got = [[], []]
        self.done_ev = Event()
        self.total = [0, 0]
        self.rx_random = [random.Random(f"rx:{cfg['seed']}:{s}") for s in range(2)]
        for s in range(2):
            ports[s].rx_handler = self.make_handler(s)

        if cfg.get("connect_delay_ns"):
            await Timer(max(int(cfg["connect_delay_ns"] * ps), 1), "step")
        ports[0].connect(ports[1])

        # traffic
        self.accepted = 0
        tasks = {}
        for n, op in enumerate(plan["ops"]):
            tasks.setdefault((op["dir"], op["task"]), []).append((n, op))
            self.total[op["dir"]] += op["n"]
        procs = [cocotb.start_soon(self.sender(d, t, ops)) for (d, t), ops in tasks.items()]
        budget = 200_000.0
        nf = len(plan["faults"])
        budget += nf * 80_000 + sum(f.get("ns", 0) for f in plan["faults"])
        per = maxpkt * self.byte_ns * 2 + lat_ns * 2 + self.delay_ns * 4 + 100 * step_ns + cfg.get("jitter", {}).get("ns", 0) * 4 + \
            max(cfg["rx"][0]["ns"], cfg["rx"][1]["ns"]) * 3 + (10 if not sp else 0)
        budget += per * (sum(self.total) + 20) + sum(op["gap_ns"] * op["n"] for op in plan["ops"]) + cfg.get("connect_delay_ns", 0)
        self.budget = budget
        deadline = Timer(max(int(budget * ps), 10), "step")
        allsent = Event()

        async def joiner():
            for p in procs:
                await p.join()
            while any(len(self.got[d]) < self.total[d] for d in range(2)):
                self.done_ev.clear()
                await self.done_ev.wait()
            allsent.set()
        cocotb.start_soon(joiner())
        r = await First(allsent.wait(), deadline)
        if not allsent.is_set():
            for d in range(2):
                miss = self.total[d] - len(self.got[d])
                if miss > 0:
                    blocked = len(self.mon.sent[d]) < self.total[d]
                    self.bad("P03" if blocked else "P01", "stuck", f"dir {d}: {miss} of {self.total[d]} TLPs not delivered after {budget:.0f} ns "
                        f"({len(self.mon.sent[d])} were transmitted)")
            self.check_order()
            return
        # drain: acknowledgements, releases and periodic credit advertisement
        await Timer(int(((70_000) + lat_ns * 2 + max(cfg["rx"][0]["ns"], cfg["rx"][1]["ns"]) * 4 + nf * 50_000 +
            cfg.get("jitter", {}).get("ns", 0) * 4 + sum(f.get("ns", 0) for f in plan["faults"])) * ps) + 100, "step")
        self.final()

    def make_handler(self, side):
        d = 1 - side
        cfg = self.plan["cfg"]["rx"][side]
        rng = self.rx_random[side]
        ps = 10.0 ** (-9 - self.k.precision)
        mon = self.mon
        pend = []

        def release(tlp, c, dc):
            h, dd = mon.rel_hist[side][c][-1]
            mon.rel_hist[side][c].append((h + 1, dd + dc))
            tlp.release_fc()
            if cfg.get("double"):
                tlp.release_fc()

        async def later(tlp, c, dc, steps):
            await Timer(max(steps, 1), "step")
            release(tlp, c, dc)

        async def handler(tlp):
            rec = Rec(tlp, self.k.time)
            self.got[d].append(rec)
            self.done_ev.set()
            mode = cfg["mode"]
            if mode == "now":
                release(tlp, rec.cls, rec.dc)
            elif mode == "delay":
                cocotb.start_soon(later(tlp, rec.cls, rec.dc, int(rng.random() * cfg["ns"] * ps)))
            elif mode == "slow":
                await Timer(max(int(rng.random() * cfg["ns"] * ps), 1), "step")
                release(tlp, rec.cls, rec.dc)
            elif mode == "batch":
                pend.append((tlp, rec.cls, rec.dc))
                if len(pend) == 1:
                    async def flush():
                        await Timer(max(int(cfg["ns"] * ps), 1), "step")
                        l = list(pend)
                        pend.clear()
                        if cfg.get("shuffle"):
                            rng.shuffle(l)
                        for x in l:
                            release(*x)
                    cocotb.start_soon(flush())
        return handler

    async def sender(self, d, task, ops):
        ps = 10.0 ** (-9 - self.k.precision)
        cfg = self.plan["cfg"]
        for n, op in ops:
            r = random.Random(f"op:{op['seed']}")
            fixed = None
            for i in range(op["n"]):
                t = make_tlp(r, op["kind"], op["max_dw"]) if not op.get("light") or i % 16 == 0 else None
                if t is None:
                    t = Tlp(fixed)
                    t.th = fixed.th
                    t.tag = i & 0x3ff
                    t.address = i << 2
                else:
                    fixed = t
                    if op.get("light"):
                        fixed = Tlp(t)
                        fixed.th = t.th
                if op["gap_ns"]:
                    await Timer(max(int(r.random() * 2 * op["gap_ns"] * ps), 1), "step")
                self.expected[d].append((task, Rec(t).key()))
                await self.ports[d].send(t)
                self.stats["tlps"] += 1

    def check_order(self):
        for d in range(2):
            wire = self.mon.sent[d]
            got = self.got[d]
            for i, g in enumerate(got):
                if i >= len(wire) or g.key() != wire[i].key() or g.seq != wire[i].seq:
                    w = wire[i] if i < len(wire) else None
                    diff = [f for f in HDR_FIELDS + ("data", "seq") if w is not None and getattr(w, f) != getattr(g, f)]
                    self.bad("P01", "receive", f"dir {d}: TLP {i} handed to the receiver differs from TLP {i} on the wire ({diff}): "
                        f"{g} vs {w}")
                    break
            # the wire carries exactly what the senders offered, each sender's in its order
            queues = {}
            for task, key in self.expected[d]:
                queues.setdefault(task, deque()).append(key)
            for i, w in enumerate(wire):
                kk = w.key()
                for task, q in queues.items():
                    if q and q[0] == kk:
                        q.popleft()
                        break
                else:
                    self.bad("P01", "wire", f"dir {d}: TLP {i} on the wire is not the next TLP of any sender: {w}")
                    break

    def final(self):
        self.check_order()
        mon = self.mon
        for s in range(2):
            d = s
            if len(self.got[d]) != self.total[d]:
                self.bad("P01", "count", f"dir {d}: {len(self.got[d])} TLPs received, {self.total[d]} sent")
            if len(mon.sent[d]) != self.total[d]:
                self.bad("P01", "count_wire", f"dir {d}: {len(mon.sent[d])} TLPs on the wire, {self.total[d]} sent")
            # credit conservation
            for c in range(3):
                h, dd = mon.rel_hist[s][c][-1]
                for j, rel in ((0, h), (1, dd)):
                    init = self.fc[s][2*c+j]
                    if init == 0:
                        continue
                    lim = mon.limit[1-s][2*c+j]
                    if lim is None:
                        if self.total[1-s] or self.total[s]:
                            self.bad("P03", "no_init", f"side {1-s} never received initial {NAMES[c]} credit")
                    elif lim != init + rel:
                        kind = "P03"
                        self.bad(kind, "credit_lost", f"side {1-s} ends with {NAMES[c]} {'data' if j else 'header'} limit {lim}, "
                            f"should be {init}+{rel} after everything was released")
            # acknowledgements
            if mon.reack[s]:
                self.bad("P04", "unacked_replay", f"side {s} never acknowledged a replayed TLP")
            if mon.ack_cum[s] != mon.recv_seq[s]:
                self.bad("P04", "unacked", f"side {s} received {mon.recv_seq[s]} TLPs but acknowledged {mon.ack_cum[s]}")
            if mon.last_ack[s] == len(mon.sent[s]):
                rb = getattr(self.ports[s], "retry_buffer", None)
                if rb is not None and rb.qsize() != 0:
                    self.bad("P04", "retained", f"side {s} keeps {rb.qsize()} TLPs for replay after all were acknowledged")
            if len(mon.sent[s]) > 4096:
                self.stats["seq_wrapped"] += 1

    def run(self):
        plan = self.plan
        r = kernel.run(self.main, sched=plan["sched"], precision=plan["cfg"]["precision"], max_time_ns=5e11,
            max_events=6_000_000, rng_seed=plan["cfg"]["seed"])
        self.out.finish(r, plan["prop"])
        return self.out


def run(plan):
    return Engine(plan).run()


# ---------------------------------------------------------------------------------------------

def gen(prop, rng, tier, index):
    big = tier == "thorough"
    cfg = {"seed": rng.getrandbits(32), "precision": rng.choice([-12, -12, -12, -9, -11, -10])}
    timed = rng.random() < 0.85
    if timed:
        sp = rng.randrange(1, 6)
        wd = rng.choice([1, 2, 4, 8, 16])
        cfg["speed"] = [sp, rng.choice([sp, rng.randrange(1, 6), None])]
        cfg["width"] = [wd, rng.choice([wd, rng.choice([1, 2, 4, 8, 16]), None])]
    else:
        cfg["speed"] = [None, None]
        cfg["width"] = [None, None]
    cfg["port_delay"] = [rng.choice([5, 5, 0, 1, 100, 500]), rng.choice([5, 5, 0, 20, 250])]
    cfg["max_dw"] = rng.choice([1, 4, 8, 32, 32, 64, 256, 1024])
    need = (cfg["max_dw"] * 4 + 15) // 16
    long_run = (index % 12 == 5)          # histories that wrap sequence numbers and header credits

    def fc():
        out = []
        for c in range(3):
            inf = rng.random() < 0.2
            h = 0 if inf else rng.choice([1, 1, 2, 3, 4, 8, 31, 64, 127, 200, 1023, 2047])
            lo = max(need, 2)
            dmode = rng.random()
            d = 0 if (inf or dmode < 0.15) else lo + rng.choice([0, 0, 1, 2, 5, lo, 64, 300, 2048, 20000])
            out += [h, min(d, 32767)]
        return out
    cfg["fc"] = [fc(), fc()]
    if rng.random() < 0.5:
        cfg["jitter"] = {"ns": rng.choice([1, 3, 10, 50, 300]), "seed": rng.getrandbits(32)}

    def rx():
        m = rng.choice(["now", "now", "delay", "slow", "batch"])
        x = {"mode": m, "ns": 0 if m == "now" else rng.choice([5, 40, 200, 1000, 1000 if long_run else 8000])}
        if rng.random() < 0.4:
            x["double"] = True
        if rng.random() < 0.5:
            x["shuffle"] = True
        return x
    cfg["rx"] = [rx(), rx()]
    ops = []
    if long_run:
        cfg["max_dw"] = 8
        cfg["rx"] = [dict(x, ns=min(x["ns"], 100)) for x in cfg["rx"]]
        cfg["jitter"] = {"ns": 3, "seed": 1} if rng.random() < 0.3 else {"ns": 0, "seed": 1}
        # small but sufficient credit to force many wraps of the counters through updates
        for s in range(2):
            for c in range(3):
                cfg["fc"][s][2*c] = rng.choice([8, 31, 64, 127, 2047, 2047])
                cfg["fc"][s][2*c+1] = rng.choice([16, 64, 512, 0, 32767])
        dirs = [0, 1] if rng.random() < 0.3 else [rng.randrange(2)]
        for d in dirs:
            n = rng.choice([4200, 4500, 8300]) if big or rng.random() < 0.2 else 4200
            kind = rng.choice(["p", "np", "cpl", "p"])
            ops.append({"dir": d, "task": 0, "n": n, "kind": kind, "max_dw": 8, "gap_ns": 0, "seed": rng.getrandbits(32), "light": True})
            ops.append({"dir": 1-d, "task": 0, "n": 40, "kind": "mix", "max_dw": 8, "gap_ns": rng.choice([0, 100]), "seed": rng.getrandbits(32)})
            ops.append({"dir": d, "task": 0, "n": 60, "kind": "mix", "max_dw": 8, "gap_ns": 0, "seed": rng.getrandbits(32)})
    else:
        nseg = rng.randrange(1, 9)
        for _ in range(nseg):
            ops.append({"dir": rng.randrange(2), "task": rng.randrange(3), "n": rng.choice([1, 2, 5, 20, 40, 80]),
                "kind": rng.choice(["mix", "mix", "p", "np", "cpl"]), "max_dw": cfg["max_dw"],
                "gap_ns": rng.choice([0, 0, 0, 3, 50, 700, 5000]), "seed": rng.getrandbits(32)})
    faults = []
    nt = sum(o["n"] for o in ops)
    intensity = rng.choice([0, 1, 1, 2]) if prop != "P03" else rng.choice([1, 2, 3])
    if intensity:
        for _ in range(rng.randrange(1, 6 * intensity + 1)):
            d = rng.randrange(2)
            kind = rng.choice(["dllp_drop", "dllp_drop", "dllp_dup", "stall", "tlp_stall", "tlp_replay", "tlp_replay"])
            f = {"kind": kind, "dir": d}
            if kind.startswith("dllp"):
                f["what"] = rng.choice(["init", "ack", "update", "update"])
                f["n"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, rng.randrange(max(nt, 1))]) if f["what"] != "init" else rng.randrange(9)
            elif kind == "stall":
                f["n"] = rng.randrange(40)
                f["ns"] = rng.choice([10, 100, 1000, 20000])
            elif kind == "tlp_stall":
                f["n"] = rng.randrange(max(nt, 1))
                f["ns"] = rng.choice([10, 100, 1000, 20000])
            else:
                f["n"] = rng.randrange(max(nt, 1)) if rng.random() < 0.6 or not long_run else rng.randrange(4050, 4150)
                f["k"] = rng.choice([1, 1, 2, 3, 8, 30])
            faults.append(f)
        if intensity >= 2:
            # a burst: consecutive losses of one kind
            d = rng.randrange(2)
            w = rng.choice(["init", "update", "ack"])
            b = 0 if w == "init" else rng.randrange(max(nt // 4, 1))
            for j in range(rng.randrange(2, 7 if w == "init" else 9)):
                faults.append({"kind": "dllp_drop", "dir": d, "what": w, "n": b + j})
        if rng.random() < (0.5 if prop == "P03" else 0.2) and (timed or cfg["precision"] == -9):
            # one direction loses every InitFC2 (or all from some point on): only its credit updates end the peer's initialisation
            faults.append({"kind": "dllp_drop", "dir": rng.randrange(2), "what": "init2", "n": rng.choice([0, 0, 1, 3]), "len": 100000})
    if not timed:
        # an untimed link moves one packet per time step: keep delays in proportion
        unit = 10.0 ** (cfg["precision"] + 9)
        if cfg.get("jitter"):
            cfg["jitter"]["ns"] = min(cfg["jitter"]["ns"], 20) * unit
        for f in faults:
            if "ns" in f:
                f["ns"] = min(f["ns"], 300) * unit
    sched = {"policy": rng.choice(["fifo", "random", "random"]), "seed": rng.getrandbits(32)}
    return {"engine": "linkpair", "prop": prop, "cfg": cfg, "ops": ops, "faults": faults, "sched": sched}


def simplify(plan):
    """Smaller variants of a failing plan, most aggressive first."""
    import copy
    for i, op in enumerate(plan["ops"]):
        for n in (1, op["n"] // 4, op["n"] // 2, op["n"] * 3 // 4, op["n"] - 1):
            if 0 < n < op["n"]:
                p = copy.deepcopy(plan)
                p["ops"][i]["n"] = n
                yield p
        if op["gap_ns"]:
            p = copy.deepcopy(plan)
            p["ops"][i]["gap_ns"] = 0
            yield p
    for kk, v in (("jitter", None), ("connect_delay_ns", None)):
        if plan["cfg"].get(kk):
            p = copy.deepcopy(plan)
            p["cfg"].pop(kk)
            yield p
    for s in range(2):
        if plan["cfg"]["rx"][s]["mode"] != "now":
            p = copy.deepcopy(plan)
            p["cfg"]["rx"][s] = {"mode": "now", "ns": 0}
            yield p
