"""Oracles over everything that crosses the links of a simulated system."""
from collections import Counter, deque, defaultdict

from cocotbext.pcie.core.dllp import DllpType
from dsim.link import Observer, Rec, ACKS, INITS, UPDATES, HDR_FIELDS

MRD = {(0, 0), (1, 0), (0, 1), (1, 1)}
MWR = {(2, 0), (3, 0)}
IO_R = (0, 0b00010)
IO_W = (2, 0b00010)
CFG0 = {(0, 0b00100), (2, 0b00100)}
CFG1 = {(0, 0b00101), (2, 0b00101)}
NAMES = ("P", "NP", "CPL")


def be_range(rec):
    """(first byte, one past last byte, contiguous) selected by the byte enables; zero-length requests select nothing."""
    f, l, n = int(rec.first_be), int(rec.last_be), int(rec.length)
    base = rec.address
    if n == 1:
        bits = [b for b in range(4) if f >> b & 1]
        if not bits:
            return base, base, l == 0
        return base + bits[0], base + bits[-1] + 1, (l == 0 and len(bits) == bits[-1] - bits[0] + 1)
    fb = [b for b in range(4) if f >> b & 1]
    lb = [b for b in range(4) if l >> b & 1]
    if not fb or not lb:
        return base, base, False
    ok = fb[-1] == 3 and len(fb) == 4 - fb[0] and lb[0] == 0 and len(lb) == lb[-1] + 1
    return base + fb[0], base + 4 * (n - 1) + lb[-1] + 1, ok


def wire_key(rec):
    """Everything of a TLP a switch may not change (a configuration request's type changes on its last hop)."""
    k = list(rec.key())
    if rec.ft in CFG0 or rec.ft in CFG1:
        k[1] = "cfg"
    return tuple(k)


class CreditMonitor(Observer):
    """One link: senders stay within granted credit; everything is returned in the end."""

    def __init__(self, tap, bad, stats):
        self.tap = tap
        self.bad = bad
        self.stats = stats
        self.init = [[None] * 6, [None] * 6]       # learned by side d
        self.limit = [[None] * 6, [None] * 6]
        self.used = [[0] * 6, [0] * 6]
        tap.observers.append(self)

    def on_tx_tlp(self, d, tlp, rec, now):
        i, c = d.idx, rec.cls
        self.used[i][2*c] += 1
        self.used[i][2*c+1] += rec.dc
        for j in (2*c, 2*c+1):
            lim = self.limit[i][j]
            if lim is None or (lim != "inf" and self.used[i][j] > lim):
                self.bad("P02", "overrun", f"{d!r}: {NAMES[c]} {'data' if j & 1 else 'header'} credit: {self.used[i][j]} used, {lim} granted")
            elif lim != "inf" and self.used[i][j] == lim:
                self.stats["credit_exhausted"] += 1

    def on_rx_dllp(self, d, p, now):
        i = 1 - d.idx
        if p.type in INITS:
            c = {0x40: 0, 0x50: 1, 0x60: 2}[int(p.type) & 0x70]
            for j, v in ((2*c, p.hdr_fc), (2*c+1, p.data_fc)):
                if self.limit[i][j] is None:
                    self.limit[i][j] = "inf" if v == 0 else v
                    self.init[i][j] = self.limit[i][j]
        elif p.type in UPDATES:
            c = {0x00: 0, 0x10: 1, 0x20: 2}[int(p.type) & 0x70]
            for j, v in ((2*c, p.hdr_fc), (2*c+1, p.data_fc)):
                lim = self.limit[i][j]
                if lim not in (None, "inf"):
                    self.limit[i][j] = lim + ((v - lim) % (65536 if j & 1 else 4096))

    def final(self, prop="P21"):
        for i in range(2):
            for j in range(6):
                lim = self.limit[i][j]
                if lim in (None, "inf"):
                    continue
                if lim != self.init[i][j] + self.used[i][j]:
                    self.bad(prop, "credit_not_returned", f"{self.tap.dirs[i]!r}: {NAMES[j//2]} {'data' if j & 1 else 'header'} credit "
                        f"limit ends at {lim}, initial {self.init[i][j]} + used {self.used[i][j]}")


class WireOracle(Observer):
    """All links of one system.  Direction 0 of link i runs towards node i, direction 1 away from it."""

    def __init__(self, system, bad, stats):
        self.s = system
        self.bad = bad
        self.stats = stats
        self.armed = False
        self.out = {}                 # (requester, tag) -> outstanding request
        self.exp = defaultdict(deque)  # (node or -1, in link, out link) -> keys expected
        self.nexp = 0
        self.cover_want = defaultdict(Counter)
        self.cover_got = defaultdict(Counter)
        self.zero_want = Counter()
        self.zero_got = Counter()
        self.cpl_count = Counter()
        self.forward = True
        self.loose_unclaimed = False
        for i, t in system.taps.items():
            t.observers.append(self)

    # -- what the harness knows after enumeration --------------------------
    def arm(self, limits):
        """limits: requester id tuple -> {"mps","mrrs","tags","rcb","node","cmps"}"""
        s = self.s
        self.limits = limits
        self.bars = []
        for fn in s.fns:
            for b in fn.bars:
                self.bars.append((b.io, b.addr, b.addr + b.size, fn))
        self.by_bus = {}
        self.link_bus = {}
        for i, b in s.bridge_of.items():
            if b.sec_bus_num:
                self.by_bus[b.sec_bus_num] = i
                self.link_bus[b.sec_bus_num] = i
            if s.nodes[i]["type"] == "sw" and s.obj[i].upstream_bridge.sec_bus_num:
                self.by_bus[s.obj[i].upstream_bridge.sec_bus_num] = i
        self.armed = True

    def link_node(self, d):
        return int(d.tap.name[1:])

    def claim(self, io, addr):
        for isio, lo, hi, fn in self.bars:
            if isio == io and lo <= addr < hi:
                return fn
        return None

    def dest(self, rec):
        """Destination node of a TLP: a device node, "rc", or None when nobody claims it."""
        if rec.is_cpl():
            r = tuple(rec.requester_id)
            if r[0] == 0:
                return "rc"
            return self.by_bus.get(r[0])
        if rec.ft in MRD or rec.ft in MWR:
            fn = self.claim(False, rec.address)
            return fn.node if fn else ("rc" if not self.in_windows(rec.address, False) else None)
        if rec.ft in (IO_R, IO_W):
            fn = self.claim(True, rec.address)
            return fn.node if fn else ("rc" if not self.in_windows(rec.address, True) else None)
        if rec.ft in CFG0 or rec.ft in CFG1:
            return self.by_bus.get(rec.completer_id.bus)
        return None

    def in_windows(self, addr, io):
        if io:
            return addr >= 0x8000_0000
        return 0xc000_0000 <= addr < 0x1_0000_0000 or addr >= 0x8000_0000_0000_0000

    # -- requests of one operation ------------------------------------------
    def want(self, requester, kind, addr, length, tc, attr):
        if not self.armed:
            return
        key = (tuple(requester), kind, int(tc), int(attr))
        if length <= 0:
            self.zero_want[key + (addr & ~3,)] += 1
        else:
            c = self.cover_want[key]
            c[addr] += 1
            c[addr + length] -= 1

    # -- observation ----------------------------------------------------------
    def on_tx_tlp(self, d, tlp, rec, now):
        if not self.armed:
            return
        self.stats["wire_tlps"] += 1
        i = self.link_node(d)
        # node that transmits on this link
        frm = i if d.idx == 1 else self.s.nodes[i]["parent"]
        typ = "rc" if frm == -1 else self.s.nodes[frm]["type"]
        if typ == "dev":
            if not rec.is_cpl():
                self.request(d, rec, i)
        else:
            if typ == "rc" and not rec.is_cpl() and tuple(rec.requester_id) == (0, 0, 0):
                self.request(d, rec, -1)
            if self.forward:
                self.forwarded(d, rec, frm, i, typ)
        if rec.ft in MRD or rec.ft in MWR:
            if rec.length * 4 > 0x1000 - (rec.address & 0xfff):
                self.bad("P09", "cross_4k", f"{d!r}: request crosses a 4 KiB boundary: {rec}")
            if (rec.ft[0] & 1) != (rec.address > 0xffffffff):
                self.bad("P09", "format", f"{d!r}: address {rec.address:#x} sent with format {rec.ft}")

    def request(self, d, rec, node):
        rid = tuple(rec.requester_id)
        lim = self.limits.get(rid)
        if lim is None or lim["node"] != node:
            self.bad("P09", "requester_id", f"{d!r}: request carries requester ID {rec.requester_id!s}, not one of the sender's: {rec}")
            return
        mem = rec.ft in MRD or rec.ft in MWR
        if mem:
            if rec.ft in MWR:
                if len(rec.data) > 128 << lim["mps"]:
                    self.bad("P09", "payload", f"{d!r}: {len(rec.data)} bytes of payload, maximum {128 << lim['mps']}: {rec}")
                if len(rec.data) != rec.length * 4:
                    self.bad("P09", "payload_length", f"{d!r}: length {rec.length} with {len(rec.data)} bytes: {rec}")
            elif rec.length * 4 > 128 << lim["mrrs"]:
                self.bad("P09", "read_size", f"{d!r}: read of {rec.length*4} bytes, maximum {128 << lim['mrrs']}: {rec}")
            lo, hi, ok = be_range(rec)
            if not ok:
                self.bad("P09", "byte_enables", f"{d!r}: byte enables are not contiguous: {rec}")
            key = (rid, "r" if rec.ft in MRD else "w", int(rec.tc), int(rec.attr))
            if lo == hi:
                self.zero_got[key + (rec.address,)] += 1
            else:
                self.cover_got[key][lo] += 1
                self.cover_got[key][hi] -= 1
        if rec.ft in (IO_R, IO_W):
            self.stats["io_requests"] += 1
            if rec.length != 1 or int(rec.last_be) != 0:
                self.bad("P08", "io_request", f"{d!r}: I/O request is not a single-dword request: {rec}")
        if rec.cls == 1:
            key = (rid, int(rec.tag))
            self.stats["np_requests"] += 1
            if key in self.out:
                self.bad("P11", "tag_in_use", f"{d!r}: request reuses tag {rec.tag} of {self.out[key][0]}: {rec}")
            if rec.tag >= lim["tags"]:
                self.bad("P11", "tag_range", f"{d!r}: tag {rec.tag} outside the {lim['tags']} permitted: {rec}")
            self.out[key] = [rec, 0, 0]
            n = sum(1 for k in self.out if k[0] == rid)
            if n > self.stats["max_outstanding"]:
                self.stats["max_outstanding"] = n

    def on_rx_tlp(self, d, tlp, repeated, now):
        if not self.armed or repeated:
            return
        i = self.link_node(d)
        rec = Rec(tlp, now)
        to = i if d.idx == 0 else self.s.nodes[i]["parent"]
        typ = "rc" if to == -1 else self.s.nodes[to]["type"]
        if rec.is_cpl():
            rid = tuple(rec.requester_id)
            if typ == "dev" or (typ == "rc" and rid[0] == 0):
                self.completion(d, rec)
        if typ != "dev" and self.forward:
            self.entering(d, rec, to, i, typ)

    def completion(self, d, rec):
        key = (tuple(rec.requester_id), int(rec.tag))
        o = self.out.get(key)
        if o is None:
            self.bad("P10", "unexpected", f"{d!r}: completion for no outstanding request: {rec}")
            return
        req, done, n = o
        o[2] += 1
        if rec.tc != req.tc or rec.attr != req.attr:
            self.bad("P10", "attributes", f"{d!r}: completion has tc {int(rec.tc)} attr {int(rec.attr)}, request {int(req.tc)}/{int(req.attr)}: {rec}")
        if int(rec.status) != 0:
            self.status(d, req, rec)
            del self.out[key]
            return
        if req.ft not in MRD:
            # exactly one completion
            need = req.ft in (IO_R,) or req.ft[0] == 0
            if need and (rec.length != 1 or len(rec.data) != 4):
                self.bad("P08" if req.ft == IO_R else "P16", "completion_data", f"{d!r}: read completion carries {len(rec.data)} bytes: {rec}")
            if not need and rec.data:
                self.bad("P08" if req.ft == IO_W else "P16", "completion_data", f"{d!r}: write completion carries data: {rec}")
            self.completer(d, req, rec)
            del self.out[key]
            return
        lo, hi, ok = be_range(req)
        total = max(hi - lo, 1)
        addr = lo + done
        if rec.byte_count != total - done:
            self.bad("P10", "byte_count", f"{d!r}: byte count {rec.byte_count}, {total - done} bytes remain: {rec} for {req}")
        if rec.lower_address != addr & 0x7f:
            self.bad("P10", "lower_address", f"{d!r}: lower address {rec.lower_address:#x}, position requires {addr & 0x7f:#x}: {rec} for {req}")
        if len(rec.data) != rec.length * 4 or not rec.data:
            self.bad("P10", "length", f"{d!r}: length {rec.length} with {len(rec.data)} bytes: {rec}")
            del self.out[key]
            return
        c = self.completer(d, req, rec)
        got = len(rec.data) - (addr & 3)
        if c is not None:
            if len(rec.data) > 128 << c["cmps"]:
                self.bad("P10", "payload", f"{d!r}: completion of {len(rec.data)} bytes, completer's maximum payload {128 << c['cmps']}: {rec}")
            if done + got < total and (addr + got) % c["rcb"]:
                self.bad("P10", "boundary", f"{d!r}: completion ends at {addr+got:#x}, not on a {c['rcb']}-byte boundary, with more to come: {rec}")
        if got > total - done + 3:
            self.bad("P10", "too_much", f"{d!r}: completion carries {got} bytes, {total - done} remain: {rec} for {req}")
        o[1] = done + got
        if done + got < total:
            self.stats["split_completions"] += 1
        if done + got >= total:
            del self.out[key]

    def status(self, d, req, rec):
        self.bad("P10", "status", f"{d!r}: completion with status {int(rec.status)} for {req}")

    def completer(self, d, req, rec):
        """Check the completer ID; returns the completer's limits."""
        if req.ft in CFG0 or req.ft in CFG1:
            want = tuple(req.completer_id)
            if tuple(rec.completer_id) != want:
                self.bad("P10", "completer_id", f"{d!r}: completer ID {rec.completer_id!s}, expected {req.completer_id!s}: {rec}")
            return None
        io = req.ft in (IO_R, IO_W)
        fn = self.claim(io, req.address)
        want = tuple(fn.id) if fn else (0, 0, 0)
        if tuple(rec.completer_id) != want:
            self.bad("P10", "completer_id", f"{d!r}: completer ID {rec.completer_id!s}, expected {want}: {rec} for {req}")
        return self.limits.get(want)

    # -- forwarding -------------------------------------------------------------
    def out_link(self, rec, node, in_link):
        """Link a switch (or the RC, node -1) must send this TLP to; None when it stops here; "?" when not judged."""
        dst = self.dest(rec)
        if dst is None:
            return "?" if not (rec.ft in CFG0 or rec.ft in CFG1) else None
        if dst == "rc":
            return None if node == -1 else (node if in_link != node else None)
        for c in self.s.children[node]:
            if dst in self.s.subtree(c):
                return c if c != in_link else None
        if node == -1:
            return None
        return node if in_link != node else None

    def entering(self, d, rec, node, link, typ):
        o = self.out_link(rec, node, link)
        if o is None or o == "?":
            return
        self.exp[(node, link, o)].append((wire_key(rec), rec))
        self.nexp += 1

    def forwarded(self, d, rec, node, link, typ):
        key = wire_key(rec)
        if rec.ft in CFG0 or rec.ft in CFG1:
            last = d.idx == 0 and self.link_bus.get(rec.completer_id.bus) == link
            if last == (rec.ft in CFG1):
                what = "reaches its device as type 1" if last else "is type 0 before its last link"
                self.bad("P16", "cfg_type", f"{d!r}: configuration request {what}: {rec}")
                self.bad("P20", "cfg_type", f"{d!r}: configuration request {what}: {rec}")
        for (n, inl, o), q in self.exp.items():
            if n != node or o != link or not q:
                continue
            if q[0][0] == key:
                q.popleft()
                self.nexp -= 1
                self.stats["forwarded"] += 1
                return
        # not at the head of any queue: overtaken, altered, or made here
        for (n, inl, o), q in self.exp.items():
            if n != node or o != link:
                continue
            for j, (kk, r2) in enumerate(q):
                if kk == key:
                    for k3, r3 in list(q)[:j]:
                        if r3.cls != 1 and tuple(r3.requester_id) == tuple(rec.requester_id):
                            self.bad("P19", "overtaken", f"{d!r}: {rec} overtook {r3}")
                            break
                    del q[j]
                    self.nexp -= 1
                    self.stats["forwarded"] += 1
                    return
        if typ == "rc":
            if tuple(rec.requester_id) == (0, 0, 0) and not rec.is_cpl():
                return
            if rec.is_cpl() and rec.completer_id.bus == 0:
                return
        else:
            if rec.is_cpl() and tuple(rec.completer_id) not in self.limits:
                return       # answered by one of the switch's own bridges
        self.bad("P20", "not_forwarded_intact", f"{d!r}: {typ} node {node} sends a TLP it did not receive in this form, or sends it to the wrong port: {rec}")

    def final(self):
        for (n, inl, o), q in self.exp.items():
            if q:
                self.bad("P20", "lost", f"node {n}: {len(q)} TLPs that came in on link {inl} never left on link {o}, first {q[0][1]}")
        for k, o in self.out.items():
            self.bad("P21", "unanswered", f"request never completed: {o[0]}")
            self.bad("P11", "unanswered", f"request never completed: {o[0]}")
            break
        keys = set(self.cover_want) | set(self.cover_got)
        for k in sorted(keys):
            w = {a: v for a, v in self.cover_want[k].items() if v}
            g = {a: v for a, v in self.cover_got[k].items() if v}
            if w != g:
                dif = sorted(set(w.items()) ^ set(g.items()))[:6]
                # compare as coverage: interval ends of adjoining requests cancel
                self.bad("P09", "coverage", f"requester {k[0]} {k[1]} tc {k[2]} attr {k[3]}: the requests on the wire do not cover exactly the "
                    f"bytes asked for once each; differing interval ends {[(hex(a), v) for a, v in dif]}")
                break
        if self.zero_want != self.zero_got:
            self.bad("P09", "zero_length", f"zero-length requests asked {dict(self.zero_want - self.zero_got)}, extra {dict(self.zero_got - self.zero_want)}")
