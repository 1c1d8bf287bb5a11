"""Runs many seeded simulations of one property, judges them, minimises and records failures."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSIM_REPO", "/repo")
CPU_LIMIT = 150         # seconds of processor time one run may use
MEM_LIMIT = 6 << 30

sys.path.insert(0, REPO)

from dsim import kernel     # noqa: E402  (puts the simulator in place before cocotb is imported)


def engine(name):
    return importlib.import_module("engines." + name)


def execute(plan, record=False, trace=False):
    """One simulated run in this process."""
    kernel.RECORD = record
    kernel.TRACE = trace
    return engine(plan["engine"]).run(copy.deepcopy(plan)).to_dict()


def _child(fn, w):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        signal.signal(signal.SIGXCPU, signal.SIG_DFL)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("DSIM_DEBUG"):
            os.dup2(devnull, 2)
        sys.setrecursionlimit(5000)
        r = ("ok", fn())
    except BaseException:  # noqa
        r = ("err", traceback.format_exc())
    try:
        data = pickle.dumps(r)
    except Exception:
        data = pickle.dumps(("err", traceback.format_exc()))
    with os.fdopen(w, "wb") as f:
        f.write(data)
    os._exit(0)


class Pool:
    """Forks one child per job; jobs are (key, callable).  Yields (key, status, value) as they finish."""

    def __init__(self, jobs):
        self.jobs = jobs
        self.live = {}

    def start(self, key, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in self.live:
                try:
                    os.close(fd)
                except OSError:
                    pass
            _child(fn, w)
        os.close(w)
        self.live[r] = (pid, key, bytearray(), time.time())

    def wait(self, timeout=None):
        """Finished jobs, at least one unless timeout or nothing is running."""
        out = []
        while self.live and not out:
            rd, _, _ = select.select(list(self.live), [], [], 1.0 if timeout is None else timeout)
            if not rd and timeout is not None:
                return out
            now = time.time()
            for fd, (pid, key, buf, t0) in list(self.live.items()):
                if now - t0 > CPU_LIMIT * 3:
                    os.kill(pid, signal.SIGKILL)
            for fd in rd:
                pid, key, buf, t0 = self.live[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    buf.extend(d)
                    continue
                os.close(fd)
                del self.live[fd]
                _, st = os.waitpid(pid, 0)
                if buf:
                    try:
                        s, v = pickle.loads(bytes(buf))
                    except Exception:
                        s, v = "err", "truncated result"
                    out.append((key, s, v))
                else:
                    out.append((key, "dead", st))
        return out

    def kill(self):
        for fd, (pid, key, buf, t0) in list(self.live.items()):
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(fd)
        self.live.clear()


def judge(prop, status, value):
    """(violations of `prop`, outcome or None)"""
    if status == "ok":
        return [tuple(v) for v in value["violations"] if v[0] == prop], value
    if status == "dead":
        sig = value & 0x7f
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return [(prop, "hang", f"the run used up {CPU_LIMIT} s of processor time without finishing")], None
        return [(prop, "crash", f"the process died with wait status {value}")], None
    # an exception that escaped the simulator: raised while code under test ran on the harness' stack
    last = value.strip().splitlines()[-1]
    return [(prop, "exception", last)], None


# ---------------------------------------------------------------------------------------------

class Minimiser:
    def __init__(self, prop, kind, plan, jobs, budget):
        self.prop = prop
        self.kind = kind
        self.plan = plan
        self.jobs = jobs
        self.end = time.time() + budget
        self.tried = 0

    def first_failing(self, cands):
        """The first candidate, in order, that still shows the violation (evaluated in parallel)."""
        pool = Pool(self.jobs)
        it = iter(enumerate(cands))
        res = {}
        plans = {}
        nxt = 0
        exhausted = False
        try:
            while True:
                while not exhausted and len(pool.live) < self.jobs and time.time() < self.end:
                    try:
                        i, p = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    plans[i] = p
                    pool.start(i, lambda p=p: execute(p))
                    self.tried += 1
                if not pool.live:
                    return None
                for i, s, v in pool.wait():
                    viol, _ = judge(self.prop, s, v)
                    res[i] = any(x[1] == self.kind for x in viol)
                while nxt in res:
                    if res[nxt]:
                        return plans[nxt]
                    nxt += 1
                if time.time() > self.end:
                    return None
        finally:
            pool.kill()

    def ddmin(self, field, get, put):
        n = 2
        while time.time() < self.end:
            items = get(self.plan)
            if not items:
                return
            n = min(n, len(items))
            size = (len(items) + n - 1) // n

            def cands():
                for a in range(0, len(items), size):
                    p = copy.deepcopy(self.plan)
                    put(p, items[:a] + items[a + size:])
                    yield p
            p = self.first_failing(cands())
            if p is not None:
                self.plan = p
                n = max(n - 1, 2)
            elif size <= 1:
                return
            else:
                n = n * 2

    def run(self):
        eng = engine(self.plan["engine"])

        def listfield(f):
            return (lambda p: p.get(f) or [], lambda p, v: p.__setitem__(f, v))
        # schedule: FIFO if possible, else cut the tail of the random schedule
        if self.plan["sched"].get("policy") == "random":
            p = copy.deepcopy(self.plan)
            p["sched"] = {"policy": "fifo"}
            q = self.first_failing([p])
            if q is not None:
                self.plan = q
        for rnd in range(6):
            before = json.dumps(self.plan, sort_keys=True)
            for f in ("ops", "faults"):
                if self.plan.get(f):
                    self.ddmin(f, *listfield(f))
            if hasattr(eng, "simplify"):
                while time.time() < self.end:
                    p = self.first_failing(eng.simplify(self.plan))
                    if p is None:
                        break
                    self.plan = p
            if json.dumps(self.plan, sort_keys=True) == before or time.time() > self.end:
                break
        if self.plan["sched"].get("policy") == "random":
            # turn the random schedule into its explicit departures from FIFO order, then drop what is not needed
            pool = Pool(1)
            pool.start(0, lambda: execute(self.plan, record=True))
            (_, s, v), = pool.wait()
            if s == "ok" and "record" in v["extra"]:
                p = copy.deepcopy(self.plan)
                p["sched"] = {"policy": "list", "devs": [[a, c] for a, b, c in v["extra"]["record"]]}
                q = self.first_failing([p])
                if q is not None:
                    self.plan = q
                    self.ddmin("devs", lambda p: p["sched"]["devs"], lambda p, v: p["sched"].__setitem__("devs", v))
        return self.plan


# ---------------------------------------------------------------------------------------------

def load_findings():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def known(findings, v, plan=None):
    import re
    for f in findings:
        if "plan" in f and plan != f["plan"]:
            continue            # identified by its own history: nothing else is excused
        if f["property"] == v[0] and f["kind"] == v[1] and re.search(f["match"], v[2]):
            return f
    return None


def write_replay(path, prop, viol, plan, seed, index, orig, tried):
    pool = Pool(1)
    pool.start(0, lambda: execute(plan, record=True, trace=True))
    (_, s, v), = pool.wait()
    vs, out = judge(prop, s, v)
    msg = next((x[2] for x in vs if x[1] == viol[1]), viol[2])
    doc = {"property": prop, "kind": viol[1], "message": msg, "search_seed": seed, "run_index": index,
        "plan": plan, "digest": out["digest"] if out else None, "minimiser_runs": tried,
        "schedule_departures": (out or {}).get("extra", {}).get("record"),
        "trace": (out or {}).get("extra", {}).get("trace"),
        "traceback": (out or {}).get("extra", {}).get("tb"),
        "original_plan": orig}
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return msg


def gen_plan(eng, prop, seed, tier, i):
    return engine(eng).gen(prop, random.Random(f"{seed}:{prop}:{eng}:{i}"), tier, i)


def check(prop, engines, tier, seed, jobs=8, time_cap=780, min_budget=60, title="", real=(), stub=(), verbose=False, runs_override=None):
    """engines: list of (engine name, runs).  Returns the exit code."""
    t0 = time.time()
    work = []
    for name, n in engines:
        engine(name)
        if runs_override:
            n = runs_override
        work += [(name, i) for i in range(n)]
    # interleave engines
    work.sort(key=lambda w: (w[1], w[0]))
    # run classes that take long are started early enough by plain order; completion order does not matter
    pool = Pool(jobs)
    agg = Counter()
    faults = Counter()
    digests = {}
    sched_sigs = set()
    kinds_seen = {}
    known_hits = {}
    findings = load_findings()
    sim_ns = 0.0
    events = 0
    choices = 0
    nontriv = 0
    evaluations = 0
    nontrivial_digests = set()
    samples = []
    unfinished = 0
    pos = 0
    fail = None
    status_count = Counter()

    def run_one(name, i):
        return execute(gen_plan(name, prop, seed, tier, i))

    stop = False
    while (pos < len(work) and not stop) or pool.live:
        while pos < len(work) and len(pool.live) < jobs and not stop:
            if time.time() - t0 > time_cap:
                unfinished = len(work) - pos
                stop = True
                break
            w = work[pos]
            pos += 1
            pool.start(w, lambda w=w: run_one(*w))
        for key, s, v in pool.wait():
            evaluations += 1
            viol, out = judge(prop, s, v)
            if out is not None:
                agg.update(out["stats"])
                faults.update(out["faults"])
                sim_ns += out["time_ns"]
                events += out["events"]
                choices += out["choices"]
                nontriv += out["nontrivial"]
                digests[key] = out["digest"]
                sched_sigs.add((key[0], out["sched_sig"]))
                status_count[out["status"]] += 1
                if out["stats"] and out["status"] == "ok":
                    nontrivial_digests.add(out["digest"])
                if len(samples) < 4:
                    samples.append({"engine": key[0], "run": key[1], "sim_ns": round(out["time_ns"], 1), "events": out["events"],
                        "scheduling_decisions": out["choices"], "stats": out["stats"], "faults": out["faults"], "digest": out["digest"]})
            else:
                status_count[s] += 1
            fresh = []
            for x in viol:
                f = known(findings, x)
                if f is not None:
                    known_hits.setdefault(f["id"], (f, x, key))
                else:
                    fresh.append(x)
            if fresh and verbose:
                print(f"run {key}: {fresh}", flush=True)
            if fresh and (fail is None or key[1] < fail[0][1]):
                fail = (key, fresh[0])
            if fresh:
                for x in fresh:
                    kinds_seen.setdefault(x[1], key)
                if not verbose:
                    stop = True
    wall_search = time.time() - t0
    # determinism: repeat a few runs in a new interpreter with another hash seed
    det = {"checked": 0, "mismatches": []}
    if fail is None and digests:
        keys = sorted(digests)[:: max(1, len(digests) // (3 if tier == "quick" else 8))][:8 if tier != "quick" else 3]
        env = dict(os.environ, PYTHONHASHSEED=str(1 + seed % 1000), PYTHONDONTWRITEBYTECODE="1")
        procs = [(k, subprocess.Popen([sys.executable, os.path.join(ROOT, "check.py"), "--digest", prop, k[0], str(k[1]), tier, str(seed)],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for k in keys]
        for k, p in procs:
            o, _ = p.communicate()
            det["checked"] += 1
            if o.strip() != digests[k]:
                det["mismatches"].append([list(k), digests[k], o.strip()])
    # known findings are re-demonstrated from their own recorded plan
    for f in findings:
        if f["property"] == prop:
            hit = f["id"] in known_hits
            if not hit and f.get("plan"):
                p2 = Pool(1)
                p2.start(0, lambda f=f: execute(f["plan"]))
                (_, s, v), = p2.wait()
                vs, _ = judge(prop, s, v)
                hit = any(known([f], x, f["plan"]) for x in vs)
            if hit:
                print(f"KNOWN-FINDING: property={prop} {f['what']}", flush=True)
    rc = 0
    vrec = []
    if fail is not None:
        (name, i), viol = fail
        orig = gen_plan(name, prop, seed, tier, i)
        mini = Minimiser(prop, viol[1], orig, jobs, min_budget)
        plan = mini.run()
        path = os.path.join(ROOT, "replays", f"{prop}-{name}-{seed}-{i}.json")
        msg = write_replay(path, prop, viol, plan, seed, i, orig, mini.tried)
        print(f"{prop}: {title}\n  run {name}#{i} (seed {seed}) violates it [{viol[1]}]: {msg}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        vrec.append({"kind": viol[1], "message": msg, "replay": path, "engine": name, "run": i, "seed": seed})
        rc = 1
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial_digests),
            "rule": "one evaluation is one simulated run judged against this property's oracle; two runs are the same when their digests "
                "(hash of simulated times, event counts, every packet seen and every scheduling decision) are equal; a run counts as "
                "non-trivial when it finished and its workload performed at least one checked operation",
            "samples": samples,
            "runs": evaluations,
            "seeds": [seed],
            "runs_per_hour": round(evaluations / max(wall_search, 1e-9) * 3600),
            "seeds_per_hour": round(evaluations / max(wall_search, 1e-9) * 3600),
            "simulated_time_s": sim_ns * 1e-9,
            "events": events,
            "scheduling_decisions": choices,
            "scheduling_departures_from_fifo": nontriv,
            "distinct_interleavings": len(sched_sigs),
            "distinct_interleavings_rule": "distinct hashes of the sequence of (alternatives, pick) scheduling decisions",
            "distinct_histories": len(set(digests.values())),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(agg.items())),
            "run_status": dict(status_count),
            "runs_not_started": unfinished,
            "determinism": det,
            "engines": [{"engine": n, "runs": runs_override or c} for n, c in engines],
            "real_components": list(real),
            "stub_components": list(stub),
        },
        "wall_s": round(wall, 2),
        "assumptions": ["cocotb 1.x scheduler, triggers and queues run unmodified on a simulated GPI; the simulator decides the order of "
            "same-time events and resumptions", "a TLP is never lost on a link: replay after loss is documented as unimplemented"],
        "violations": vrec,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))
    print(f"{prop} {tier}: {evaluations} runs, {len(nontrivial_digests)} distinct, {sim_ns*1e-6:.1f} ms simulated, "
        f"{sum(faults.values())} faults, {wall:.1f} s, determinism {det['checked']-len(det['mismatches'])}/{det['checked']}, "
        f"{'VIOLATED' if rc else 'held'}")
    if det["mismatches"]:
        print(f"warning: {len(det['mismatches'])} runs did not repeat exactly: {det['mismatches']}")
    return rc
