"""What one simulated run found and measured."""
import traceback
from collections import Counter


class Outcome:
    def __init__(self):
        self.violations = []          # (prop, kind, message)
        self.stats = Counter()        # workload and probe counters
        self.faults = Counter()       # injected faults that took effect
        self.extra = {}
        self.seen = set()
        self.status = None
        self.digest = 0

    def violation(self, prop, kind, msg):
        if (prop, kind) not in self.seen:
            self.seen.add((prop, kind))
            self.violations.append((prop, kind, msg))

    def finish(self, r, prop):
        """Fold in the kernel's result.  A crash or hang of the code under test counts against `prop`."""
        self.status = r.status
        if r.status == "exc":
            e = r.exc
            last = ""
            for fr in reversed(traceback.extract_tb(e.__traceback__)):
                if "/cocotbext/" in fr.filename:
                    last = f" at {fr.filename.split('/cocotbext/')[-1]}:{fr.name}"
                    break
            harness = not last and not isinstance(e, AssertionError)
            self.extra["tb"] = r.tb
            self.violation(prop, "exception", f"{type(e).__name__}: {e}{last}")
        elif r.status == "limit":
            self.violation(prop, "hang", f"simulation did not finish: {r.limit} limit at {r.time_ns:.0f} ns")
        self.time_ns = r.time_ns
        self.events = r.events
        self.choices = r.choices
        self.nontrivial = r.nontrivial
        self.sched_sig = r.sched_sig
        self.digest = r.digest
        if r.record is not None:
            self.extra["record"] = r.record
        if r.trace is not None:
            self.extra["trace"] = r.trace[-400:]

    def to_dict(self):
        return {"violations": self.violations, "stats": dict(self.stats), "faults": dict(self.faults), "time_ns": self.time_ns,
            "events": self.events, "choices": self.choices, "nontrivial": self.nontrivial, "sched_sig": self.sched_sig,
            "extra": self.extra, "status": self.status, "digest": self.digest}
