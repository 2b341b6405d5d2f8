"""Shared pieces of the explorer: violations, counters, comparison helpers."""
import hashlib
import json

VALIDATION = ("every model trace (one enumerated case) is executed on the real "
              "code imported from /repo/src and its observable result compared "
              "with the reference model step by step")
ASSUMPTIONS = [
    "numpy/pandas/geopandas/shapely/pyproj/skyfield/sgp4/SPICE are trusted",
    "planetary ephemeris replaced by a deterministic analytic stand-in "
    "(the data file is not part of this copy of the repository)",
]


class Violation(Exception):
    def __init__(self, msg, sig=None, case=None):
        Exception.__init__(self, msg)
        self.sig = sig or msg.split(":")[0][:120]
        self.case = case  # a smaller case that shows the same violation


def require(cond, msg, sig=None, **kw):
    if not cond:
        if kw:
            msg += " | " + ", ".join("%s=%r" % i for i in kw.items())
        raise Violation(msg, sig)


def h(obj):
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=8).digest()


class Ctx(object):
    """Counters of one worker chunk."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.steps = 0
        self.traces = 0
        self.skips = 0
        self.samples = []
        self.counters = {}
        self.found = []

    def finding(self, sig, msg, case=None):
        """Record a violation without ending the case (used where a listed
        finding must not hide other violations of the same group)."""
        if sum(1 for f in self.found if f["sig"] == sig) < 50:
            self.found.append({"sig": sig, "msg": msg, "case": case})

    def state(self, key):
        """Record a distinct (canonical) model state that was visited."""
        self.states.add(h(key))

    def step(self, n=1):
        """Record n transitions: calls into the real code that were checked."""
        self.steps += n

    def trace(self, outcome=None, sample=None):
        """Record a complete model trace validated against the real code."""
        self.traces += 1
        if outcome is not None:
            self.outcomes.add(h(outcome))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def skip(self, n=1):
        """Record a comparison left undecided inside a stated tolerance band."""
        self.skips += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def dump(self):
        return (self.states, self.outcomes, self.steps, self.traces,
                self.skips, self.samples, self.counters, self.found)

    def merge(self, d):
        self.states |= d[0]
        self.outcomes |= d[1]
        self.steps += d[2]
        self.traces += d[3]
        self.skips += d[4]
        self.samples += d[5][:1]
        for k, v in d[6].items():
            self.counters[k] = self.counters.get(k, 0) + v
