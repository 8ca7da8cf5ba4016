"""What every simulated run shares: seeds, the event log, counters, violations."""
import hashlib
import json
import os
import random
import traceback

REPO = os.environ.get("PYBBN_SIM_REPO", "/repo")  # another tree only while developing the checks


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, msg):
        Exception.__init__(self, f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Inapplicable(Exception):
    """The plan makes no sense (only met while minimising): not a violation."""


class StepLimit(BaseException):
    """More steps than any run should need: reported as a liveness violation."""


class HangSuspect(BaseException):
    """Raised by the wall-clock fail-safe; the run is then repeated under a step limit."""


class SimFault(BaseException):
    """Base of the asynchronous faults the simulator throws into the code."""


class SimInterrupt(SimFault, KeyboardInterrupt):
    pass


class SimTimeout(Exception):
    """What a signal-based time limit raises: an ordinary Exception."""


class SimNoMemory(MemoryError):
    pass


FAULTS = {"interrupt": SimInterrupt, "timeout": SimTimeout, "nomem": SimNoMemory}


def is_injected(e):
    return isinstance(e, (SimFault, SimTimeout, SimNoMemory))


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    """The one source of choices. Plans are made from it, never runs."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffled(self, seq):
        seq = list(seq)
        self.shuffle(seq)
        return seq

    def logint(self, lo, hi):
        """Log-uniform integer in [lo, hi]."""
        import math
        if hi <= lo:
            return lo
        v = int(math.exp(self.uniform(math.log(lo), math.log(hi + 1))))
        return max(lo, min(hi, v))


class Ctx:
    """Collects what happened in one run."""

    def __init__(self, step_limit=None):
        self.log = []
        self.counts = {}
        self.steps = 0
        self.sig = []          # what makes this run distinct (interleaving, faults, states)
        self.known = []        # (signature, text) of known findings met
        self.step_limit = step_limit

    def ev(self, *items):
        self.log.append(" ".join(str(i) for i in items))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def step(self, n=1):
        self.steps += n

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg=""):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def digest(self):
        h = hashlib.sha256()
        for line in self.log:
            h.update(line.encode())
            h.update(b"\n")
        return h.hexdigest()[:16]

    def signature(self):
        return hashlib.sha256(json.dumps(self.sig, sort_keys=True, default=str).encode()).hexdigest()[:16]


def blame(e):
    """Where in the code under test did this exception pass through? None if nowhere."""
    where = None
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(REPO + "/pybbn/"):
            where = f"{fr.filename[len(REPO) + 1:]}:{fr.name}"
    return where


def fmt(x):
    """Stable text of a float for the event log."""
    return f"{float(x):.9g}"


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol


def jclone(x):
    return json.loads(json.dumps(x))
