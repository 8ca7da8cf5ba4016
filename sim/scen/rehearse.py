"""Rehearsals: a plan's faults are placed inside its operations, so gen() first measures how many
steps each operation takes. If the code under test fails here the plan is still made (with guesses),
and run() meets the failure."""
from .. import simset
from ..core import Ctx, derive
from ..trace import Steps

LIMIT = 3_000_000


def measure(salt, body):
    """body(step) runs the fault-free operations as step(call); returns their step counts."""
    import numpy as np
    simset.reset(salt)
    np.random.seed(derive("np", salt) & 0xFFFFFFFF)
    ns = []

    def step(call):
        with Steps(limit=LIMIT) as s:
            try:
                return call()
            finally:
                ns.append(s.n)
    try:
        body(step)
    except BaseException as e:
        if isinstance(e, (SystemExit,)) or (isinstance(e, KeyboardInterrupt) and e.args == ()):
            raise
        ns.append(1000)
    return ns


def place(rng, n):
    """A step inside an operation of n steps, with some weight on both ends."""
    n = max(n, 1)
    m = rng.randrange(10)
    if m == 0:
        return 1 + rng.randrange(min(n, 12))
    if m in (1, 2):
        return max(1, n - rng.randrange(min(n, 40)))
    if m == 3:
        return rng.logint(1, n)
    return 1 + rng.randrange(n)
