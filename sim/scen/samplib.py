"""Evidence for the sampler and the checks on samples."""
import numpy as np

from .. import nets
from ..core import Inapplicable


def rand_evidence(rng, spec, least, most=None):
    """[[id, value], ...] of probability at least `least`."""
    ref = nets.reference(spec)
    nodes = nets.spec_nodes(spec)
    for _ in range(12):
        k = rng.randrange(0, min(len(nodes), most or 4) + 1)
        if rng.chance(0.3) and k:
            last = [i for i in nodes if not any(i in n["parents"] for n in nodes.values())]
            ids = rng.sample(sorted(last), min(k, len(last)))
        else:
            ids = rng.sample(list(nodes), k)
        ev = [[i, rng.pick(nodes[i]["values"])] for i in ids]
        if ref.prob(like(spec, ev)) >= least:
            return ev
    return []


def like(spec, ev):
    nodes = nets.spec_nodes(spec)
    for i, v in ev:
        if i not in nodes or v not in nodes[i]["values"]:
            raise Inapplicable("evidence dropped")
    return {i: nets.point(nodes[i]["values"], v) for i, v in ev}


def check_sample(ctx, spec, ev, s):
    nodes = nets.spec_nodes(spec)
    ctx.check(isinstance(s, dict) and set(s) == set(nodes), "assignment", lambda: f"sample {s} does not assign {sorted(nodes)}")
    for i, v in s.items():
        ctx.check(v in nodes[i]["values"], "assignment", lambda: f"{v!r} is not a value of {i}")
    for i, v in ev:
        ctx.check(s[i] == v, "evidence", lambda: f"sample {s} contradicts {i}={v}")
    for i, n in nodes.items():
        row = 0
        for p in n["parents"]:
            row = row * len(nodes[p]["values"]) + nodes[p]["values"].index(s[p])
        p = n["probs"][row * len(n["values"]) + n["values"].index(s[i])]
        ctx.check(p > 0.0, "impossible", lambda: f"sample {s} has {i}={s[i]} of probability 0 given {[(q, s[q]) for q in n['parents']]}")


def boundaries(rng, spec, k):
    """Draws that fall on or next to the borders between values."""
    out = []
    for _ in range(k):
        n = rng.pick(spec["nodes"])
        c = len(n["values"])
        r = rng.randrange(len(n["probs"]) // c) * c
        cum = np.cumsum(np.array(n["probs"][r:r + c]))
        b = float(cum[rng.randrange(c)])
        out.append(rng.choice([b, float(np.nextafter(b, 0.0)), float(np.nextafter(b, 1.0)), float(b / cum[-1])]))
    return [b for b in out if 0.0 <= b < 1.0]
