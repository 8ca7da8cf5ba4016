"""C18: samples drawn from a Gaussian belief's marginals follow its summaries."""
import math
import random

import numpy as np

from ..core import FAULTS, Inapplicable, Rng, is_injected
from ..trace import Scheduler, Steps, make_schedule
from . import c16
from .rehearse import measure, place

PROP = "C18"
# minus logarithms of probabilities, and the number of samples of another look
SUSPICIOUS, WRONG, SECOND = 8.0, 45.0, 60000


def gen(rng, tier):
    base = c16.gen(Rng(rng.randrange(2 ** 40)), tier)
    root = base["root"]
    scale = dict(zip(root["H"], root.get("scale", [])))
    threads = rng.chance(0.35)
    k = rng.randrange(2, 4) if threads else 1
    plan = {"root": root, "roots": 1, "salt": base["salt"], "seed": rng.randrange(2 ** 32)}
    callers = []
    for c in range(k):
        events = []
        mine = [list(root["H"])]
        for _ in range(rng.randrange(2, 5) if threads else rng.randrange(3, 12)):
            on = rng.randrange(len(mine))
            what = rng.weighted([("infer", 3), ("draw", 6), ("summary", 2), ("noise", 2), ("again", 0 if threads else 1)])
            if what == "infer":
                obs = c16.rand_obs(rng, mine[on], rng.randrange(0, min(3, len(mine[on])) + 1), scale)
                events.append({"do": "infer", "on": on, "obs": obs})
                mine.append([x for x in mine[on] if x not in [o[0] for o in obs]])
            elif what == "noise":
                events.append({"do": "noise", "what": rng.choice(["normal", "uniform", "seed", "pyseed", "permute"]), "seed": rng.randrange(2 ** 32)})
            elif what == "summary":
                events.append({"do": "summary", "on": on, "spoil": rng.chance(0.5)})
            else:
                size = rng.choice([0, 1, 1, 2, 7, 100, 1000, 3000, 3000, 3000]) if what == "draw" else rng.choice([1, 50, 1001])
                e = {"do": what, "on": on, "size": size, "spoil": rng.chance(0.5), "seed": rng.randrange(2 ** 32)}
                if size == 1000:
                    e["default"] = rng.chance(0.5)
                events.append(e)
        callers.append(events)
    plan["callers"] = callers

    def body(step):
        w = World(plan, None)
        for c in range(k):
            for e in callers[c]:
                step(lambda: w.do(c, e))
    ns = measure(plan["salt"], body)
    if threads:
        opcodes = rng.chance(0.5)
        sw, period = make_schedule(rng, sum(ns) * (9 if opcodes else 1), k)
        plan["threads"] = {"switches": sw, "period": period, "opcodes": opcodes}
    else:
        for e, n in zip(callers[0], ns):
            if n and e["do"] != "noise" and rng.chance(0.3):
                e["cut"] = [rng.pick(sorted(FAULTS)), place(rng, n)]
    return plan


class World(c16.World):
    def __init__(self, plan, ctx):
        super().__init__(plan)
        # beliefs start as the callers' own lists; the first is shared
        self.seen = []          # (belief, size, {name: array})
        self.again = []         # pairs of draws that must be equal
        self.plan = plan
        np.random.seed(plan["seed"])

    def belief(self, c, e):
        mine = self.known[c]
        if e["on"] >= len(mine):
            raise Inapplicable("belief dropped")
        return mine[e["on"]]

    def do(self, c, e):
        what = e["do"]
        if what == "infer":
            return super().do(c, e, {})
        if what == "noise":
            {"normal": lambda: np.random.normal(size=3), "uniform": lambda: np.random.uniform(size=5), "seed": lambda: np.random.seed(e["seed"]),
             "pyseed": lambda: random.seed(e["seed"]), "permute": lambda: np.random.permutation(7)}[e["what"]]()
            return None
        b = self.belief(c, e)
        if what == "summary":
            P, ms = b.g.P, b.g.marginals
            if e["spoil"]:
                for m in ms:
                    m.clear()
                ms.clear()
                P.clear()
            return None
        if what == "again":
            both = []
            for _ in range(2):
                np.random.seed(e["seed"])
                both.append(self.draw(b, e))
            self.again.append((b, e["size"], both))
            return None
        self.seen.append((b, e["size"], self.draw(b, e)))

    def draw(self, b, e):
        got = b.g.sample_marginals() if e.get("default") else b.g.sample_marginals(size=e["size"])
        out = {k: np.array(v, dtype=float) for k, v in got.items()}
        if e["spoil"]:
            for v in got.values():
                v[:] = -1e9
            got.clear()
        return out


def check_summary(ctx, w, b, where):
    """What the belief says of itself is of one piece."""
    P = {k: (float(m), float(v)) for k, (m, v) in b.g.P.items()}
    ms = {m["name"]: (float(m["mean"]), float(m["var"])) for m in b.g.marginals}
    ctx.check(P == ms and len(b.g.marginals) == len(P), "summary", lambda: f"{where}: the summaries differ: {P} and {ms}")
    observed = dict(b.order())
    ctx.check(set(P) == set(w.H), "summary", lambda: f"{where}: summaries of {sorted(P)}, variables are {sorted(w.H)}")
    E = np.asarray(b.g.E, dtype=float)
    for k, name in enumerate(b.g.H):
        u = w.unit[name]
        ctx.check(abs(P[name][1] - E[k][k]) <= 1e-9 * u * u, "summary", lambda: f"{where}: {name} has variance {E[k][k]} and summary {P[name]}")
    for name, v in observed.items():
        ctx.check(P[name] == (v, 0.0), "summary", lambda: f"{where}: {name} was observed to be {v}, its summary is {P[name]}")
    return P


def phi(z):
    return np.array([0.5 * math.erfc(-x / math.sqrt(2.0)) for x in z])


def kl(q, p):
    return (q * math.log(q / p) if q > 0.0 else 0.0) + ((1.0 - q) * math.log((1.0 - q) / (1.0 - p)) if q < 1.0 else 0.0)


def surprise(xs, m, sd):
    """A lower bound on -log of the probability that fair samples of N(m, sd^2) look so little like it, and by which test."""
    z = np.sort((xs - m) / sd)
    n = len(z)
    F = phi(z)
    k = np.arange(n)
    d = float(max(np.max((k + 1) / n - F), np.max(F - k / n)))
    tests = [(2.0 * n * d * d - math.log(2.0), "distance")]
    mean = float(np.mean(z)) * math.sqrt(n)
    tests.append((mean * mean / 2.0, "mean"))
    tests.append((-math.log(max(abs(mean), 1e-300)), "mean too exact"))
    # Laurent and Massart
    over = float(np.sum(z * z)) - n
    tests.append(((over / (2.0 * math.sqrt(n))) ** 2 if over < 0 else (math.sqrt(n + 2.0 * over) - math.sqrt(n)) ** 2 / 4.0, "variance"))
    for t in (1.0, 2.0, 2.5, 3.0, 3.5):
        # Chernoff
        for c, p in ((int(np.sum(z > t)), None), (int(np.sum(z < -t)), None), (int(np.sum(abs(z) > t)), 2)):
            tests.append((n * kl(c / n, 0.5 * math.erfc(t / math.sqrt(2.0)) * (p or 1)) - math.log(2.0), f"samples beyond {t} standard deviations"))
    return max(tests)


def check_distribution(ctx, b, name, xs, m, v, where):
    ctx.count("distributions compared")
    bad, test = surprise(xs, m, math.sqrt(v))
    looks = 0
    while SUSPICIOUS < bad < WRONG and looks < 3:
        # fair samples come here once in some hundred comparisons, and twice hardly ever
        ctx.count("second looks")
        looks += 1
        more, test = surprise(np.array(b.g.sample_marginals(size=SECOND)[name], dtype=float), m, math.sqrt(v))
        bad = more + bad if more > SUSPICIOUS else 0.0
    ctx.check(bad < WRONG, "distribution", lambda: f"{where}: samples of {name} do not follow N({m}, {v}) ({test}): their mean is {xs.mean()}, their variance {xs.var()}")


def check_draw(ctx, w, b, size, got, P, where):
    ctx.check(set(got) == set(P), "samples", lambda: f"{where}: samples of {sorted(got)}, variables are {sorted(P)}")
    for name, (m, v) in P.items():
        xs = got[name]
        ctx.check(xs.shape == (size,), "samples", lambda: f"{where}: {xs.shape} samples of {name} instead of {size}")
        ctx.check(bool(np.all(np.isfinite(xs))), "samples", lambda: f"{where}: a sample of {name} is not finite")
        if not size:
            continue
        if v == 0.0:
            far = float(np.max(np.abs(xs - m)))
            ctx.check(far <= 0.1 + 1e-9 * abs(m), "samples", lambda: f"{where}: {name} is {m}, samples are up to {far} away")
            ctx.count("observed variables sampled")
            continue
        sd = math.sqrt(v)
        far = float(np.max(np.abs(xs - m))) / sd
        ctx.check(far <= 9.0, "samples", lambda: f"{where}: a sample of {name} is {far} standard deviations from its mean {m}")
        ctx.check(size < 2 or len(set(xs.tolist())) > 1, "distribution", lambda: f"{where}: all samples of {name} are the same")


def run(plan, ctx):
    w = World(plan, ctx)
    t = plan.get("threads")
    before = {}

    def everybody():
        out = []
        for c in w.known:
            out += [b for b in c if not any(b is x for x in out)]
        return out

    def unchanged(where):
        for b, s in before.values():
            ctx.check(c16.state(b) == s, "changed", lambda: f"{where}: the belief after {b.steps} was altered: {b.g!r}")

    def freeze():
        for b in everybody():
            before.setdefault(id(b), (b, c16.state(b)))

    freeze()
    if t:
        s = Scheduler(ctx, [(lambda c=c: [w.do(c, e) for e in plan["callers"][c]]) for c in range(len(plan["callers"]))], t["switches"], t["period"], t["opcodes"])
        _, errors = s.run()
        for x in errors:
            if x is not None:
                raise x
        unchanged("after all callers")
    else:
        for k, e in enumerate(plan["callers"][0]):
            ctx.step()
            if "cut" in e:
                n = [len(x) for x in w.known], len(w.seen), len(w.again)
                try:
                    with Steps(ctx, at=e["cut"][1], kind=e["cut"][0]):
                        w.do(0, e)
                except BaseException as x:
                    if not is_injected(x):
                        raise
                    ctx.count("uses cut short")
                for x, m in zip(w.known, n[0]):
                    del x[m:]
                del w.seen[n[1]:], w.again[n[2]:]
                unchanged(f"event {k} (cut short)")
            w.do(0, e)
            unchanged(f"event {k}")
            freeze()
    summaries = {}
    for b in everybody():
        summaries[id(b)] = check_summary(ctx, w, b, f"after {b.steps}")
    for b, size, got in w.seen:
        check_draw(ctx, w, b, size, got, summaries[id(b)], f"after {b.steps}")
        ctx.count("draws")
        ctx.ev(size, sorted((k, round(float(v.sum()), 6)) for k, v in got.items()))
    together = {}
    for b, size, got in w.seen:
        for name, xs in got.items():
            if summaries[id(b)][name][1] > 0.0:
                together.setdefault((id(b), name), (b, []))[1].append(xs)
    for (key, name), (b, parts) in together.items():
        xs = np.concatenate(parts)
        if len(xs) >= 100:
            check_distribution(ctx, b, name, xs, *summaries[key][name], f"after {b.steps}")
    for b, size, (one, two) in w.again:
        check_draw(ctx, w, b, size, one, summaries[id(b)], f"after {b.steps}")
        ctx.check(all(one[k].tobytes() == two[k].tobytes() for k in one), "seed", lambda: f"after {b.steps}: two draws with numpy seeded alike differ")
        ctx.count("draws repeated with a seed")
    for j, (b, size, got) in enumerate(w.seen):
        for b2, size2, got2 in w.seen[:j]:
            if b is b2 and size == size2 >= 7 and got.keys() == got2.keys():
                for name in got:
                    if summaries[id(b)][name][1] > 0.0 and name in got2:
                        ctx.check(got[name].tobytes() != got2[name].tobytes(), "repeated", lambda: f"after {b.steps}: two draws of {size} are the same")
                ctx.count("draws told apart")
    unchanged("at the end")
    ctx.sig.append((len(w.H), [[(e["do"], e.get("on"), e.get("size"), [o[0] for o in e.get("obs", [])], e.get("cut")) for e in c] for c in plan["callers"]]))


def nontrivial(ctx):
    return ctx.counts.get("draws", 0) > 0


def shrink(plan):
    for p in c16.shrink(dict(plan, callers=plan["callers"])):
        yield p
    for c, ev in enumerate(plan["callers"]):
        for k, e in enumerate(ev):
            if e.get("spoil"):
                yield dict(plan, callers=plan["callers"][:c] + [ev[:k] + [dict(e, spoil=False)] + ev[k + 1:]] + plan["callers"][c + 1:])
