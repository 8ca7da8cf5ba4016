"""C16: Gaussian beliefs depend on what was observed, not on how or when."""
import numpy as np

from ..core import FAULTS, Inapplicable, blame, is_injected
from ..trace import Scheduler, Steps, make_schedule
from .rehearse import measure, place

PROP = "C16"
NAMES = ["a", "b", "c", "x1", "x2", "x10", "weight", "Height", "z", "Y", "var 1", "q"]


def rand_obs(rng, names, k, scale):
    return [[x, round(rng.uniform(-4, 4), 3) * scale.get(x, 1.0)] for x in rng.sample(names, k)]


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
    names = rng.sample(NAMES, n)
    # a well-conditioned covariance: A A' + d
    mode = rng.choice(["dense", "dense", "diagonal", "sparse"])
    A = [[rng.uniform(-2, 2) if mode == "dense" or i == j or (mode == "sparse" and rng.chance(0.3)) else 0.0 for j in range(n)] for i in range(n)]
    d = [rng.uniform(0.3, 2.0) for _ in range(n)]
    root = {"H": names, "M": [rng.choice([0.0, round(rng.uniform(-5, 5), 2)]) for _ in range(n)], "A": A, "d": d, "list": rng.chance(0.2)}
    if rng.chance(0.12):
        # whole numbers: the array of means holds integers
        root["M"] = [rng.randrange(-6, 7) for _ in range(n)]
        root["whole"] = True
    # variables measured in other units: pounds and tonnes, millimetres and miles
    base = rng.choice([-6, -4, -3, -1, 0, 0, 2, 4])
    scale = {x: 10.0 ** (base + rng.choice([-1, 0, 1])) for x in names} if "whole" not in root and rng.chance(0.35) else {}
    if scale:
        root["scale"] = [scale[x] for x in names]
    plan = {"root": root, "roots": rng.choice([1, 1, 2]), "salt": rng.randrange(1, 2 ** 31)}
    threads = rng.chance(0.3)
    left = [list(names) for _ in range(plan["roots"])]
    callers = []
    for _ in range(rng.randrange(2, 4) if threads else 1):
        events = []
        mine = [list(x) for x in left]         # what is still unobserved in each belief this caller knows
        for _ in range(rng.randrange(1, 5) if threads else rng.randrange(1, 12)):
            k = rng.randrange(len(mine)) if rng.chance(0.6) else len(mine) - 1
            what = rng.weighted([("infer", 8), ("use", 2), ("bad", 2 if mine[k] else 0)])
            if what == "infer":
                m = rng.randrange(0, len(mine[k]) + 1) if rng.chance(0.4) else min(1, len(mine[k]))
                obs = rand_obs(rng, mine[k], m, scale)
                e = {"do": "infer", "on": k, "obs": obs, "one": len(obs) == 1 and rng.chance(0.5)}
                mine.append([x for x in mine[k] if x not in [o[0] for o in obs]])
            elif what == "use":
                e = {"do": "use", "on": k, "what": rng.choice(["P", "marginals", "samples", "repr"])}
            else:
                obs = rand_obs(rng, mine[k], rng.randrange(1, len(mine[k]) + 1), scale)
                how = rng.choice(["unknown", "twice", "text", "none", "shape"])
                if how == "unknown":
                    obs.insert(rng.randrange(len(obs) + 1), ["nobody", 1.0])
                elif how == "twice":
                    obs.append(list(obs[0]))
                elif how == "text":
                    obs[-1][1] = "high"
                elif how == "none":
                    obs[-1][1] = None
                else:
                    obs[-1] = obs[-1][:1]
                e = {"do": "bad", "on": k, "obs": obs}
            events.append(e)
        callers.append(events)
    plan["callers"] = callers

    def body(step):
        for c in range(len(callers)):
            w = World(plan)
            for e in callers[c]:
                if e["do"] == "bad":
                    step(lambda: None)
                else:
                    step(lambda: w.do(c, e, {}))
    ns = measure(plan["salt"], body)
    if threads:
        opcodes = rng.chance(0.5)
        sw, period = make_schedule(rng, sum(ns) * (9 if opcodes else 1), len(callers))
        plan["threads"] = {"switches": sw, "period": period, "opcodes": opcodes}
    else:
        for e, n in zip(callers[0], ns):
            if e["do"] != "bad" and n and rng.chance(0.35):
                e["cut"] = [rng.pick(sorted(FAULTS)), place(rng, n)]
    return plan


class Belief:
    def __init__(self, g, root, steps):
        self.g, self.root, self.steps = g, root, steps

    def order(self):
        return [o for s in self.steps for o in s]


class World:
    def __init__(self, plan):
        from pybbn.gaussian.inference import GaussianInference
        r = plan["root"]
        A = np.array(r["A"]).reshape(len(r["H"]), len(r["H"]))
        units = np.array(r.get("scale", [1.0] * len(r["H"])))
        self.E = np.outer(units, units) * (A.dot(A.T) + np.diag(r["d"]))
        self.M = np.array(r["M"]) * units
        self.H = list(r["H"])
        self.unit = dict(zip(r["H"], units))
        M = np.array(r["M"]) if r.get("whole") else self.M.copy()
        self.given = (list(r["H"]), list(M) if r["list"] else M, self.E.copy())
        shared = [Belief(GaussianInference(*self.given), k, []) for k in range(plan["roots"])]
        self.known = [list(shared) for _ in plan["callers"]]     # per caller

    def do(self, c, e, uses):
        mine = self.known[c]
        if e["on"] >= len(mine):
            raise Inapplicable("belief dropped")
        b = mine[e["on"]]
        if e["do"] == "use":
            if e["what"] == "samples":
                return {k: len(v) for k, v in b.g.sample_marginals(size=3).items()}
            return {"P": lambda: dict(b.g.P), "marginals": lambda: list(b.g.marginals), "repr": lambda: repr(b.g)}[e["what"]]()
        obs = [tuple(o) for o in e["obs"]]
        if e["do"] != "bad":
            seen = {o[0] for o in b.order()}
            if any(o[0] in seen for o in obs):
                raise Inapplicable("observed twice")
        g = b.g.do_inference(*obs[0]) if e.get("one") else b.g.do_inferences(obs)
        if e["do"] != "bad":
            mine.append(Belief(g, b.root, b.steps + [obs]))


def condition(H, M, E, obs, sign=1.0):
    z = [H.index(n) for n, _ in obs]
    y = [i for i in range(len(H)) if i not in z]
    K = np.linalg.solve(E[np.ix_(z, z)], E[np.ix_(z, y)]).T if z else np.zeros((len(y), 0))
    m = M[y] + sign * K.dot(np.array([v for _, v in obs], dtype=float) - M[z])
    return [H[i] for i in y], m, E[np.ix_(y, y)] - K.dot(E[np.ix_(z, y)])


def near(a, b, units):
    """Equal to what rounding allows, each number in the units of its variable(s)."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    s = np.array(units) if a.ndim == 1 else np.outer(units, units)
    return bool(np.allclose(a / s, b / s, rtol=1e-6, atol=1e-7))


def check(ctx, w, b, where):
    """The belief is what conditioning on its observations, in any way, gives."""
    H, M, E = condition(w.H, w.M, w.E, b.order())
    g = b.g
    u = [w.unit[x] for x in H]
    ctx.check(list(g.H) == H, "variables", lambda: f"{where}: the variables are {list(g.H)}, should be {H}")
    ctx.check({h: g.I[h] for h in g.I} == {h: k for k, h in enumerate(H)} if hasattr(g, "I") else True, "variables", lambda: f"{where}: the index is {g.I}")
    ctx.check(dict(g.meta) == dict(b.order()), "record", lambda: f"{where}: the record is {g.meta}, should be {dict(b.order())}")
    ctx.check(near(g.E, E, u), "covariance", lambda: f"{where}: the covariance is {np.asarray(g.E).tolist()}, should be {E.tolist()}")
    if not near(g.M, M, u):
        h, m, c = list(w.H), w.M, w.E
        for obs in b.steps:
            h, m, c = condition(h, m, c, obs, -1.0)
        listed = "mean-sign" in ctx.listed and near(g.M, m, u)
        ctx.check(listed, "mean", lambda: f"{where}: after {b.steps} the mean is {np.asarray(g.M).tolist()}, should be {M.tolist()}")
        ctx.known.append(("mean-sign", ctx.listed["mean-sign"]))
    ctx.count("beliefs compared")


def state(b):
    g = b.g
    return (list(g.H), np.array(g.M, dtype=float).tobytes(), np.array(g.E, dtype=float).tobytes(), sorted(dict(g.meta).items()))


def run(plan, ctx):
    w = World(plan)
    t = plan.get("threads")
    before = {}

    def everybody():
        out = []
        for c in w.known:
            out += [b for b in c if not any(b is x for x in out)]
        return out

    def freeze():
        for b in everybody():
            before.setdefault(id(b), (b, state(b)))

    def unchanged(where):
        for b, s in before.values():
            ctx.check(state(b) == s, "changed", lambda: f"{where}: the belief after {b.steps} was altered: {b.g!r}")

    freeze()
    if t:
        def caller(c):
            def go():
                for e in plan["callers"][c]:
                    if e["do"] == "bad":
                        bad(c, e)
                    else:
                        w.do(c, e, {})
            return go

        def bad(c, e):
            try:
                w.do(c, e, {})
            except Exception as x:
                if isinstance(x, Inapplicable) or blame(x) is None:
                    raise
        s = Scheduler(ctx, [caller(c) for c in range(len(plan["callers"]))], t["switches"], t["period"], t["opcodes"])
        _, errors = s.run()
        for x in errors:
            if x is not None:
                raise x
        unchanged("after all callers")
    else:
        for k, e in enumerate(plan["callers"][0]):
            ctx.step()
            if e["do"] == "bad":
                try:
                    w.do(0, e, {})
                    ctx.count("invalid observations accepted")
                except Exception as x:
                    if isinstance(x, Inapplicable) or blame(x) is None:
                        raise
                    ctx.count("fault:invalid observations")
                unchanged(f"event {k} (invalid observations)")
                continue
            if "cut" in e:
                n = len(w.known[0])
                try:
                    with Steps(ctx, at=e["cut"][1], kind=e["cut"][0]):
                        w.do(0, e, {})
                except BaseException as x:
                    if not is_injected(x):
                        raise
                    ctx.count("inferences cut short")
                del w.known[0][n:]
                unchanged(f"event {k} (cut short)")
            w.do(0, e, {})
            unchanged(f"event {k}")
            freeze()
    for b in everybody():
        check(ctx, w, b, "at the end")
    h, m, E = w.given
    ctx.check(list(h) == w.H and near(m, w.M, list(w.unit.values())) and near(E, w.E, list(w.unit.values())), "changed", "the arrays the model was made from were altered")
    ctx.ev(len(everybody()), [[round(float(x), 5) for x in np.asarray(b.g.M)] for b in everybody()][:6])
    ctx.sig.append((len(w.H), [[(e["do"], e["on"], [o[0] for o in e.get("obs", [])], e.get("cut")) for e in c] for c in plan["callers"]]))


def nontrivial(ctx):
    return ctx.counts.get("beliefs compared", 0) > 1


def shrink(plan):
    for c in range(len(plan["callers"])):
        ev = plan["callers"][c]

        def w(new):
            return dict(plan, callers=plan["callers"][:c] + [new] + plan["callers"][c + 1:])
        for k in range(len(ev) - 1, -1, -1):
            yield w(ev[:k] + ev[k + 1:])
        for k, e in enumerate(ev):
            if "cut" in e:
                yield w(ev[:k] + [{a: b for a, b in e.items() if a != "cut"}] + ev[k + 1:])
            if e["on"]:
                yield w(ev[:k] + [dict(e, on=0)] + ev[k + 1:])
            if e["do"] == "infer" and len(e["obs"]) > 1:
                for j in range(len(e["obs"])):
                    yield w(ev[:k] + [dict(e, obs=e["obs"][:j] + e["obs"][j + 1:])] + ev[k + 1:])
    if "threads" in plan:
        t = plan["threads"]
        sw = t["switches"]
        size = len(sw) // 2
        while size >= 1:
            for a in range(0, len(sw), size):
                yield dict(plan, threads=dict(t, switches=sw[:a] + sw[a + size:]))
            size //= 2
    if plan["roots"] > 1:
        yield dict(plan, roots=1)
