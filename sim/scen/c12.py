"""C12: causal effects equal intervention, whatever was asked before."""
from .. import nets
from ..core import FAULTS, Inapplicable, is_injected
from ..trace import Scheduler, Steps, make_schedule
from . import jtlib
from .rehearse import measure, place

PROP = "C12"


def askable(spec):
    """Variables each of whose values is possible under every possible combination of its parents."""
    ref = nets.Reference(spec)
    out = []
    for n in spec["nodes"]:
        i = n["id"]
        k = len(n["values"])
        dims = n["parents"]
        ok = True
        keep = [ref.axis[d] for d in dims]
        ax = tuple(a for a in range(ref.joint.ndim) if a not in keep)
        pa = ref.joint.sum(axis=ax)
        order = sorted(dims, key=lambda d: ref.axis[d])
        import itertools
        for r, combo in enumerate(itertools.product(*[range(len(ref.nodes[d]["values"])) for d in dims])):
            m = dict(zip(dims, combo))
            p = float(pa[tuple(m[d] for d in order)]) if dims else 1.0
            if p > 0.0 and min(n["probs"][r * k:(r + 1) * k]) <= 0.0:
                ok = False
        if ok:
            out.append(i)
    return out


def work(spec, q):
    """Roughly, how many propagations the question takes times the number of variables."""
    nodes = nets.spec_nodes(spec)
    pas = nodes[q["x"]]["parents"]
    c = len(nodes[q["x"]]["values"]) * (1 + len(pas)) * len(nodes)
    for p in pas:
        c *= len(nodes[p]["values"])
    return c


def gen(rng, tier):
    mode = rng.weighted([("plain", 6), ("cuts", 2), ("threads", 1.5)])
    threads = mode == "threads"
    large = rng.chance(0.15)
    while True:
        if mode == "plain" and rng.chance(0.03):
            # a cause of many parents
            n = rng.randrange(5, 7)
            spec = nets.rand_spec(rng, n=n, max_pa=4, structures=["starin", "dense", "dense"], cards=[2] * n, max_family=64, styles=["random", "random", "tiny"])
            xs = [max(spec["nodes"], key=lambda m: len(m["parents"]))["id"]] if rng.chance(0.5) else [m["id"] for m in spec["nodes"] if len(m["parents"]) > 2]
            if xs:
                break
            continue
        spec = nets.rand_spec(rng, max_n=4 if threads else 7, max_card=3, max_joint=60 if threads else 400 if large else 130,
                              max_family=12 if threads else 36 if large else 16,
                              styles=["random", "random", "uniform", "zeros", "tiny", "det"])
        if len(spec["nodes"]) < 2:
            continue
        xs = askable(spec)
        if xs:
            break
    qs = []
    nodes = nets.spec_nodes(spec)
    spent = 0
    for _ in range(rng.randrange(1, 4) if threads else rng.randrange(2, 10) if mode == "plain" else rng.randrange(1, 6)):
        x = rng.pick(xs)
        y = rng.pick([n for n in spec["nodes"] if n["id"] != x])
        q = {"x": x, "y": y["id"], "v": rng.pick(y["values"]), "on": rng.randrange(2)}
        if qs and rng.chance(0.6):
            # one thing changes
            last = qs[-1]
            q = dict(last)
            c = rng.randrange(4)
            if c == 0:
                q["x"] = rng.pick([i for i in xs if i != last["y"]])
            elif c == 1:
                q["y"] = rng.pick([i for i in nodes if i != last["x"]])
                q["v"] = last["v"] if last["v"] in nodes[q["y"]]["values"] and rng.chance(0.7) else rng.pick(nodes[q["y"]]["values"])
            elif c == 2:
                q["v"] = rng.pick(nodes[q["y"]]["values"])
            else:
                q["on"] = 1 - q["on"]
        spent += work(spec, q)
        if qs and spent > (600 if mode == "plain" else 200):
            break
        qs.append(q)
    plan = {"spec": spec, "salt": rng.randrange(1, 2 ** 31), "qs": qs, "ev": jtlib.rand_ops(rng, spec, rng.choice([0, 0, 1, 2]), queries=False),
            "lookalikes": jtlib.rand_lookalikes(rng, spec, 0.25)}

    if mode == "plain":
        return plan
    cuts = [rng.chance(0.5) for _ in qs]

    def body(step):
        aces, names = setup(plan)
        for q, c in zip(qs, cuts):
            step(lambda: None) if not (c or threads) else step(lambda: aces[q["on"]].get_ace(names[q["x"]], names[q["y"]], q["v"]))
    ns = measure(plan["salt"], body)
    if threads and sum(ns) > 250_000:
        threads = False        # too long for the slow, stepwise execution of threads
    if threads:
        opcodes = sum(ns) < 60_000 and rng.chance(0.5)
        sw, period = make_schedule(rng, sum(ns) * (7 if opcodes else 1), 2)
        plan["threads"] = {"switches": sw, "period": period, "opcodes": opcodes}
        for k, q in enumerate(qs):
            q["on"] = k % 2
    else:
        for q, n, c in zip(qs, ns, cuts):
            if c:
                q["cut"] = [rng.pick(sorted(FAULTS)), place(rng, n)]
                q["retry"] = rng.chance(0.7)
    return plan


def setup(plan):
    from pybbn.causality.ace import Ace
    spec = plan["spec"]
    bbn = nets.build(spec)
    aces = [Ace(bbn), Ace(bbn)]
    names = {n["id"]: n["name"] for n in spec["nodes"]}
    return aces, names


def run(plan, ctx):
    spec = plan["spec"]
    ok = set(askable(spec))
    nodes = nets.spec_nodes(spec)
    for q in plan["qs"]:
        if q["x"] not in ok or q["y"] not in nodes or q["v"] not in nodes[q["y"]]["values"] or q["x"] == q["y"]:
            raise Inapplicable("question dropped")
    jtlib.Bystanders(ctx, plan["lookalikes"], ("ace",))
    aces, names = setup(plan)
    ref = nets.Reference(spec)
    if plan["ev"]:
        # whatever else the estimator's join tree was used for
        for op in plan["ev"]:
            jtlib.check_op_fits(spec, op)
            jtlib.prepare(aces[0].jt, spec, op)()
        ctx.count("estimator's tree used before")

    def ask(q):
        return aces[q["on"]].get_ace(names[q["x"]], names[q["y"]], q["v"])

    def judge(k, q, got):
        want = {v: ref.do(q["x"], v, q["y"], q["v"]) for v in nodes[q["x"]]["values"]}
        ctx.check(set(got) == set(want), "effect", lambda: f"values {sorted(got)} instead of {sorted(want)}")
        for v in want:
            ctx.check(abs(got[v] - want[v]) <= 1e-9, "effect",
                      lambda: f"question {k}: P({names[q['y']]}={q['v']} | do({names[q['x']]}={v})) is {got[v]!r}, should be {want[v]!r}")
        ctx.count("effects compared", len(want))
        if len(nodes[q["x"]]["parents"]) > 1:
            ctx.count("several parents")
        ctx.ev(k, [round(x, 6) for _, x in sorted(got.items())])
        for v in got:
            got[v] = -1.0       # the caller's own

    t = plan.get("threads")
    if t:
        mine = [[(k, q) for k, q in enumerate(plan["qs"]) if q["on"] == c] for c in (0, 1)]
        s = Scheduler(ctx, [(lambda qs: lambda: [ask(q) for _, q in qs])(m) for m in mine], t["switches"], t["period"], t["opcodes"])
        results, errors = s.run()
        for e in errors:
            if e is not None:
                raise e
        for c in (0, 1):
            for (k, q), got in zip(mine[c], results[c]):
                judge(k, q, got)
    else:
        for k, q in enumerate(plan["qs"]):
            ctx.step()
            if "cut" in q:
                try:
                    with Steps(ctx, at=q["cut"][1], kind=q["cut"][0]):
                        ask(q)
                except BaseException as e:
                    if not is_injected(e):
                        raise
                    ctx.count("questions cut short")
                if not q["retry"]:
                    continue
            judge(k, q, ask(q))
    k = len(plan["qs"]) - 1
    judge("again", plan["qs"][k], ask(plan["qs"][k]))
    ctx.sig.append((jtlib.shape(spec), [(q["x"], q["y"], q["v"], q["on"], q.get("cut")) for q in plan["qs"]]))


def nontrivial(ctx):
    return ctx.counts.get("effects compared", 0) > 0


def shrink(plan):
    yield from jtlib.fewer_lookalikes(plan)
    qs = plan["qs"]
    for k in range(len(qs)):
        if len(qs) > 1:
            yield dict(plan, qs=qs[:k] + qs[k + 1:])
        if "cut" in qs[k]:
            yield dict(plan, qs=qs[:k] + [{a: b for a, b in qs[k].items() if a not in ("cut", "retry")}] + qs[k + 1:])
    if plan["ev"]:
        yield dict(plan, ev=[])
    if "threads" in plan:
        t = plan["threads"]
        sw = t["switches"]
        size = len(sw) // 2
        while size >= 1:
            for a in range(0, len(sw), size):
                yield dict(plan, threads=dict(t, switches=sw[:a] + sw[a + size:]))
            size //= 2
    for s in nets.shrink_spec(plan["spec"], keep={i for q in qs for i in (q["x"], q["y"])}):
        yield dict(plan, spec=s)
