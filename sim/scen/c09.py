"""C09: seeded sampling reproduces, whatever else draws random numbers meanwhile."""
import random

import numpy as np

from .. import nets, simset, zygote
from ..trace import Scheduler, make_schedule
from . import jtlib, samplib
from .rehearse import measure

PROP = "C09"
ZYGOTE = True


def gen(rng, tier):
    spec = jtlib.rand_large(rng) if rng.chance(0.03) else nets.rand_spec(rng, max_n=6, max_joint=400)
    jobs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        jobs.append({"ev": samplib.rand_evidence(rng, spec, 0.1, 3), "n": rng.randrange(1, 9), "seed": rng.choice([37, 37, 0, 1, 2 ** 32 - 1, rng.randrange(2 ** 32), rng.randrange(2 ** 32)]),
                     "own": rng.chance(0.5), "default": rng.chance(0.15)})
    noise = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        noise.append([rng.choice(["seed", "uniform", "randint", "pyseed", "pyrandom", "state", "normal", "build", "gen"])
                      for _ in range(rng.randrange(1, 8))])
    if len(jobs) == 1 and not noise:
        noise.append(["seed", "uniform"])
    plan = {"spec": spec, "salt": rng.randrange(1, 2 ** 31), "jobs": jobs, "noise": noise, "prefix": rng.random(),
            "noise_seed": rng.randrange(2 ** 32), "between": [rng.choice(["seed", "uniform", "state", "gen"]) for _ in range(rng.randrange(0, 3))],
            "spoil": rng.chance(0.4), "lookalikes": jtlib.rand_lookalikes(rng, spec, 0.4)}
    def body(step):
        from pybbn.sampling.sampling import LogicSampler
        s = LogicSampler(nets.build(spec))
        for j in jobs:
            step(lambda: sample(s, j))
    opcodes = rng.chance(0.4)
    total = sum(measure(plan["salt"], body)) * (7 if opcodes else 1) + sum(len(x) for x in noise)
    switches, period = make_schedule(rng, total, len(jobs) + len(noise))
    plan["threads"] = {"switches": switches, "period": period, "opcodes": opcodes}
    return plan


@zygote.func
def c09_alone(spec, jobs, salt):
    """The calls in a process that did nothing else; the last entry is a call without evidence."""
    from pybbn.sampling.sampling import LogicSampler
    simset.reset(salt)
    s = LogicSampler(nets.build(spec))
    return [[sorted(x.items()) for x in sample(s, j)] for j in jobs + [FREE]]


FREE = {"ev": [], "n": 6, "seed": 5, "default": False}


def plain(samples):
    return [sorted([i, v] for i, v in x.items()) for x in samples]


def spoil(samples):
    """What callers may do with what they were given."""
    for x in samples:
        for i in list(x):
            x[i] = "spoilt"
    samples.reverse()
    samples.extend({} for _ in range(3))


def sample(s, j, n=None):
    n = j["n"] if n is None else n
    if j["default"]:
        return s.get_samples({i: v for i, v in j["ev"]}, n)
    return s.get_samples(evidence={i: v for i, v in j["ev"]}, n_samples=n, seed=j["seed"])


def make_noise(what, plan, k):
    seed = (plan["noise_seed"] + 977 * k) & 0xFFFFFFFF
    if what == "seed":
        np.random.seed(seed)
    elif what == "uniform":
        np.random.uniform(0.0, 1.0, size=1 + k % 5)
    elif what == "randint":
        np.random.randint(0, 10)
    elif what == "pyseed":
        random.seed(seed)
    elif what == "pyrandom":
        random.random()
    elif what == "normal":
        np.random.normal(0, 1)
    elif what == "state":
        np.random.set_state(np.random.RandomState(seed).get_state())
    elif what == "build":
        nets.build(plan["spec"])
    elif what == "gen":
        from pybbn.generator.bbngenerator import generate_singly_bbn
        np.random.seed(seed)
        generate_singly_bbn(3, max_iter=2)


def run(plan, ctx):
    from pybbn.sampling.sampling import LogicSampler
    spec = plan["spec"]
    for j in plan["jobs"]:
        samplib.like(spec, j["ev"])
    ref = nets.reference(spec)
    for j in plan["jobs"]:
        if ref.prob(samplib.like(spec, j["ev"])) < 0.05:
            from ..core import Inapplicable
            raise Inapplicable("evidence too unlikely")
    first = zygote.call("c09_alone", spec, plan["jobs"], plan["salt"])
    ctx.check("ok" in first, "sampling", lambda: f"sampling in a process of its own: {first}")
    first = first["ok"]
    ctx.count("fault:restart")
    jtlib.Bystanders(ctx, plan["lookalikes"], ("sampler",))
    bbn = nets.build(spec)
    shared = LogicSampler(bbn)
    ctx.check(plain(sample(shared, FREE)) == first[-1], "not reproduced", "samples without evidence differ from those of another process")
    alone = []

    def taken(samples):
        out = plain(samples)
        if plan["spoil"]:
            spoil(samples)
            ctx.count("results spoilt by the caller")
        return out
    for j in plan["jobs"]:
        alone.append(taken(sample(LogicSampler(bbn), j)))
        for k, b in enumerate(plan["between"]):
            make_noise(b, plan, k)
            ctx.count("fault:foreign draw")
    for k, j in enumerate(plan["jobs"]):
        ctx.check(alone[k] == first[k], "not reproduced", lambda: f"call {k} differs from the same call in another process")
        ctx.check(taken(sample(shared, j)) == alone[k], "not reproduced", lambda: f"call {k} repeated alone on another sampler differs")
        m = int(plan["prefix"] * (j["n"] + 1))
        ctx.check(taken(sample(shared, j, m)) == alone[k][:m], "no prefix", lambda: f"{m} samples are not the first of {j['n']}")
    t = plan["threads"]
    holder = []

    def worker(j):
        s = LogicSampler(bbn) if j["own"] else shared
        return lambda: sample(s, j)

    def noisy(ops):
        def f():
            for k, op in enumerate(ops):
                make_noise(op, plan, k)
                ctx.count("fault:foreign draw")
                holder[0].point("noise")
        return f
    s = Scheduler(ctx, [worker(j) for j in plan["jobs"]] + [noisy(x) for x in plan["noise"]], t["switches"], t["period"], t["opcodes"])
    holder.append(s)
    results, errors = s.run()
    for e in errors:
        if e is not None:
            raise e
    for k, j in enumerate(plan["jobs"]):
        ctx.ev(k, [sorted(x.items()) for x in results[k][:2]])
        ctx.check(taken(results[k]) == alone[k], "disturbed", lambda: f"call {k} (seed {j['seed']}) gives other samples when others draw meanwhile")
    for k, j in enumerate(plan["jobs"]):
        ctx.check(taken(sample(shared, j)) == alone[k], "not reproduced", lambda: f"call {k} differs after the threads ended")
    ctx.sig.append((jtlib.shape(spec), [(j["seed"], j["n"], j["ev"]) for j in plan["jobs"]]))


def nontrivial(ctx):
    return ctx.counts.get("fault:preemption", 0) > 0 or "fault:foreign draw" in ctx.counts


def shrink(plan):
    yield from jtlib.fewer_lookalikes(plan)
    if plan["spoil"]:
        yield dict(plan, spoil=False)
    t = plan["threads"]
    sw = t["switches"]
    size = len(sw) // 2
    while size >= 1:
        for a in range(0, len(sw), size):
            yield dict(plan, threads=dict(t, switches=sw[:a] + sw[a + size:]))
        size //= 2
    for k in range(len(plan["noise"])):
        if len(plan["noise"]) > 1:
            yield dict(plan, noise=plan["noise"][:k] + plan["noise"][k + 1:])
        if len(plan["noise"][k]) > 1:
            for a in range(len(plan["noise"][k])):
                yield dict(plan, noise=plan["noise"][:k] + [plan["noise"][k][:a] + plan["noise"][k][a + 1:]] + plan["noise"][k + 1:])
    for k, j in enumerate(plan["jobs"]):
        if j["ev"]:
            yield dict(plan, jobs=plan["jobs"][:k] + [dict(j, ev=[])] + plan["jobs"][k + 1:])
        if j["n"] > 2:
            yield dict(plan, jobs=plan["jobs"][:k] + [dict(j, n=j["n"] // 2)] + plan["jobs"][k + 1:])
    for s in nets.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
