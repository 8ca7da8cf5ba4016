"""C07: every sample drawn is legal, whatever the random source returns."""
import copy

from .. import nets
from ..core import FAULTS, is_injected
from ..rngseam import scripted_randomness
from ..trace import Steps
from . import iolib, jtlib, samplib
from .rehearse import place

PROP = "C07"
LEAST = 0.05


def gen(rng, tier):
    if rng.chance(0.04):
        spec = jtlib.rand_large(rng)
    else:
        spec = nets.rand_spec(rng, max_n=9, max_card=6, max_joint=3000,
                              styles=["uniform", "zeros", "det", "tenths", "random", "zeros", "tiny"])
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        c = {"ev": samplib.rand_evidence(rng, spec, LEAST), "n": rng.choice([0, 1, 2, 5, 20]) if rng.chance(0.98) else rng.randrange(100, 1300), "seed": rng.randrange(2 ** 32),
             "sampler": rng.randrange(2), "default": rng.chance(0.1)}
        if rng.chance(0.01):
            # evidence that hardly ever comes up
            c["least"], c["n"] = 2e-4, rng.randrange(1, 3)
            for _ in range(10):
                c["ev"] = samplib.rand_evidence(rng, spec, c["least"], 8)
                if nets.reference(spec).prob(samplib.like(spec, c["ev"])) < 0.01:
                    break
        if rng.chance(0.2):
            c["cut"] = [rng.pick(sorted(FAULTS)), place(rng, 60 * len(spec["nodes"]))]
        calls.append(c)
    menu = samplib.boundaries(rng, spec, rng.randrange(1, 8))
    menu += rng.sample([0.0, 1.0 - 2.0 ** -53, 0.5, 5e-324, 2.0 ** -53, 1.0 - 2.0 ** -52, 0.1, 0.3, 0.9999999999999999], rng.randrange(1, 5))
    return {"spec": spec, "implicit": rng.chance(0.3), "calls": calls,
            "rng": {"seed": rng.randrange(2 ** 32), "menu": menu, "p": rng.choice([0.3, 0.7, 1.0, 1.0]), "hostile": rng.choice([50, 400, 3000])}}


def run(plan, ctx):
    from pybbn.sampling.sampling import LogicSampler
    spec = plan["spec"]
    ref = nets.reference(spec)
    bbn = nets.build(spec, plan["implicit"])
    want = iolib.describe_spec(spec)
    n = len(spec["nodes"])
    samplers = [LogicSampler(bbn)]
    with scripted_randomness(plan["rng"], ctx) as stream:
        for k, c in enumerate(plan["calls"]):
            ctx.step()
            p = ref.prob(samplib.like(spec, c["ev"]))
            if p < c.get("least", LEAST):
                continue
            if p < 0.01:
                ctx.count("unlikely evidence")
            if c["sampler"] == 1 and len(samplers) == 1:
                samplers.append(LogicSampler(bbn))
            s = samplers[c["sampler"]]
            rounds = 10 * c["n"] / p + 120 / p
            stream.limit = stream.n + plan["rng"]["hostile"] + int(4 * n * rounds)
            ev = {i: v for i, v in c["ev"]}
            before = copy.deepcopy(ev)

            def call():
                if c["default"] and not ev:
                    return s.get_samples(n_samples=c["n"]), c["n"]
                return s.get_samples(evidence=ev, n_samples=c["n"], seed=c["seed"]), c["n"]
            if "cut" in c:
                try:
                    with Steps(ctx, at=c["cut"][1], kind=c["cut"][0]):
                        call()
                except BaseException as e:
                    if not is_injected(e):
                        raise
                    ctx.count("sampling cut short")
            samples, m = call()
            ctx.check(len(samples) == m, "count", lambda: f"{len(samples)} samples instead of {m}")
            ctx.check(ev == before and list(ev) == list(before), "evidence altered", lambda: f"evidence {before} became {ev}")
            for x in samples:
                samplib.check_sample(ctx, spec, c["ev"], x)
                ctx.step()
            ctx.check(len({id(x) for x in samples}) == len(samples) and all(x is not ev for x in samples), "aliasing",
                      "two samples are one object")
            ctx.count("samples", len(samples))
            if c["ev"]:
                ctx.count("calls with evidence")
            ctx.ev(k, len(samples), stream.n, [sorted(x.items()) for x in samples[:2]])
        bad = iolib.diff(iolib.describe(bbn), want)
        ctx.check(bad is None, "network altered", bad or "")
        ctx.count("random draws", stream.n)
    ctx.sig.append((jtlib.shape(spec), [(c["ev"], c["n"]) for c in plan["calls"]], ctx.log[-1:]))


def nontrivial(ctx):
    return "fault:hostile draw" in ctx.counts and "samples" in ctx.counts


def shrink(plan):
    c = plan["calls"]
    for k in range(len(c)):
        if len(c) > 1:
            yield dict(plan, calls=c[:k] + c[k + 1:])
        for j in range(len(c[k]["ev"])):
            yield dict(plan, calls=c[:k] + [dict(c[k], ev=c[k]["ev"][:j] + c[k]["ev"][j + 1:])] + c[k + 1:])
        if "cut" in c[k]:
            yield dict(plan, calls=c[:k] + [{a: b for a, b in c[k].items() if a != "cut"}] + c[k + 1:])
        if c[k]["n"] > 1:
            yield dict(plan, calls=c[:k] + [dict(c[k], n=1)] + c[k + 1:])
    r = plan["rng"]
    for j in range(len(r["menu"])):
        yield dict(plan, rng=dict(r, menu=r["menu"][:j] + r["menu"][j + 1:]))
    if r["hostile"] > 50:
        yield dict(plan, rng=dict(r, hostile=50))
    for s in nets.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    if plan["implicit"]:
        yield dict(plan, implicit=False)
