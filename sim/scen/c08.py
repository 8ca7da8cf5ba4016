"""C08: with a fair random source, samples follow the distribution that exact inference computes."""
import math

import numpy as np

from .. import nets
from . import jtlib, samplib

PROP = "C08"
SUSPECT, SURE = 1e-4, 1e-9


def gen(rng, tier):
    spec = nets.rand_spec(rng, max_n=7, max_card=4, max_joint=300, styles=["random", "zeros", "tenths", "det", "random"])
    return {"spec": spec, "implicit": rng.chance(0.3), "ev": samplib.rand_evidence(rng, spec, 0.08, 3),
            "n": rng.choice([400, 800, 1500]), "seeds": [rng.randrange(2 ** 32) for _ in range(rng.choice([1, 2, 3]))],
            "more": [rng.randrange(2 ** 32) for _ in range(6)], "check_tree": rng.chance(0.3),
            "lookalikes": jtlib.rand_lookalikes(rng, spec)}


def chi2(ctx, w, counts, total):
    """p-value of the counts of complete assignments against the conditional joint."""
    from scipy.stats import chi2 as dist
    e = w.reshape(-1) * total
    o = counts.reshape(-1)
    if (o[e == 0.0] > 0).any():
        ctx.fail("impossible", "an assignment of probability zero was sampled")
    idx = np.argsort(e, kind="stable")
    e, o = e[idx], o[idx]
    stat, cells = 0.0, 0
    ce = co = 0.0
    for a, b in zip(e, o):
        ce += a
        co += b
        if ce >= 8.0:
            stat += (co - ce) ** 2 / ce
            cells += 1
            ce = co = 0.0
    if ce > 0 and cells:
        stat += (co - ce) ** 2 / max(ce, 1.0) if ce >= 1.0 else 0.0
        cells += 1 if ce >= 1.0 else 0
    if cells < 2:
        return 1.0
    return float(dist.sf(stat, cells - 1))


def marg(ref, w, counts, total):
    """Smallest p-value of a marginal count (normal tail with a safety margin), and what it is."""
    worst, what = 1.0, None
    for i in ref.order:
        ax = tuple(k for k in range(w.ndim) if k != ref.axis[i])
        p, c = w.sum(axis=ax), counts.sum(axis=ax)
        for k, v in enumerate(ref.nodes[i]["values"]):
            # Chernoff bound on a binomial tail: sound whatever the size
            q, x = float(p[k]), float(c[k]) / total
            kl = 0.0
            q = min(max(q, 0.0), 1.0)
            if q <= 0.0 or q >= 1.0:
                continue
            if x > 0:
                kl += x * math.log(x / q)
            if x < 1:
                kl += (1 - x) * math.log((1 - x) / (1 - q))
            b = min(1.0, 2 * math.exp(-total * max(kl, 0.0)))
            if b < worst:
                worst, what = b, f"P({i}={v}) sampled {x:.4f}, exact {q:.4f}"
    return worst, what


def run(plan, ctx):
    from pybbn.sampling.sampling import LogicSampler
    spec = plan["spec"]
    ref = nets.Reference(spec)
    like = samplib.like(spec, plan["ev"])
    w = ref.weighted(like)
    if not w.sum() >= 0.05:
        from ..core import Inapplicable
        raise Inapplicable("evidence too unlikely")
    w = w / w.sum()
    jtlib.Bystanders(ctx, plan["lookalikes"], ("sampler",))
    s = LogicSampler(nets.build(spec, plan["implicit"]))
    nodes = nets.spec_nodes(spec)
    index = {i: {v: k for k, v in enumerate(nodes[i]["values"])} for i in nodes}

    def draw(seeds, n):
        counts = np.zeros(w.shape)
        for seed in seeds:
            for x in s.get_samples(evidence={i: v for i, v in plan["ev"]}, n_samples=n, seed=seed):
                counts[tuple(index[i][x[i]] for i in ref.order)] += 1
        ctx.step(n * len(seeds))
        ctx.count("samples", n * len(seeds))
        return counts, n * len(seeds)

    counts, total = draw(plan["seeds"], plan["n"])
    ctx.check(counts.sum() == total, "count", "samples missing")
    p = chi2(ctx, w, counts, total)
    m, what = marg(ref, w, counts, total)
    ctx.ev("first", counts.reshape(-1).astype(int).tolist()[:40])
    if min(p, m) < SUSPECT:
        ctx.count("second looks")
        counts, total = draw(plan["more"], 4 * plan["n"])
        p2 = chi2(ctx, w, counts, total)
        m2, what = marg(ref, w, counts, total)
        if min(p2, m2) < SURE:
            ctx.fail("distribution", f"{total} samples given {plan['ev']} do not follow the joint (p={min(p2, m2):.2g}): {what}")
    if plan["check_tree"]:
        from pybbn.pptc.inferencecontroller import InferenceController
        jt = InferenceController.apply(nets.build(spec))
        jtlib.prepare(jt, spec, {"op": "update", "ev": [{"id": i, "type": "obs", "vals": [[v, 1.0]]} for i, v in plan["ev"]]})()
        bad = nets.compare_posteriors(jtlib.query(jt, spec), ref.posteriors(like))
        ctx.check(bad is None, "posterior", bad or "")
    if plan["ev"]:
        ctx.count("with evidence")
    if any(n["parents"] != sorted(n["parents"]) for n in spec["nodes"]):
        ctx.count("parents added out of order")
    ctx.sig.append((jtlib.shape(spec), plan["ev"], plan["seeds"]))


def nontrivial(ctx):
    return ctx.counts.get("samples", 0) > 0


def shrink(plan):
    yield from jtlib.fewer_lookalikes(plan)
    if plan["check_tree"]:
        yield dict(plan, check_tree=False)
    for j in range(len(plan["ev"])):
        yield dict(plan, ev=plan["ev"][:j] + plan["ev"][j + 1:])
    if len(plan["seeds"]) > 1:
        yield dict(plan, seeds=plan["seeds"][:1])
    for s in nets.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    if plan["implicit"]:
        yield dict(plan, implicit=False)
