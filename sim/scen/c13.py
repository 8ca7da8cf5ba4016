"""C13: the answers do not depend on the process they are computed in."""
import json
import os
import tempfile

from .. import helper, nets, simset
from ..core import Inapplicable
from . import iolib, jtlib, samplib
from .c12 import askable

PROP = "C13"
POOL = {"quick": [0, 1, 77, 4242424242], "thorough": [0, 1, 2, 3, 5, 77, 1234, 99999, 31337, 4242424242, 7777777, 65535]}
TOPICS = ["posteriors", "files", "samples", "generated", "tree", "do", "ace"]


def gen(rng, tier):
    spec = jtlib.rand_large(rng, ["chain", "tree", "polytree", "forest"]) if rng.chance(0.03) else nets.rand_spec(rng, max_n=7, max_card=3, max_joint=400, max_family=36)
    # names of every kind: they are what hash randomisation scrambles
    if rng.chance(0.7):
        for n, x in zip(spec["nodes"], rng.sample(nets.NAME_POOL, len(spec["nodes"]))):
            n["name"] = x
    ids = [n["id"] for n in spec["nodes"]]
    topics = [t for t in TOPICS if rng.chance(0.45)] or [rng.pick(TOPICS)]
    if len(ids) > 12:
        topics = [t for t in topics if t != "ace"] or ["do"]
    if rng.chance(0.5) and "do" not in topics:
        topics.append("do")
    plan = {"spec": spec, "salt": 0, "topics": topics, "ops": jtlib.rand_ops(rng, spec, rng.randrange(0, 4), queries=False),
            "ev": samplib.rand_evidence(rng, spec, 0.2, 2), "seed": rng.randrange(2 ** 31), "n": rng.randrange(1, 6)}
    plan["pairs"] = [rng.sample(ids, 2) for _ in range(rng.randrange(1, 5))] if len(ids) > 1 else []
    plan["given"] = rng.sample(ids, rng.randrange(0, min(3, len(ids)) + 1))
    plan["gen"] = {"type": rng.choice(["singly", "multi"]), "n": rng.randrange(1, 8), "max_iter": rng.choice([1, 10, 30]), "max_values": rng.choice([2, 3])}
    xs = askable(spec) if "ace" in topics else []
    plan["ace"] = None
    if "ace" in topics and xs and len(ids) > 1:
        x = rng.pick(xs)
        y = rng.pick([n for n in spec["nodes"] if n["id"] != x])
        plan["ace"] = [x, y["id"], rng.pick(y["values"])]
    plan["data"] = rand_data(rng) if rng.chance(0.05) else None
    worlds = []
    for _ in range(rng.choice([1, 1, 2])):
        worlds.append({"sim": rng.randrange(1, 2 ** 31)})
    for h in rng.sample(POOL[tier], rng.choice([1, 2, 2, 3])):
        worlds.append({"real": h})
    plan["worlds"] = worlds
    return plan


def rand_data(rng):
    """A structure over named columns, and rows of values."""
    n = rng.randrange(2, 5)
    cols = rng.sample(["rain", "sprinkler", "grass", "a", "b", "B", "x1", "x10", "x2", "season"], n)
    order = rng.shuffled(cols)
    structure = {c: rng.sample(order[:k], min(k, rng.choice([0, 1, 2, 2]))) for k, c in enumerate(order)}
    values = {c: rng.sample(["on", "off", "low", "mid", "high", "t", "f"], rng.choice([2, 2, 3])) for c in cols}
    rows = [[rng.pick(values[c]) for c in cols] for _ in range(rng.randrange(6, 30))]
    return {"cols": cols, "structure": [[c, structure[c]] for c in rng.shuffled(cols)], "rows": rows}


def answers(plan):
    """Everything the plan asks, as plain data. Lists are compared in order, {"set": [...]} is sorted."""
    import networkx as nx
    import numpy as np
    import random
    from pybbn.causality import do
    from pybbn.causality.ace import Ace
    from pybbn.generator import bbngenerator as g
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    spec, topics = plan["spec"], plan["topics"]
    names = {n["id"]: n["name"] for n in spec["nodes"]}
    out = {}
    bbn = nets.build(spec)
    if "posteriors" in topics or "tree" in topics:
        jt = InferenceController.apply(bbn)
        if "tree" in topics:
            out["cliques"] = [sorted(c.node_ids) for c in jt.get_cliques()]
            out["clique ids"] = [str(c.id) for c in jt.get_cliques()]
            out["separators"] = [str(s.id) for s in jt.get_sep_sets()]
            out["tree text"] = json.dumps(JoinTree.to_dict(jt, bbn))
        if "posteriors" in topics:
            out["posteriors"] = [jtlib.query(jt, spec)]
            for op in plan["ops"]:
                jtlib.prepare(jt, spec, op)()
                out["posteriors"].append(jtlib.query(jt, spec))
    if "files" in topics:
        d = tempfile.mkdtemp(prefix="c13-")
        try:
            p = os.path.join(d, "net")
            Bbn.to_json(bbn, p)
            out["json file"] = open(p).read()
            os.unlink(p)
            try:
                Bbn.to_csv(bbn, p)
            except ValueError as e:
                if not iolib.unsavable(spec):
                    raise
                out["csv file"] = str(e)
            else:
                out["csv file"] = open(p).read()
                again = Bbn.from_csv(p)
                out["loaded"] = json.dumps(Bbn.to_dict(again))
            out["export"] = Bbn.to_dne(bbn)
            if os.path.exists(p):
                os.unlink(p)
        finally:
            os.rmdir(d)
    if "samples" in topics:
        s = LogicSampler(bbn)
        got = s.get_samples(evidence={i: v for i, v in plan["ev"]}, n_samples=plan["n"], seed=plan["seed"])
        out["samples"] = [sorted([int(i), str(v)] for i, v in x.items()) for x in got]
    if "generated" in topics:
        q = plan["gen"]
        np.random.seed(plan["seed"])
        random.seed(plan["seed"])
        f = g.generate_singly_bbn if q["type"] == "singly" else g.generate_multi_bbn
        graph, params = f(q["n"], max_iter=q["max_iter"], max_values=q["max_values"])
        out["generated"] = json.loads(g.to_json(graph, params))
        out["converted"] = json.dumps(Bbn.to_dict(g.convert_for_exact_inference(graph, params)), default=float)
    if "do" in topics:
        d = nx.DiGraph()
        for n in spec["nodes"]:
            d.add_node(n["name"])
        for a, b in spec["edges"]:
            d.add_edge(names[a], names[b])
        gr = do.get_graph(d)
        given = {names[i] for i in plan["given"]}
        res = []
        for a, b in plan["pairs"]:
            x, y = names[a], names[b]
            r = {"paths": do.get_paths(gr, x, y),
                 "confounders": {"set": sorted(do.get_all_confounders(gr, x, y))},
                 "minimal confounders": list(do.get_minimal_confounders(gr, x, y)),
                 "minimal mediators": list(do.get_minimal_mediators(gr, x, y))}
            r["active"] = [do.is_active_path(gr, p["path"], given) for p in r["paths"] if not given & {x, y}]
            res.append(r)
        out["do"] = json.loads(json.dumps(res))
    if plan.get("data"):
        import pandas as pd
        from pybbn.graph.factory import Factory
        d = plan["data"]
        learned = Factory.from_data({c: list(p) for c, p in d["structure"]}, pd.DataFrame(d["rows"], columns=d["cols"]))
        out["learned"] = [json.loads(json.dumps(Bbn.to_dict(learned), default=float)), {str(k): v for k, v in learned.get_i2n().items()},
                          jtlib.query(InferenceController.apply(learned), None)]
        out["learned order"] = list(learned.get_i2n().values())
    if plan["ace"] and "ace" in topics:
        x, y, v = plan["ace"]
        out["ace"] = dict(Ace(bbn).get_ace(names[x], names[y], v))
    return json.loads(json.dumps(out))


def difference(a, b, at=""):
    """None, or where two answers differ (probabilities by more than 1e-9)."""
    if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
        return None if abs(a - b) <= 1e-9 or (a != a and b != b) else f"{at}: {a!r} and {b!r}"
    if type(a) is not type(b):
        return f"{at}: {a!r} and {b!r}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{at}: {sorted(a)} and {sorted(b)}"
        for k in sorted(a):
            d = difference(a[k], b[k], f"{at}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{at}: {str(a)[:300]} and {str(b)[:300]}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f"{at}[{k}]")
            if d:
                return d
        return None
    return None if a == b else f"{at}: {str(a)[:300]!r} and {str(b)[:300]!r}"


def run(plan, ctx):
    spec = plan["spec"]
    nodes = nets.spec_nodes(spec)
    for i in [i for p in plan["pairs"] for i in p] + plan["given"]:
        if i not in nodes:
            raise Inapplicable("node dropped")
    samplib.like(spec, plan["ev"])
    if not nets.reference(spec).prob(samplib.like(spec, plan["ev"])) >= 0.01:
        raise Inapplicable("evidence too unlikely")
    if plan["ace"]:
        x, y, v = plan["ace"]
        if x not in askable(spec) or y not in nodes or v not in nodes[y]["values"]:
            raise Inapplicable("question dropped")
    defined = [True]
    oracle, state = jtlib.Oracle(spec), {}
    for op in plan["ops"]:
        jtlib.check_op_fits(spec, op)
        state = jtlib.model_apply(spec, state, op)
        defined.append(oracle.want(state) is not None)
    got = []
    for w in plan["worlds"]:
        if "sim" in w:
            simset.reset(-w["sim"])
            try:
                a = answers(plan)
            finally:
                simset.reset(0)
            ctx.count("fault:set order permuted")
        else:
            r = helper.call(w["real"], "sim.scen.c13", "answers", plan)
            if "err" in r:
                if r["blame"]:
                    ctx.fail(f"exception {r['err']}", f"in the process with hash seed {w['real']}: {r['msg']} (in {r['blame']})")
                raise RuntimeError(str(r))
            a = r["ok"]
            ctx.count("fault:process with another hash seed")
        if "posteriors" in a:
            a["posteriors"] = [p for p, d in zip(a["posteriors"], defined) if d]
        got.append(a)
        ctx.step()
    for k in range(1, len(got)):
        d = difference(got[0], got[k])
        ctx.check(d is None, "differs", lambda: f"between {plan['worlds'][0]} and {plan['worlds'][k]}: {d}")
    if "posteriors" in got[0]:
        s = {}
        want = [oracle.want(s)]
        for op in plan["ops"]:
            s = jtlib.model_apply(spec, s, op)
            if oracle.want(s) is not None:
                want.append(oracle.want(s))
        for g, p in zip(got[0]["posteriors"], want):
            bad = nets.compare_posteriors(g, p)
            ctx.check(bad is None, "posterior", bad or "")
    for t in plan["topics"]:
        ctx.count("topic " + t)
    if plan.get("data"):
        ctx.count("topic learned")
    ctx.count("worlds compared", len(got))
    import hashlib
    for t in sorted(got[0]):
        if t not in ("posteriors", "ace"):
            ctx.ev(t, hashlib.sha256(json.dumps(got[0][t], sort_keys=True).encode()).hexdigest()[:12])
    ctx.sig.append((jtlib.shape(spec), sorted(names for names in (n["name"] for n in spec["nodes"])), plan["topics"], plan["worlds"]))


def nontrivial(ctx):
    return ctx.counts.get("worlds compared", 0) > 1


def shrink(plan):
    ws = plan["worlds"]
    if plan.get("data"):
        yield dict(plan, data=None)
    if len(ws) > 2:
        for k in range(len(ws)):
            yield dict(plan, worlds=ws[:k] + ws[k + 1:])
    for k in range(len(plan["topics"])):
        if len(plan["topics"]) > 1:
            yield dict(plan, topics=plan["topics"][:k] + plan["topics"][k + 1:])
    for k in range(len(plan["pairs"])):
        yield dict(plan, pairs=plan["pairs"][:k] + plan["pairs"][k + 1:])
    for o in jtlib.shrink_ops(plan["ops"]):
        yield dict(plan, ops=o)
    if plan["ev"]:
        yield dict(plan, ev=[])
    if plan["n"] > 1:
        yield dict(plan, n=1)
    for s in nets.shrink_spec(plan["spec"], keep={i for p in plan["pairs"] for i in p} | set(plan["given"])):
        yield dict(plan, spec=s)
