"""C10: every generated network is valid, whatever the random source returns."""
import json
import math

from .. import nets
from ..rngseam import scripted_randomness
from . import jtlib

PROP = "C10"
MAXROWS = 20000


def gen(rng, tier):
    jobs = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.weighted([(1, 1), (2, 2), (3, 3), (rng.randrange(4, 9), 8), (rng.randrange(9, 30), 2), (rng.randrange(30, 61), 1)])
        jobs.append({"type": rng.choice(["singly", "multi"]), "n": n, "max_iter": rng.choice([0, 1, 5, 10, 30, 100] if n < 30 else [0, 5, 30]),
                     "max_values": rng.choice([1, 2, 2, 3, 4, 6]), "max_alpha": rng.choice([1, 2, 10, 100]), "defaults": rng.chance(0.1)})
    p = rng.choice([0.0, 0.3, 1.0])
    return {"jobs": jobs, "rng": {"seed": rng.randrange(2 ** 32), "menu": [0.0, 1.0 - 2.0 ** -53, 0.5, 0.4999999999999999], "p": p,
                                  "ints": rng.choice(["fair", "fair", "low", "high", "ends", "same", "next"]), "hostile": rng.choice([30, 300, 3000])}}


def spec_of(bbn):
    return {"nodes": [{"id": n.id, "name": n.variable.name, "values": list(n.variable.values),
                       "parents": [int(p) for p in bbn.parents.get(n.id, [])], "probs": [float(p) for p in n.probs]} for n in bbn.get_nodes()],
            "edges": [[e.i.id, e.j.id] for e in bbn.get_edges()]}


def run(plan, ctx):
    from pybbn.generator import bbngenerator as g
    from pybbn.pptc.inferencecontroller import InferenceController
    with scripted_randomness(plan["rng"], ctx) as stream:
        for k, j in enumerate(plan["jobs"]):
            n = j["n"]
            f = g.generate_singly_bbn if j["type"] == "singly" else g.generate_multi_bbn
            mv = 2 if j["defaults"] else j["max_values"]
            # a node may get a parent per round: the tables of large networks can be too large for any computer
            rows = n * max(mv, 2) ** min(n - 1, j["max_iter"] + 1)
            stream.row_limit = stream.rows + MAXROWS if rows > MAXROWS else None
            stream.limit = stream.n + plan["rng"]["hostile"] + 400 * (j["max_iter"] + 10) + 100 * n + 40 * min(rows, MAXROWS)
            if j["defaults"]:
                graph, params = f(n)
            else:
                graph, params = f(n, max_iter=j["max_iter"], max_values=j["max_values"], max_alpha=j["max_alpha"])
            ctx.step(stream.n)
            # the structure
            nodes = sorted(int(x) for x in graph.nodes)
            ctx.check(nodes == list(range(n)), "nodes", lambda: f"nodes {nodes} instead of 0..{n - 1}")
            edges = [(int(a), int(b)) for a, b in graph.edges]
            ctx.check(len(set(edges)) == len(edges) and all(a != b for a, b in edges), "edges", lambda: f"edges {edges}")
            root = list(range(n))

            def find(x):
                while root[x] != x:
                    x = root[x]
                return x
            cycle = False
            for a, b in edges:
                a, b = find(a), find(b)
                cycle = cycle or a == b
                root[a] = b
            ctx.check(len({find(x) for x in range(n)}) == 1, "connected", lambda: f"not connected: {edges}")
            if j["type"] == "singly":
                ctx.check(not cycle, "singly connected", lambda: f"has an undirected cycle: {edges}")
            elif cycle:
                ctx.count("undirected cycles")
            left = set(range(n))
            while left:
                free = [x for x in left if not any(b == x and a in left for a, b in edges)]
                ctx.check(free, "acyclic", lambda: f"has a directed cycle: {edges}")
                left -= set(free)
            # the tables
            card = {}
            for i in range(n):
                shape = [int(s) for s in params[i]["shape"]]
                card[i] = shape[1]
                ctx.check(2 <= shape[1] <= max(2, mv), "values", lambda: f"node {i} has {shape[1]} values, {mv} permitted")
            for i in range(n):
                pas = [a for a, b in edges if b == i]
                ctx.check(sorted(int(p) for p in params[i]["parents"]) == sorted(pas), "parents", lambda: f"parents of {i}: {params[i]['parents']}, edges {edges}")
                t = params[i]["params"]
                want = math.prod(card[p] for p in pas)
                ctx.check(tuple(t.shape) == (want, card[i]) and int(params[i]["shape"][0]) == want, "table",
                          lambda: f"table of {i} has shape {t.shape} ({params[i]['shape']}) instead of {(want, card[i])}")
                for row in t:
                    ctx.check(all(x >= 0.0 for x in row) and abs(math.fsum(float(x) for x in row) - 1.0) < 1e-9, "table",
                              lambda: f"row {list(row)} of {i} is no distribution")
            d = json.loads(g.to_json(graph, params))
            ctx.check(sorted((e["pa"], e["ch"]) for e in d["edges"]) == sorted(edges), "json", "edges differ in the JSON")
            # the conversion
            bbn = g.convert_for_exact_inference(graph, params)
            spec = spec_of(bbn)
            ctx.check(sorted(x["id"] for x in spec["nodes"]) == nodes and sorted(map(tuple, spec["edges"])) == sorted(edges), "conversion",
                      lambda: f"converted to nodes {[x['id'] for x in spec['nodes']]} and edges {spec['edges']}")
            for x in spec["nodes"]:
                ctx.check(len(x["values"]) == card[x["id"]] == len(set(x["values"])), "conversion", lambda: f"{x['id']} has the values {x['values']}")
                ctx.check(sorted(x["parents"]) == sorted(a for a, b in edges if b == x["id"]), "conversion", lambda: f"{x['id']} has the parents {x['parents']}")
                c = card[x["id"]]
                got = sorted(x["probs"][r:r + c] for r in range(0, len(x["probs"]), c))
                ctx.check(got == sorted([float(p) for p in row] for row in params[x["id"]]["params"]), "conversion", lambda: f"{x['id']} has another table")
            size = math.prod(card.values())
            clique = max([card[i] * math.prod(card[a] for a, b in edges if b == i) for i in range(n)])
            ctx.ev(k, j["type"], n, sorted(edges), sorted(card.items()))
            if size <= 2000:
                jt = InferenceController.apply(bbn)
                bad = nets.compare_posteriors(jtlib.query(jt, spec), nets.reference(spec).posteriors())
                ctx.check(bad is None, "inference", bad or "")
                ctx.count("inference compared")
            elif j["type"] == "singly" and clique <= 200 and n <= 40:
                InferenceController.apply(bbn).get_posteriors()
                ctx.count("inference accepted")
            ctx.count("networks " + j["type"])
            if n == 1:
                ctx.count("single node")
            ctx.sig.append((j["type"], sorted(edges), sorted(card.items())))
        ctx.count("random draws", stream.n)


def nontrivial(ctx):
    return "networks singly" in ctx.counts or "networks multi" in ctx.counts


def shrink(plan):
    jobs = plan["jobs"]
    for k in range(len(jobs)):
        if len(jobs) > 1:
            yield dict(plan, jobs=jobs[:k] + jobs[k + 1:])
        for f, vals in (("n", [1, 2, 3, 4, jobs[k]["n"] // 2, jobs[k]["n"] - 1]), ("max_iter", [0, 1, 2, 5, jobs[k]["max_iter"] // 2]), ("max_values", [2, 3]), ("max_alpha", [1, 10])):
            for v in vals:
                if 0 <= v < jobs[k][f] and (f != "n" or v > 0):
                    yield dict(plan, jobs=jobs[:k] + [dict(jobs[k], **{f: v})] + jobs[k + 1:])
    r = plan["rng"]
    if r["ints"] != "fair":
        yield dict(plan, rng=dict(r, ints="fair"))
    if r["p"]:
        yield dict(plan, rng=dict(r, p=0.0))
    for h in (0, 5, 30):
        if h < r["hostile"]:
            yield dict(plan, rng=dict(r, hostile=h))
