"""C04: a valid join tree, however the network was ordered, grown or interrupted."""
import json
import math

from .. import nets, simset
from ..core import FAULTS, Inapplicable, is_injected
from ..trace import Steps
from . import jtlib
from .rehearse import measure, place

PROP = "C04"


def rand_table(rng, k, rows):
    style = rng.pick(nets.STYLES)
    out = []
    for _ in range(rows):
        out.extend(nets.rand_row(rng, k, style))
    return out


def rand_edit(rng, spec):
    """An edit, or None. The spec is changed by apply_edit."""
    nodes = nets.spec_nodes(spec)
    ids = list(nodes)
    kind = rng.weighted([("node", 3), ("edge", 4), ("cpt", 3), ("remove", 2)])
    if kind == "node":
        i = next(x for x in rng.shuffled([0, 1, 4, 6, 14, 15, 24, 40, 41, 42, 51, 77, 102, 300, 2000, 2001, 2002]) if x not in nodes)
        k = rng.choice([2, 2, 3])
        pas = rng.sample(ids, min(len(ids), rng.randrange(0, 3)))
        rows = math.prod(len(nodes[p]["values"]) for p in pas)
        vals = nets.rand_values(rng, k)
        return {"edit": "node", "node": {"id": i, "name": f"new{i}", "values": vals, "parents": pas, "probs": rand_table(rng, k, rows)},
                "implicit": rng.chance(0.4)}
    if kind == "edge":
        desc = descendants(spec)
        pairs = [(a, b) for a in ids for b in ids if a != b and a not in desc[b] and a not in nodes[b]["parents"]
                 and len(nodes[b]["parents"]) < 3]
        if not pairs:
            return None
        a, b = rng.pick(sorted(pairs))
        rows = math.prod(len(nodes[p]["values"]) for p in nodes[b]["parents"] + [a])
        if rows * len(nodes[b]["values"]) > 96:
            return None
        return {"edit": "edge", "pa": a, "ch": b, "probs": rand_table(rng, len(nodes[b]["values"]), rows)}
    if kind == "cpt":
        n = nodes[rng.pick(ids)]
        k = len(n["values"])
        return {"edit": "cpt", "id": n["id"], "probs": rand_table(rng, k, len(n["probs"]) // k)}
    leaves = [i for i in ids if not any(i in n["parents"] for n in nodes.values())]
    if len(ids) < 2 or not leaves:
        return None
    return {"edit": "remove", "id": rng.pick(sorted(leaves))}


def descendants(spec):
    nodes = nets.spec_nodes(spec)
    out = {i: set() for i in nodes}
    for i in reversed(nets.topo(spec)):
        for p in nodes[i]["parents"]:
            out[p] |= {i} | out[i]
    return out


def edit_spec(spec, e):
    nodes = list(spec["nodes"])
    edges = list(spec["edges"])
    ids = {n["id"] for n in nodes}
    if e["edit"] == "node":
        if not set(e["node"]["parents"]) <= ids or e["node"]["id"] in ids:
            raise Inapplicable("parents dropped")
        cards = {n["id"]: len(n["values"]) for n in nodes}
        if len(e["node"]["probs"]) != math.prod(cards[p] for p in e["node"]["parents"]) * len(e["node"]["values"]):
            raise Inapplicable("table does not fit")
        nodes.append(e["node"])
        edges += [[p, e["node"]["id"]] for p in e["node"]["parents"]]
    elif e["edit"] == "edge":
        if not {e["pa"], e["ch"]} <= ids:
            raise Inapplicable("nodes dropped")
        cards = {n["id"]: len(n["values"]) for n in nodes}
        for k, n in enumerate(nodes):
            if n["id"] == e["ch"]:
                pas = n["parents"] + [e["pa"]]
                if e["pa"] in n["parents"] or len(e["probs"]) != math.prod(cards[p] for p in pas) * cards[e["ch"]]:
                    raise Inapplicable("table does not fit")
                nodes[k] = dict(n, parents=pas, probs=e["probs"])
        edges.append([e["pa"], e["ch"]])
    elif e["edit"] == "cpt":
        if e["id"] not in ids:
            raise Inapplicable("node dropped")
        for k, n in enumerate(nodes):
            if n["id"] == e["id"]:
                if len(e["probs"]) != len(n["probs"]):
                    raise Inapplicable("table does not fit")
                nodes[k] = dict(n, probs=e["probs"])
    else:
        if e["id"] not in ids or any(e["id"] in n["parents"] for n in nodes):
            raise Inapplicable("not a leaf")
        nodes = [n for n in nodes if n["id"] != e["id"]]
        edges = [x for x in edges if e["id"] not in x]
    out = {"nodes": nodes, "edges": edges}
    if any(i in descendants(out)[i] for i in [n["id"] for n in nodes]):
        raise Inapplicable("cycle")
    return out


def edit_bbn(bbn, e):
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    if e["edit"] == "node":
        n = e["node"]
        node = BbnNode(Variable(n["id"], n["name"], list(n["values"])), list(n["probs"]))
        if not e["implicit"] or not n["parents"]:
            bbn.add_node(node)
        for p in n["parents"]:
            bbn.add_edge(Edge(bbn.get_node(p), node, EdgeType.DIRECTED))
    elif e["edit"] == "edge":
        bbn.get_node(e["ch"]).probs = list(e["probs"])
        bbn.add_edge(Edge(bbn.get_node(e["pa"]), bbn.get_node(e["ch"]), EdgeType.DIRECTED))
    elif e["edit"] == "cpt":
        bbn.get_node(e["id"]).probs = list(e["probs"])
    else:
        bbn.remove_node(e["id"])


def gen(rng, tier):
    big = rng.chance(0.06)
    if big:
        spec = nets.rand_spec(rng, n=rng.randrange(15, 36), structures=["chain", "tree", "polytree", "forest", "islands", "layers"],
                              max_card=2, max_joint=10 ** 12, max_family=16, ids=rng.shuffled(range(40)))
    elif rng.chance(0.012):
        # no cheap elimination: wide cliques, many separators
        big = True
        kind = rng.pick(["grid", "pairs", "pairs"])
        spec = nets.rand_spec(rng, n=rng.randrange(20, 36) if kind == "grid" else rng.choice([rng.randrange(28, 50), 48]), structures=[kind],
                              max_card=2, max_joint=10 ** 18, max_family=16, ids=rng.shuffled(range(60)))
    elif rng.chance(0.03):
        # many parents, large cliques
        n = rng.randrange(7, 10)
        spec = nets.rand_spec(rng, n=n, max_pa=n, max_family=512, cards=[2] * n, structures=["starin", "starin", "dag", "starout", "loop", "dense"])
    else:
        spec = nets.rand_spec(rng, max_n=11, max_pa=rng.choice([2, 3, 4]), max_joint=1500)
    salt = rng.randrange(1, 2 ** 31)
    stages = []
    cur = spec
    for s in range(rng.choice([1, 1, 2, 3, 4]) if not big else rng.choice([1, 2])):
        edits = []
        if s:
            for _ in range(rng.randrange(1, 4)):
                e = rand_edit(rng, cur)
                if e is not None:
                    new = edit_spec(cur, e)
                    if not big and math.prod(len(n["values"]) for n in new["nodes"]) > 4000:
                        continue
                    edits.append(e)
                    cur = new
        st = {"edits": edits, "salt": rng.randrange(1, 2 ** 31), "ev": [jtlib.rand_ev(rng, cur) for _ in range(rng.choice([1, 1, 2]))]}
        stages.append(st)
    if rng.chance(0.55):
        def body(step):
            from pybbn.pptc.inferencecontroller import InferenceController
            bbn = nets.build(spec)
            for st in stages:
                for e in st["edits"]:
                    edit_bbn(bbn, e)
                step(lambda: InferenceController.apply(bbn))
        ns = measure(salt, body)
        for st, n in zip(stages, ns):
            if rng.chance(0.7):
                st["cuts"] = [[rng.pick(sorted(FAULTS)), place(rng, n)] for _ in range(rng.choice([1, 1, 2]))]
    return {"spec": spec, "salt": salt, "implicit": rng.chance(0.3), "stages": stages, "big": big,
            "lookalikes": jtlib.rand_lookalikes(rng, spec, 0.1) if not big else []}


def validate(ctx, jt, spec):
    nodes = nets.spec_nodes(spec)
    cliques = list(jt.get_cliques())
    sets = {}
    for c in cliques:
        ids = [n.id for n in c.nodes]
        ctx.check(len(set(ids)) == len(ids), "clique", lambda: f"clique with repeated nodes {ids}")
        ctx.check(set(ids) == set(c.get_node_ids()), "clique", lambda: f"clique of nodes {ids} says {sorted(c.get_node_ids())}")
        sets[c.id] = frozenset(ids)
    ctx.check(len(sets) == len(cliques), "clique", "two cliques with one id")
    got = set().union(*sets.values()) if sets else set()
    ctx.check(got == set(nodes), "coverage", lambda: f"cliques hold {sorted(got)}, the network {sorted(nodes)}")
    for i, n in nodes.items():
        fam = {i} | set(n["parents"])
        ctx.check(any(fam <= s for s in sets.values()), "family",
                  lambda: f"no clique holds {i} and its parents {n['parents']}: {sorted(map(sorted, sets.values()))}")
    cl = list(sets.values())
    for a in range(len(cl)):
        for b in range(len(cl)):
            if a != b:
                ctx.check(not cl[a] <= cl[b], "maximality", lambda: f"clique {sorted(cl[a])} lies within {sorted(cl[b])}")
    edges = []
    for s in jt.get_sep_sets():
        l, r = frozenset(n.id for n in s.left.nodes), frozenset(n.id for n in s.right.nodes)
        ctx.check(s.left.id in sets and s.right.id in sets, "sepset", lambda: f"separator joins unknown cliques {sorted(l)} {sorted(r)}")
        sep = [n.id for n in s.nodes]
        ctx.check(len(sep) == len(set(sep)) and set(sep) == l & r and l & r, "sepset",
                  lambda: f"separator {sep} between {sorted(l)} and {sorted(r)}")
        near = set(jt.get_neighbors(s.id))
        ctx.check(near == {s.left.id, s.right.id}, "sepset", lambda: f"separator {s.id} has the neighbours {sorted(near)}")
        edges.append((s.left.id, s.right.id, frozenset(sep)))
    ctx.check(len(jt.get_edges()) == len(edges), "sepset", lambda: f"{len(jt.get_edges())} edges but {len(edges)} separators")

    def parts(keys, links):
        root = {k: k for k in keys}

        def find(k):
            while root[k] != k:
                k = root[k]
            return k
        acyclic = True
        for a, b in links:
            a, b = find(a), find(b)
            if a == b:
                acyclic = False
            root[a] = b
        return len({find(k) for k in keys}), acyclic

    comps, _ = parts(nodes, [(p, i) for i, n in nodes.items() for p in n["parents"]])
    trees, acyclic = parts(sets, [(a, b) for a, b, _ in edges])
    ctx.check(acyclic, "tree", "the cliques form a cycle")
    ctx.check(trees == comps, "tree", lambda: f"{trees} trees for {comps} components")
    for i in nodes:
        k, _ = parts([c for c in sets if i in sets[c]], [(a, b) for a, b, s in edges if i in s])
        ctx.check(k == 1, "running intersection", lambda: f"the cliques holding {i} are not connected")
    if comps > 1:
        ctx.count("forests")
    if len(sets) > 1:
        ctx.count("several cliques")
    if any(len(s) > 1 + max(len(n["parents"]) for n in nodes.values()) for s in sets.values()):
        ctx.count("fill-in")
    return sets


def run(plan, ctx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = plan["spec"]
    others = jtlib.Bystanders(ctx, plan["lookalikes"], ("tree",))
    bbn = nets.build(spec, plan["implicit"])
    for k, st in enumerate(plan["stages"]):
        simset.reset(st["salt"])
        for e in st["edits"]:
            spec = edit_spec(spec, e)
            edit_bbn(bbn, e)
            ctx.count("edit " + e["edit"])
            ctx.step()
        for kind, at in st.get("cuts", []):
            try:
                with Steps(ctx, at=at, kind=kind):
                    InferenceController.apply(bbn)
            except BaseException as e:
                if not is_injected(e):
                    raise
        jt = InferenceController.apply(bbn)
        ctx.step()
        sets = validate(ctx, jt, spec)
        ctx.ev("stage", k, json.dumps(sorted(map(sorted, sets.values()))))
        nodes = nets.spec_nodes(spec)

        def check(like, what):
            got = jtlib.query(jt, spec)
            if plan["big"]:
                ctx.check(set(got) == {n["name"] for n in spec["nodes"]}, "posterior", "variables missing")
                some = sorted(nodes)[::5]
                want = {nodes[i]["name"]: nets.marginal(spec, i, like) for i in some}
                if None in want.values():
                    return
                got = {n: got[n] for n in want}
            else:
                want = nets.reference(spec).posteriors(like)
                if want is None:
                    return
            bad = nets.compare_posteriors(got, want)
            if bad:
                ctx.fail("posterior", f"{what} in stage {k}: {bad}")
        check({}, "prior")
        state = {}
        for e in st["ev"]:
            if e["id"] not in nodes:
                continue
            op = {"op": "update", "ev": [e]}
            jtlib.prepare(jt, spec, op)()
            state = jtlib.model_apply(spec, state, op)
            check(state, f"posterior given {state}")
        ctx.sig.append((jtlib.shape(spec), sorted(map(sorted, sets.values()))))
    others.judge()
    ctx.count("fault:message reordering (seeded visiting order)")


def nontrivial(ctx):
    return "several cliques" in ctx.counts


def shrink(plan):
    yield from jtlib.fewer_lookalikes(plan)
    sts = plan["stages"]
    for k in range(len(sts)):
        if len(sts) > 1:
            if k + 1 < len(sts):
                nxt = dict(sts[k + 1], edits=sts[k]["edits"] + sts[k + 1]["edits"])
                yield dict(plan, stages=sts[:k] + [nxt] + sts[k + 2:])
            else:
                yield dict(plan, stages=sts[:k])
        if sts[k].get("cuts"):
            yield dict(plan, stages=sts[:k] + [dict(sts[k], cuts=sts[k]["cuts"][1:])] + sts[k + 1:])
        for e in range(len(sts[k]["edits"])):
            yield dict(plan, stages=sts[:k] + [dict(sts[k], edits=sts[k]["edits"][:e] + sts[k]["edits"][e + 1:])] + sts[k + 1:])
        if sts[k]["ev"]:
            yield dict(plan, stages=sts[:k] + [dict(sts[k], ev=sts[k]["ev"][1:])] + sts[k + 1:])
        if sts[k]["salt"] != 1:
            yield dict(plan, stages=sts[:k] + [dict(sts[k], salt=1)] + sts[k + 1:])
    for s in nets.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    if plan["implicit"]:
        yield dict(plan, implicit=False)
