"""C11: concurrent queries are safe and change nothing."""
import copy
import json

from .. import nets
from ..core import blame
from ..trace import Scheduler, make_schedule
from . import jtlib, samplib
from .rehearse import measure

PROP = "C11"
NOBODY = [987, 100000]
ALTERED = "the question was altered"

BBN_Q = ["parents", "children", "ordered", "neighbors", "exists", "n2i", "i2n", "dict", "dne", "nx", "str", "nodes", "edges", "node", "path", "restore"]
JT_Q = ["posteriors", "potential", "bbn_node", "by_name", "nodes", "cliques", "sepsets", "dict", "neighbors", "edges", "flat", "str", "families", "with_parents", "restore"]
UG_Q = ["neighbors", "exists", "nodes", "edges", "node", "str"]
PDAG_Q = ["parents", "out", "neighbors", "exists", "directed", "nodes", "edges", "node", "str", "path"]
DAG_Q = ["parents", "children", "neighbors", "exists", "nodes", "edges", "node", "str", "n2i", "i2n", "nx", "path"]
CG_Q = ["paths", "confounders", "minimal", "mediators", "active"]


def rand_query(rng, plan):
    obj = rng.pick(plan["objects"])
    ids = [n["id"] for n in plan["spec"]["nodes"]]
    anybody = ids + NOBODY
    q = {"on": obj, "a": rng.pick(anybody), "b": rng.pick(anybody)}
    if obj == "sampler":
        q.update(q=rng.choice(["samples", "samples", "new"]), ev=samplib.rand_evidence(rng, plan["spec"], 0.2, 2), n=rng.randrange(1, 4), seed=rng.randrange(1000))
    else:
        q["q"] = rng.pick({"cg": CG_Q, "bbn": BBN_Q, "jt": JT_Q, "ug": UG_Q, "dag": DAG_Q, "pdag": PDAG_Q}[obj])
        if q["q"] == "node" or (obj == "jt" and q["q"] in ("potential", "with_parents")):
            q["a"] = rng.pick(ids)
        if obj == "cg":
            q["a"], q["b"] = rng.sample(ids, 2)
            q["given"] = rng.sample([i for i in ids if i not in (q["a"], q["b"])], rng.randrange(min(3, len(ids) - 2) + 1))
    return q


def gen(rng, tier):
    spec = jtlib.rand_large(rng, ["chain", "tree", "polytree", "forest"]) if rng.chance(0.03) else nets.rand_spec(rng, max_n=6, max_card=3, max_joint=200, max_family=24)
    objects = rng.weighted([(["bbn"], 4), (["bbn", "jt"], 3), (["jt"], 3), (["bbn", "jt", "sampler"], 3), (["ug"], 2), (["dag"], 2), (["pdag"], 2),
                            (["sampler"], 2), (["cg"] if len(spec["nodes"]) > 1 else ["bbn"], 1)])
    k = rng.choice([2, 2, 3, 4])
    plan = {"spec": spec, "salt": rng.randrange(1, 2 ** 31), "objects": objects,
            "ev": jtlib.rand_ops(rng, spec, rng.choice([0, 1, 2]), queries=False)}
    plan["how"] = rng.choice(["apply", "apply", "copy", "serde", "reapply"]) if "jt" in objects else "apply"
    plan["undirected"] = [rng.chance(0.4) for _ in spec["edges"]]
    plan["callers"] = [[rand_query(rng, plan) for _ in range(rng.randrange(1, 7))] for _ in range(k)]

    def body(step):
        w = World(plan)
        for c in plan["callers"]:
            for q in c:
                step(lambda: w.ask(q))
    opcodes = rng.chance(0.45)
    total = sum(measure(plan["salt"], body)) * (7 if opcodes else 1)
    switches, period = make_schedule(rng, total, k)
    plan["threads"] = {"switches": switches, "period": period, "opcodes": opcodes}
    return plan


def canon(x):
    from enum import Enum
    t = type(x).__name__
    if isinstance(x, float):
        return round(float(x), 9) + 0.0
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, Enum):
        return str(x)
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((canon(e) for e in x), key=repr)
    if isinstance(x, dict):
        return ["dict"] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)) or t in ("dict_values", "dict_keys", "ndarray"):
        return [canon(e) for e in x]
    if hasattr(x, "key"):
        return f"edge {x.key}"
    if hasattr(x, "id"):
        return f"node {x.id}"
    if t == "Potential":
        return sorted([e.get_kv()[0], round(float(e.value), 9) + 0.0] for e in x.entries)
    if t in ("DiGraph", "Graph"):
        return [sorted(x.nodes), sorted(x.edges)]
    if t.startswith("int") or t.startswith("float"):
        return canon(x.item())
    return str(x)


def spent(x):
    """The answer, which afterwards belongs to the caller, who may do with it what he likes."""
    out = canon(x)
    for m in x if isinstance(x, list) else list(x.values()):
        if isinstance(m, dict):
            m.clear()
    x.clear()
    return out


class World:
    def __init__(self, plan):
        from pybbn.graph.dag import Bbn, Dag
        from pybbn.graph.edge import Edge, EdgeType
        from pybbn.graph.graph import Ug
        from pybbn.graph.jointree import JoinTree
        from pybbn.graph.node import BbnNode
        from pybbn.graph.pdag import Pdag
        from pybbn.graph.variable import Variable
        from pybbn.pptc.inferencecontroller import InferenceController
        from pybbn.sampling.sampling import LogicSampler
        self.plan = plan
        spec = self.spec = plan["spec"]
        self.bbn = nets.build(spec)
        self.state = {}
        objs = plan["objects"]
        self.obj = {"bbn": self.bbn}
        if "jt" in objs:
            self.jt = InferenceController.apply(self.bbn)
            for op in plan["ev"]:
                jtlib.check_op_fits(spec, op)
                jtlib.prepare(self.jt, spec, op)()
                self.state = jtlib.model_apply(spec, self.state, op)
            how = plan.get("how", "apply")
            if how == "copy":
                self.jt = copy.deepcopy(self.jt)
            elif how == "serde":
                d = json.loads(json.dumps(JoinTree.to_dict(self.jt, self.bbn)))
                self.jt = InferenceController.apply_from_serde(JoinTree.from_dict(d))
                self.state = {}
            elif how == "reapply":
                self.jt = InferenceController.reapply(self.jt, {})
                self.state = {}
            self.obj["jt"] = self.jt
            self.saved_tree = json.loads(json.dumps(JoinTree.to_dict(self.jt, self.bbn)))
        self.saved = json.loads(json.dumps(Bbn.to_dict(self.bbn)))
        if "cg" in objs:
            from pybbn.causality.do import get_graph
            import networkx as nx
            d = nx.DiGraph()
            d.add_nodes_from([n["id"] for n in spec["nodes"]])
            d.add_edges_from([tuple(e) for e in spec["edges"]])
            self.obj["cg"] = get_graph(d)
        if "sampler" in objs:
            self.sampler = LogicSampler(self.bbn)
        for name, cls in (("ug", Ug), ("dag", Dag), ("pdag", Pdag)):
            if name in objs:
                g = cls()
                ns = {n["id"]: BbnNode(Variable(n["id"], n["name"], list(n["values"])), []) for n in spec["nodes"]}
                for n in ns.values():
                    g.add_node(n)
                for k, (a, b) in enumerate(spec["edges"]):
                    und = name == "ug" or (name == "pdag" and plan["undirected"][k % max(1, len(plan["undirected"]))])
                    g.add_edge(Edge(ns[a], ns[b], EdgeType.UNDIRECTED if und else EdgeType.DIRECTED))
                self.obj[name] = g

    def ask(self, q):
        from pybbn.graph.dag import Bbn
        from pybbn.graph.jointree import JoinTree
        from pybbn.sampling.sampling import LogicSampler
        on, what, a, b = q["on"], q["q"], q["a"], q["b"]
        if on == "sampler":
            samplib.like(self.spec, q["ev"])
            s = LogicSampler(self.bbn) if what == "new" else self.sampler
            return spent(s.get_samples(evidence={i: v for i, v in q["ev"]}, n_samples=q["n"], seed=q["seed"]))
        g = self.obj[on]
        if on == "cg":
            from pybbn.causality import do
            if what == "paths":
                return canon(sorted(do.get_paths(g, a, b), key=lambda p: p["path"]))
            if what == "active":
                given = set(q["given"])
                out = [[p["path"], do.is_active_path(g, p["path"], given)] for p in do.get_paths(g, a, b)]
                return canon(sorted(out)) if given == set(q["given"]) else ALTERED
            f = {"confounders": do.get_all_confounders, "minimal": do.get_minimal_confounders, "mediators": do.get_minimal_mediators}[what]
            return canon(f(g, a, b))
        if what == "path":
            from pybbn.graph import dag, pdag
            if a not in g.nodes or b not in g.nodes:
                return False
            return bool((pdag if on == "pdag" else dag).PathDetector(g, a, b).exists())
        if what == "nodes":
            return canon(list(g.get_bbn_nodes() if on == "jt" else g.get_nodes()))
        if what == "edges":
            return canon(sorted(e.key for e in g.get_edges()))
        if what == "str":
            return str(g) if on != "jt" else sorted(str(g).split("\n"))
        if on == "jt":
            spec = self.spec
            if what == "posteriors":
                return spent(g.get_posteriors())
            if what == "potential":
                return canon(g.get_bbn_potential(g.get_bbn_node(a)))
            if what == "bbn_node":
                return canon(g.get_bbn_node(a))
            if what == "by_name":
                names = {n["id"]: n["name"] for n in spec["nodes"]}
                return canon(g.get_bbn_node_by_name(names.get(a, "nobody")))
            if what == "cliques":
                return canon(sorted(c.id for c in g.get_cliques()))
            if what == "sepsets":
                return canon(sorted(c.id for c in g.get_sep_sets()))
            if what == "dict":
                return canon(JoinTree.to_dict(g, self.bbn))
            if what == "families":
                return canon(sorted([n.id, [p.id for p in ps]] for n, ps in g.get_bbn_node_and_parents().items()))
            if what == "with_parents":
                return canon(sorted(c.id for c in g.find_cliques_with_node_and_parents(a)))
            if what == "restore":
                from pybbn.pptc.inferencecontroller import InferenceController
                return spent(InferenceController.apply_from_serde(JoinTree.from_dict(self.saved_tree)).get_posteriors())
            if what == "flat":
                return canon(sorted(e.key for e in g.get_flattened_edges()))
            cl = sorted(c.id for c in g.get_cliques()) + ["nobody"]
            return canon(set(g.get_neighbors(cl[a % len(cl)])))
        if what == "parents":
            return canon(set(g.get_parents(a)))
        if what == "out":
            return canon(set(g.get_out_nodes(a)))
        if what == "children":
            return canon(set(g.get_children(a)))
        if what == "ordered":
            return canon(g.get_parents_ordered(a))
        if what == "neighbors":
            return canon(set(g.get_neighbors(a)))
        if what == "exists":
            return canon(g.edge_exists(a, b))
        if what == "directed":
            return canon(g.directed_edge_exists(a, b))
        if what == "n2i":
            return spent(g.get_n2i())
        if what == "i2n":
            return spent(g.get_i2n())
        if what == "dict":
            return canon(Bbn.to_dict(g))
        if what == "restore":
            return canon(Bbn.to_dict(Bbn.from_dict(self.saved)))
        if what == "dne":
            return Bbn.to_dne(g)
        if what == "nx":
            return canon(g.to_nx_graph())
        return canon(g.get_node(a))

    def model(self, q):
        """What the structure says, where it is plain. Returns (answer,) or None."""
        spec, a, b = self.spec, q["a"], q["b"]
        if q["on"] in ("bbn", "dag"):
            nodes = nets.spec_nodes(spec)
            pas = nodes[a]["parents"] if a in nodes else []
            chs = [i for i, n in nodes.items() if a in n["parents"]]
            if q["q"] == "parents":
                return (canon(set(pas)),)
            if q["q"] == "children":
                return (canon(set(chs)),)
            if q["q"] == "ordered":
                return (canon(sorted(pas)),)
            if q["q"] == "neighbors":
                return (canon(set(pas) | set(chs)),)
            if q["q"] == "exists":
                return (b in chs,)
            if q["q"] == "path":
                if a not in nodes or b not in nodes:
                    return (False,)
                above, more = set(), [b]
                while more:
                    i = more.pop()
                    if i not in above:
                        above.add(i)
                        more += nodes[i]["parents"]
                return (a in above,)
        if q["on"] == "ug" and q["q"] in ("neighbors", "exists"):
            near = {x for e in spec["edges"] for x in e if a in e and x != a}
            return (canon(near),) if q["q"] == "neighbors" else (b in near,)
        return None

    def views(self):
        """What the public attributes hold, contents and size, and what the object says of itself."""
        out = {}
        for name, g in self.obj.items():
            v = {}
            for attr in ("nodes", "edges", "edge_map", "neighbors", "parents", "evidences", "potentials"):
                d = getattr(g, attr, None)
                if isinstance(d, dict):
                    v[attr] = canon({k: (x if not hasattr(x, "id") else x.id) for k, x in d.items()})
            out[name] = v
            if name == "cg":
                out[name] = [canon(list(x.nodes(data=True))) + canon(list(x.edges(data=True))) for x in (g.u, g.d)]
        out["saved"] = [self.saved, getattr(self, "saved_tree", None)]
        return json.dumps(out, sort_keys=True)


def run(plan, ctx):
    w = World(plan)
    t = plan["threads"]
    expect = []
    for c in plan["callers"]:
        for q in c:
            if plan["objects"] == ["jt"] or "sampler" in plan["objects"] or "jt" in plan["objects"]:
                if not expect:
                    fresh = World(plan)
                alone = fresh.ask(q)
            else:
                alone = World(plan).ask(q)
            ctx.check(alone != ALTERED, "question altered", lambda: f"{q['on']}.{q['q']} changed the set of given nodes it was handed")
            expect.append(alone)
            m = w.model(q)
            if m is not None:
                ctx.check(m[0] == alone, "answer", lambda: f"{q['on']}.{q['q']}({q['a']}, {q['b']}) alone is {alone}, should be {m[0]}")
                if q["a"] in NOBODY:
                    ctx.count("queries about nobody")
    before = w.views()

    def caller(qs):
        return lambda: [w.ask(q) for q in qs]
    s = Scheduler(ctx, [caller(c) for c in plan["callers"]], t["switches"], t["period"], t["opcodes"])
    results, errors = s.run()
    for k, e in enumerate(errors):
        if e is not None:
            if blame(e):
                ctx.fail("failed", f"caller {k}: {type(e).__name__}: {e} (in {blame(e)})")
            raise e
    at = 0
    for k, c in enumerate(plan["callers"]):
        for j, q in enumerate(c):
            ctx.count(f"query {q['on']}")
            ctx.check(results[k][j] == expect[at], "answer",
                      lambda: f"caller {k}: {q['on']}.{q['q']}({q['a']}, {q['b']}) gave {results[k][j]}, alone {expect[at]}")
            at += 1
    after = w.views()
    ctx.check(after == before, "changed", lambda: f"querying changed the object: {before} became {after}")
    if "jt" in plan["objects"]:
        p = nets.reference(plan["spec"]).posteriors(w.state)
        if p is not None:
            bad = nets.compare_posteriors(jtlib.query(w.jt, plan["spec"]), p)
            ctx.check(bad is None, "posterior", bad or "")
    ctx.ev(json.dumps(results)[:400])
    ctx.sig.append([[(q["on"], q["q"]) for q in c] for c in plan["callers"]])


def nontrivial(ctx):
    return ctx.counts.get("fault:preemption", 0) > 0


def shrink(plan):
    t = plan["threads"]
    sw = t["switches"]
    cs = plan["callers"]
    for k in range(len(cs)):
        if len(cs[k]) > 1:
            for a in range(len(cs[k])):
                yield dict(plan, callers=cs[:k] + [cs[k][:a] + cs[k][a + 1:]] + cs[k + 1:])
        if len(cs) > 2:
            yield dict(plan, callers=cs[:k] + cs[k + 1:])
    size = len(sw) // 2
    while size >= 1:
        for a in range(0, len(sw), size):
            yield dict(plan, threads=dict(t, switches=sw[:a] + sw[a + size:]))
        size //= 2
    if plan["ev"]:
        yield dict(plan, ev=[])
    if plan.get("how") != "apply":
        yield dict(plan, how="apply")
    for s in nets.shrink_spec(plan["spec"]):
        ids = {n["id"] for n in s["nodes"]}
        if all(q["a"] in ids or q["a"] in NOBODY for c in cs for q in c):
            yield dict(plan, spec=s)
