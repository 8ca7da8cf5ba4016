"""C17: copies of graphs and networks equal their originals and then live apart."""
import copy

from .. import nets
from ..core import FAULTS, Inapplicable, Rng, is_injected
from ..trace import Scheduler, Steps, make_schedule
from . import c14
from .rehearse import measure, place

PROP = "C17"
MAX = 5         # members of a family


def gen(rng, tier):
    kind = rng.weighted([("bbn", 4), ("dag", 1), ("pdag", 1), ("ug", 1)])
    n = rng.randrange(2, 7)
    ids = rng.choice([list(range(n)), rng.sample(range(0, 30), n)])
    order = rng.shuffled(ids)
    plan = {"kind": kind, "ids": ids, "order": order, "salt": rng.randrange(1, 2 ** 31), "plain": kind != "bbn" and rng.chance(0.3)}
    ops = [{"op": "edit", "m": 0, "e": e} for e in c14.rand_ops(rng, kind, ids, order, rng.randrange(2, 12))]
    for op in ops:
        op["e"].pop("fresh", None)
    count = 1
    for _ in range(rng.randrange(3, 16)):
        m = rng.randrange(count)
        what = rng.weighted([("copy", 5), ("edit", 6), ("table", 3), ("mark", 2), ("values", 1), ("piece", 2), ("infer", 2), ("shallow", 1)])
        if what == "copy":
            if count >= MAX:
                continue
            op = {"op": "copy", "m": m}
            if rng.chance(0.25):
                op["threads"] = rng.pick(["copy", "read"])
                op["opcodes"] = rng.chance(0.3)
            else:
                op["cut"] = rng.chance(0.25)
            count += 1
        elif what == "edit":
            es = c14.rand_ops(rng, kind, ids, order, 1)
            if not es:
                continue
            es[0].pop("fresh", None)
            op = {"op": "edit", "m": m, "e": es[0], "cut": rng.chance(0.3)}
            if op["cut"] and count < MAX and rng.chance(0.5):
                op["copied"] = True      # a copy is made between the failure and the repetition
                count += 1
        elif what == "table":
            op = {"op": "table", "m": m, "id": rng.pick(ids), "how": rng.pick(["assign", "inplace"]), "seed": rng.randrange(1000)}
        elif what == "mark":
            op = {"op": "mark", "m": m, "id": rng.pick(ids), "key": rng.pick(["a", "b"]), "how": rng.pick(["assign", "append"]), "val": rng.randrange(100)}
        elif what == "values":
            op = {"op": "values", "m": m, "id": rng.pick(ids), "val": f"v{rng.randrange(100)}"}
        elif what == "piece":
            op = {"op": "piece", "m": m, "id": rng.pick(ids), "what": rng.pick(["node", "variable", "edge"]), "deep": rng.chance(0.8)}
        elif what == "infer":
            if kind != "bbn":
                continue
            op = {"op": "infer", "m": m, "seed": rng.randrange(1000)}
        else:
            op = {"op": "shallow", "m": m}
        ops.append(op)
    plan["ops"] = ops

    def body(step):
        fam = Family(plan)
        for op in ops:
            fam.do(op, lambda call: step(call))
    where = [k for k, op in enumerate(ops) if op["op"] in ("edit", "copy")]
    ns = measure(plan["salt"], body)
    # one measured step per edit or copy
    for k, n in zip(where, ns):
        op = ops[k]
        if op.pop("cut", False) and n:
            op["cuts"] = [[rng.pick(sorted(FAULTS)), place(rng, n)] for _ in range(rng.choice([1, 1, 2]))]
        if "threads" in op:
            op["switches"], op["period"] = make_schedule(rng, 2 * max(n, 1) * (7 if op["opcodes"] else 1), 2)
    for op in ops:
        op.pop("cut", None)
        if "threads" in op and "switches" not in op:
            op["switches"], op["period"] = [], 3
    return plan


class Member:
    def __init__(self, g, kind):
        self.g = g
        self.m = c14.Model(kind)
        self.facts = {}          # id -> {"values", "probs", "marks"}
        self.version = 0

    def branch(self, g):
        new = Member(g, self.m.kind)
        new.m.nodes = set(self.m.nodes)
        new.m.edges = dict(self.m.edges)
        new.facts = {i: {"values": list(f["values"]), "probs": list(f["probs"]), "marks": {k: list(v) for k, v in f["marks"].items()}}
                     for i, f in self.facts.items()}
        return new

    def edges(self):
        return sorted(c14.edge_list(self.g))


def facts_of(node, plain):
    marks = {k: list(v) for k, v in node.metadata.items() if k in ("a", "b")}
    if plain:
        return {"values": [], "probs": [], "marks": marks}
    return {"values": list(node.variable.values), "probs": [float(p) for p in node.probs], "marks": marks}


def picture(g, plain):
    """All that can be seen of a graph in whatever state an interruption left it."""
    ids = sorted(n.id for n in g.get_nodes())
    out = [type(g).__name__, [[i, sorted(facts_of(g.get_node(i), plain).items(), key=lambda x: x[0])] for i in ids], sorted(c14.edge_list(g))]
    if hasattr(g, "parents"):
        out.append(sorted((i, list(p)) for i, p in g.parents.items() if p))
    for name in ("get_neighbors", "get_parents", "get_children"):
        if hasattr(g, name):
            out.append([name, [[i, sorted(getattr(g, name)(i))] for i in ids]])
    return out


def tree_picture(jt):
    """All that can be seen of a join tree."""
    ids = sorted(n.id for n in jt.get_nodes())
    out = [[i, type(jt.get_node(i)).__name__, [n.id for n in jt.get_node(i).nodes], [list(map(float, n.probs)) for n in jt.get_node(i).nodes], jt.get_node(i).is_marked()] for i in ids]
    out.append([[i, sorted(jt.get_neighbors(i))] for i in ids])
    out.append([[a, b] for a in ids for b in ids if jt.edge_exists(a, b)])
    out.append(sorted([e.i.id, e.j.id, e.key, e.sep_set.id, [n.id for n in e.sep_set.nodes]] for e in jt.get_edges()))
    out.append(sorted([e.i.id, e.j.id] for e in jt.get_flattened_edges()))
    for e in jt.get_edges():
        out.append([e.key, [[n.id, list(map(float, n.probs))] for c in (e.i, e.j, e.sep_set.left, e.sep_set.right) for n in c.nodes]])
    out.append(sorted([n.id, [[p.id, list(map(float, p.probs))] for p in ps]] for n, ps in jt.get_bbn_node_and_parents().items()))
    out.append(sorted([i, [[sorted(e.entries.items()), e.value] for e in p.entries]] for i, p in jt.potentials.items()))
    out.append(sorted([i, v, [[sorted(e.entries.items()), e.value] for e in p.entries]] for i, m in jt.evidences.items() for v, p in m.items()))
    out.append(sorted([name, sorted(m.items())] for name, m in jt.get_posteriors().items()) if len(jt.get_cliques()) else [])
    return out


def spoil_tree(jt, rng):
    """Uses a join tree up: evidence, tables, edges and nodes."""
    from pybbn.graph.edge import JtEdge
    from pybbn.graph.jointree import EvidenceBuilder
    nodes = sorted(jt.get_bbn_nodes(), key=lambda n: n.id)
    n = rng.pick(nodes)
    jt.set_observation(EvidenceBuilder().with_node(n).with_evidence(rng.pick(list(n.variable.values)), 1.0).build())
    jt.update_bbn_cpts({n.id: [0.25] * len(n.probs)})
    n = rng.pick(nodes)
    n.add_metadata("a", [-1])
    n.variable.values[0] = "another"
    if not isinstance(n.probs, tuple):
        n.probs[0] = -1.0
    cliques = sorted(jt.get_cliques(), key=lambda c: c.id)
    for a in cliques:
        for b in cliques:
            if a.id < b.id and not jt.edge_exists(a.id, a.get_sep_set(b).id):
                jt.add_edge(JtEdge(a.get_sep_set(b)))
    for c in rng.sample(cliques, rng.randrange(len(cliques) + 1)):
        c.mark()
        c.nodes.append(nodes[0])
    for i in rng.sample(sorted(x.id for x in jt.get_nodes()), rng.randrange(1, len(jt.nodes) + 1)):
        jt.remove_node(i)


class Family:
    def __init__(self, plan):
        from pybbn.graph.dag import Bbn, Dag
        from pybbn.graph.graph import Ug
        from pybbn.graph.pdag import Pdag
        self.plan = plan
        self.plain = plan["plain"]
        self.members = [Member({"ug": Ug, "dag": Dag, "pdag": Pdag, "bbn": Bbn}[plan["kind"]](), plan["kind"])]
        self.trees = []

    def node(self, x, i):
        from pybbn.graph.node import BbnNode, Node
        from pybbn.graph.variable import Variable
        if i in x.g.nodes:
            return x.g.get_node(i)
        return Node(i) if self.plain else BbnNode(Variable(i, f"n{i}", ["t", "f"]), [0.5, 0.5])

    def edit_call(self, x, e):
        from pybbn.graph.edge import Edge, EdgeType
        g = x.g
        if e["op"] == "node":
            n = self.node(x, e["id"])
            return lambda: g.add_node(n)
        if e["op"] == "remove":
            return lambda: g.remove_node(e["id"])
        i = self.node(x, e["i"])
        j = i if e["i"] == e["j"] else self.node(x, e["j"])
        edge = Edge(i, j, EdgeType.DIRECTED if e["t"] == "d" else EdgeType.UNDIRECTED)
        return lambda: g.add_edge(edge)

    def settle(self, x, e):
        """Brings the model in step with an edit that has run to its end."""
        accepted = False
        if e["op"] == "edge":
            t = (e["i"], e["j"], "d") if e["t"] == "d" else (min(e["i"], e["j"]), max(e["i"], e["j"]), "u")
            accepted = t in c14.edge_list(x.g) and x.m.edges.get(t[:2]) != t[2]
        x.m.apply(e, accepted)
        for i in x.m.nodes:
            if i not in x.facts:
                x.facts[i] = facts_of(x.g.get_node(i), self.plain)
        for i in list(x.facts):
            if i not in x.m.nodes:
                del x.facts[i]
        x.version += 1

    def do(self, op, step=lambda call: call(), ctx=None):
        x = self.members[op["m"]]
        k = op["op"]
        if k == "edit":
            e = op["e"]
            if any(e[a] not in self.plan["ids"] for a in ("id", "i", "j") if a in e):
                raise Inapplicable("node dropped")
            twin = None
            if ctx is not None and op.get("cuts"):
                call = self.edit_call(x, e)
                for kind, at in op["cuts"]:
                    cut(ctx, call, kind, at)
                ctx.count("edits cut short")
            if op.get("copied"):
                before = picture(x.g, self.plain)
                twin = x.branch(copy.deepcopy(x.g))
                if ctx is not None:
                    ctx.count("copies of half-edited graphs")
                    ctx.check(picture(twin.g, self.plain) == before, "copy", lambda: f"the copy of a half-edited graph differs: {picture(twin.g, self.plain)} instead of {before}")
                    ctx.check(picture(x.g, self.plain) == before, "copy", "copying changed the original")
                self.members.append(twin)
            step(self.edit_call(x, e))
            self.settle(x, e)
            if twin is not None:
                self.edit_call(twin, e)()
                self.settle(twin, e)
        elif k == "copy":
            if ctx is not None:
                for kind, at in op.get("cuts", []):
                    cut(ctx, lambda: copy.deepcopy(x.g), kind, at)
                    ctx.count("copies cut short")
            if ctx is not None and op.get("threads"):
                g = x.g
                ids = self.plan["ids"]

                def look():
                    return [[sorted(g.get_neighbors(i)) for i in ids], sorted(c14.edge_list(g)), sorted(n.id for n in g.get_nodes())]
                want = look()
                s = Scheduler(ctx, [lambda: copy.deepcopy(g), (lambda: copy.deepcopy(g)) if op["threads"] == "copy" else look],
                              op["switches"], op["period"], op["opcodes"])
                results, errors = s.run()
                for e in errors:
                    if e is not None:
                        raise e
                ctx.count("copies made at the same time")
                new = results[0]
                if op["threads"] == "copy":
                    other = x.branch(results[1])
                    check_member(ctx, self, other, "the other of two copies made at once")
                    # spoil it: the first must not mind
                    for i in list(other.m.nodes):
                        other.g.remove_node(i)
                else:
                    ctx.check(results[1] == want, "copy", lambda: f"a reader saw {results[1]} instead of {want} while a copy was made")
            else:
                new = step(lambda: copy.deepcopy(x.g))
            self.members.append(x.branch(new))
        elif k == "shallow":
            c = copy.copy(x.g)
            if ctx is not None:
                ctx.check(picture(c, self.plain) == picture(x.g, self.plain), "copy", "a shallow copy differs from its original")
        elif k in ("table", "mark", "values"):
            i = op["id"]
            if i not in x.m.nodes or (self.plain and k != "mark"):
                return
            node, f = x.g.get_node(i), x.facts[i]
            x.version += 1
            if k == "table":
                row = nets.rand_row(Rng(op["seed"]), 2, "random")
                if op["how"] == "assign":
                    node.probs = list(row)
                    f["probs"] = list(row)
                elif isinstance(node.probs, list):
                    node.probs[:2] = list(row)
                    f["probs"][:2] = list(row)
            elif k == "values":
                node.variable.values[0] = op["val"]
                f["values"][0] = op["val"]
            elif op["how"] == "assign" or op["key"] not in f["marks"]:
                node.add_metadata(op["key"], [op["val"]])
                f["marks"][op["key"]] = [op["val"]]
            else:
                node.metadata[op["key"]].append(op["val"])
                f["marks"][op["key"]].append(op["val"])
        elif k == "piece":
            self.piece(x, op, ctx)
        elif k == "infer":
            self.infer(x, op, ctx)

    def piece(self, x, op, ctx):
        """A node, variable or edge copied out of the graph and changed."""
        i = op["id"]
        if i not in x.m.nodes:
            return
        node = x.g.get_node(i)
        dup = copy.deepcopy if op["deep"] else copy.copy
        if op["what"] == "edge":
            es = [e for e in x.g.get_edges() if i in (e.i.id, e.j.id)]
            if not es:
                return
            c = dup(es[0])
            if ctx is not None:
                ctx.check([c.i.id, c.j.id, c.type, c.key] == [es[0].i.id, es[0].j.id, es[0].type, es[0].key], "copy", "the copy of an edge differs")
            if op["deep"]:
                c.i.add_metadata("a", [-1])
                c.j.id = -7
            c.type = None
        elif op["what"] == "node":
            c = dup(node)
            if ctx is not None:
                ctx.check(c.id == node.id and facts_of(c, self.plain) == facts_of(node, self.plain), "copy", "the copy of a node differs")
            if op["deep"]:
                c.add_metadata("b", [-1])
                for v in c.metadata.values():
                    if isinstance(v, list):
                        v.append(-2)
                if not self.plain:
                    c.variable.values.append("extra")
                    c.probs[0] = -1.0
            c.id = -5
        elif not self.plain:
            c = dup(node.variable)
            if ctx is not None:
                ctx.check([c.id, c.name, list(c.values)] == [node.variable.id, node.variable.name, list(node.variable.values)], "copy", "the copy of a variable differs")
            if op["deep"]:
                c.values.append("extra")
            c.name = "another"
        if ctx is not None:
            ctx.count("pieces copied")

    def infer(self, x, op, ctx):
        from pybbn.pptc.inferencecontroller import InferenceController
        from .jtlib import query
        if not x.m.nodes:
            return
        rng = Rng(op["seed"])
        pas = {i: [p for (p, c), _ in x.m.edges.items() if c == i] for i in x.m.nodes}
        if any(len(set(f["values"])) < 2 for f in x.facts.values()):
            return
        for i in sorted(x.m.nodes):
            rows = 2 ** len(pas[i])
            if len(x.facts[i]["probs"]) != 2 * rows:
                probs = [p for _ in range(rows) for p in nets.rand_row(rng, 2, "random")]
                x.g.get_node(i).probs = list(probs)
                x.facts[i]["probs"] = list(probs)
        for i in sorted(x.m.nodes):
            for r in range(0, len(x.facts[i]["probs"]), 2):
                if abs(sum(x.facts[i]["probs"][r:r + 2]) - 1.0) > 1e-6:
                    raise Inapplicable("table is no distribution")
        x.version += 1
        jt = InferenceController.apply(x.g)
        if ctx is None:
            return
        spec = {"nodes": [{"id": i, "name": f"n{i}", "values": list(f["values"]), "parents": pas[i], "probs": list(f["probs"])}
                          for i, f in sorted(x.facts.items())], "edges": [[a, b] for a, b in x.m.edges]}
        want = nets.reference(spec).posteriors()
        bad = nets.compare_posteriors(query(jt, None), want)
        ctx.check(bad is None, "posterior", lambda: f"inference on member {op['m']}: {bad}")
        ctx.count("inference on members")
        self.trees.append((self.copied_tree(jt, rng, ctx), want, x, x.version))

    def copied_tree(self, jt, rng, ctx):
        """A copy of the join tree is made, and either of the two is spoiled; the other is returned."""
        before = tree_picture(jt)
        kind, at = rng.pick(sorted(FAULTS)), place(rng, 400)
        if rng.chance(0.3):
            cut(ctx, lambda: copy.deepcopy(jt), kind, at)
        new = copy.deepcopy(jt)
        ctx.check(type(new) is type(jt), "copy", lambda: f"the copy of a join tree is a {type(new).__name__}")
        ctx.check(tree_picture(new) == before, "copy", lambda: f"the copy of a join tree differs: {tree_picture(new)} instead of {before}")
        ctx.check(tree_picture(jt) == before, "copy", "copying a join tree changed the original")
        # (the nodes of the first tree are the network's own, so it is never spoiled itself)
        later = copy.deepcopy(new)
        spoiled, other = rng.shuffled([new, later])
        spoil_tree(spoiled, rng)
        for t in (other, jt):
            ctx.check(tree_picture(t) == before, "copy", lambda: f"changes to a join tree show in its copy (or the other way round): {tree_picture(t)} instead of {before}")
        ctx.count("join trees copied")
        return rng.pick([jt, other])


def cut(ctx, call, kind, at):
    try:
        with Steps(ctx, at=at, kind=kind):
            call()
    except BaseException as e:
        if not is_injected(e):
            raise


def check_member(ctx, fam, x, where):
    g, m = x.g, x.m
    ctx.check(type(g) is type(fam.members[0].g), "copy", lambda: f"{where} is a {type(g).__name__}")
    c14.check_views(ctx, g, m, fam.plan["ids"], where, fam.plain)
    for i in sorted(m.nodes):
        got = facts_of(g.get_node(i), fam.plain)
        ctx.check(got == x.facts[i], "content", lambda: f"{where}: node {i} has {got}, should have {x.facts[i]}")
    for e in g.get_edges():
        for n in (e.i, e.j):
            got = facts_of(n, fam.plain)
            ctx.check(got == x.facts[n.id], "content", lambda: f"{where}: seen through an edge node {n.id} has {got}, should have {x.facts[n.id]}")


def run(plan, ctx):
    fam = Family(plan)
    for k, op in enumerate(plan["ops"]):
        ctx.step()
        if op["m"] >= len(fam.members):
            raise Inapplicable("no such member")
        n = len(fam.members)
        fam.do(op, ctx=ctx)
        ctx.count("op " + op["op"])
        if len(fam.members) > n:
            ctx.count("members made", len(fam.members) - n)
        for j, x in enumerate(fam.members):
            check_member(ctx, fam, x, f"after op {k} ({op['op']} on {op['m']}): member {j}")
    for jt, want, x, version in fam.trees:
        if x.version == version:
            from .jtlib import query
            bad = nets.compare_posteriors(query(jt, None), want)
            ctx.check(bad is None, "posterior", lambda: f"a join tree after its network's copies were used: {bad}")
            ctx.count("trees checked again")
    for j, x in enumerate(fam.members):
        ctx.ev(j, sorted(x.m.nodes), sorted(x.m.edges.items()), sorted(x.facts.items()))
    ctx.sig.append((plan["kind"], [[op["op"], op["m"], op.get("e"), op.get("id"), op.get("how")] for op in plan["ops"]]))


def nontrivial(ctx):
    return ctx.counts.get("members made", 0) > 0


def shrink(plan):
    ops = plan["ops"]
    size = len(ops) // 2
    while size >= 1:
        for a in range(0, len(ops), size):
            yield dict(plan, ops=ops[:a] + ops[a + size:])
        size //= 2
    for k, op in enumerate(ops):
        for drop in (("cuts", "copied"), ("threads",)):
            if drop[0] in op:
                yield dict(plan, ops=ops[:k] + [{a: b for a, b in op.items() if a not in drop}] + ops[k + 1:])
        if op["m"] and k:
            yield dict(plan, ops=ops[:k] + [dict(op, m=0)] + ops[k + 1:])
        if len(op.get("switches", [])) > 1:
            for c in range(len(op["switches"])):
                yield dict(plan, ops=ops[:k] + [dict(op, switches=op["switches"][:c] + op["switches"][c + 1:])] + ops[k + 1:])
    used = {op["e"][x] for op in ops if "e" in op for x in ("id", "i", "j") if x in op["e"]} | {op["id"] for op in ops if "id" in op}
    if len(plan["ids"]) > 2 and len(used) < len(plan["ids"]):
        for i in plan["ids"]:
            if i not in used:
                yield dict(plan, ids=[x for x in plan["ids"] if x != i], order=[x for x in plan["order"] if x != i])
