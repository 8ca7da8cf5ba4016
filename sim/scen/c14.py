"""C14: building and editing graphs converges under repeats and interruptions."""
from ..core import FAULTS, Inapplicable, is_injected
from ..trace import Steps
from .rehearse import measure, place

PROP = "C14"
KINDS = ["ug", "dag", "pdag", "bbn"]


def rand_ops(rng, kind, ids, order, n):
    """Edits of a graph over these nodes; sometimes (`along`) only edges that close no cycle."""
    along = kind != "ug" and rng.chance(0.3)
    ops = []
    seen = []
    mode = rng.choice(["grow", "churn", "mixed"])
    for _ in range(n):
        w = {"grow": (2, 12, 1), "churn": (3, 8, 5), "mixed": (2, 8, 2)}[mode]
        what = rng.weighted([("node", w[0]), ("edge", w[1]), ("remove", w[2])])
        if what == "node":
            op = {"op": "node", "id": rng.pick(ids)}
        elif what == "remove":
            op = {"op": "remove", "id": rng.pick(ids)}
        else:
            if seen and rng.chance(0.3):
                i, j, t = rng.pick(seen)
                if rng.chance(0.4):
                    i, j = j, i
                if kind != "ug" and rng.chance(0.15):
                    t = "u" if t == "d" else "d"
            else:
                i, j = rng.pick(ids), rng.pick(ids)
                t = {"ug": "u", "dag": "d" if rng.chance(0.95) else "u", "bbn": "d" if rng.chance(0.98) else "u", "pdag": rng.choice("du")}[kind]
            if along:
                if i == j:
                    continue
                i, j = sorted((i, j), key=order.index)
            seen.append((i, j, t))
            op = {"op": "edge", "i": i, "j": j, "t": t}
        if rng.chance(0.1):
            op["fresh"] = True
        ops.append(op)
    return ops


def long_ops(rng, order):
    """A long chain laid in any order, with shortcuts, then edges that would close a cycle; removals and repeats."""
    n = len(order)
    arcs = [(k, k + 1) for k in range(n - 1)]
    if rng.chance(0.3):
        arcs.remove(rng.pick(arcs[1:]))
    for _ in range(rng.randrange(0, 5)):
        a, b = sorted(rng.sample(range(n), 2))
        arcs.append((a, b))
    if rng.chance(0.6):
        arcs = rng.shuffled(arcs)
    for _ in range(rng.randrange(1, 6)):
        a, b = sorted(rng.sample(range(n), 2)) if rng.chance(0.5) else (rng.randrange(0, 3), n - 1 - rng.randrange(0, 3))
        arcs.insert(len(arcs) - (0 if rng.chance(0.7) else rng.randrange(0, len(arcs))), (b, a))
    ops = [{"op": "edge", "i": order[a], "j": order[b], "t": "d"} for a, b in arcs]
    for _ in range(rng.randrange(0, 3)):
        ops.insert(rng.randrange(len(ops) + 1), {"op": "remove", "id": rng.pick(order)} if rng.chance(0.6) else dict(rng.pick(ops)))
    return ops


def gen(rng, tier):
    kind = rng.pick(KINDS)
    n = rng.choice([2, 3, 4, 4, 5, 6, 7])
    long = kind != "ug" and rng.chance(0.1)
    huge = long and rng.chance(0.04)
    if long:
        n = rng.randrange(8, 26) if not huge else rng.randrange(60, 400)
    ids = rng.choice([list(range(n)), rng.sample(range(0, max(30, n)), n), rng.sample([1, 11, 111, 2, 22, 12, 21, 10, 0], min(n, 9))])
    if len(ids) < n:
        ids = rng.sample(range(n), n)
    order = rng.shuffled(ids)
    plan = {"kind": kind, "ids": ids, "order": order, "salt": rng.randrange(1, 2 ** 31), "plain": rng.chance(0.3)}
    plan["ops"] = long_ops(rng, order) if long else rand_ops(rng, kind, ids, order, rng.randrange(2, 40))
    if huge:
        plan["huge"] = True
        return plan
    p = rng.choice([0.0, 0.15, 0.5, 0.9])
    cuts = [rng.chance(p) for _ in plan["ops"]]

    def body(step):
        g = Editor(plan)
        for op in plan["ops"]:
            step(g.call(op))
    ns = measure(plan["salt"], body)
    for op, n, c in zip(plan["ops"], ns, cuts):
        if c and n:
            op["cuts"] = [[rng.pick(sorted(FAULTS)), place(rng, n)] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if rng.chance(0.2):
                op["later"] = rng.randrange(1, 5)
    return plan


class Editor:
    def __init__(self, plan):
        from pybbn.graph.dag import Bbn, Dag
        from pybbn.graph.graph import Ug
        from pybbn.graph.pdag import Pdag
        self.plan = plan
        self.g = {"ug": Ug, "dag": Dag, "pdag": Pdag, "bbn": Bbn}[plan["kind"]]()
        self.made = {}

    def node(self, i, fresh):
        from pybbn.graph.node import BbnNode, Node
        from pybbn.graph.variable import Variable
        if fresh or i not in self.made:
            self.made[i] = Node(i) if self.plan["plain"] else BbnNode(Variable(i, f"n{i}", ["t", "f"]), [0.5, 0.5])
        return self.made[i]

    def call(self, op):
        from pybbn.graph.edge import Edge, EdgeType
        g, fresh = self.g, op.get("fresh", False)
        if op["op"] == "node":
            n = self.node(op["id"], fresh)
            return lambda: g.add_node(n)
        if op["op"] == "remove":
            return lambda: g.remove_node(op["id"])
        e = Edge(self.node(op["i"], fresh), self.node(op["j"], fresh), EdgeType.DIRECTED if op["t"] == "d" else EdgeType.UNDIRECTED)
        return lambda: g.add_edge(e)


class Model:
    """nodes, and edges in the order they were accepted: {(i, j): type} (undirected: i < j)."""

    def __init__(self, kind):
        self.kind = kind
        self.nodes = set()
        self.edges = {}

    def adjacent(self, i, j):
        return (i, j) in self.edges or (j, i) in self.edges

    def reaches(self, a, b):
        succ = {}
        for (p, q), t in self.edges.items():
            if t == "d":
                succ.setdefault(p, []).append(q)
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(succ.get(x, ()))
        return False

    def must(self, i, j, t):
        """True: has to be accepted; False: refused; None: the graph decides."""
        if i == j:
            return False
        if self.kind == "ug":
            return not self.adjacent(i, j)
        if self.kind in ("dag", "bbn"):
            return t == "d" and not self.adjacent(i, j) and not self.reaches(j, i)
        if self.adjacent(i, j) or (t == "d" and self.reaches(j, i)):
            return False
        return None

    def apply(self, op, accepted):
        if op["op"] == "node":
            self.nodes.add(op["id"])
        elif op["op"] == "remove":
            self.nodes.discard(op["id"])
            self.edges = {e: t for e, t in self.edges.items() if op["id"] not in e}
        else:
            i, j, t = op["i"], op["j"], op["t"]
            self.nodes |= {i, j}
            if accepted:
                self.edges[(i, j) if t == "d" else (min(i, j), max(i, j))] = t


def edge_list(g):
    from pybbn.graph.edge import EdgeType
    out = []
    for e in g.get_edges():
        if e.type == EdgeType.DIRECTED:
            out.append((e.i.id, e.j.id, "d"))
        else:
            out.append((min(e.i.id, e.j.id), max(e.i.id, e.j.id), "u"))
    return out


def check_views(ctx, g, m, ids, where, plain=False):
    def same(got, want, what):
        ctx.check(got == want, "view", lambda: f"{where}: {what} is {got}, should be {want}")
    same(sorted(n.id for n in g.get_nodes()), sorted(m.nodes), "the list of nodes")
    same(sorted(edge_list(g)), sorted((i, j, t) for (i, j), t in m.edges.items()), "the list of edges")
    for i in sorted(m.nodes):
        same(g.get_node(i).id, i, f"the node {i}")
    pas = {i: [p for (p, c), t in m.edges.items() if t == "d" and c == i] for i in ids}
    chs = {i: [c for (p, c), t in m.edges.items() if t == "d" and p == i] for i in ids}
    und = {i: {x for e, t in m.edges.items() if t == "u" and i in e for x in e if x != i} for i in ids}
    for i in ids:
        near = set(pas[i]) | set(chs[i]) | und[i]
        same(sorted(g.get_neighbors(i)), sorted(near), f"the neighbours of {i}")
        if m.kind in ("dag", "bbn"):
            same(sorted(g.get_parents(i)), sorted(pas[i]), f"the parents of {i}")
            same(sorted(g.get_children(i)), sorted(chs[i]), f"the children of {i}")
        if m.kind == "pdag":
            # undirected neighbours are reported as parents (a known finding, probed separately)
            for what, got, least, most in (("parents", g.get_parents(i), set(pas[i]), near - set(chs[i])),
                                           ("out nodes", g.get_out_nodes(i), set(chs[i]), near - set(pas[i]))):
                ctx.check(len(set(got)) == len(got) and least <= set(got) <= most, "view",
                          lambda: f"{where}: the {what} of {i} are {got}, should be {sorted(least)}")
        if m.kind == "bbn":
            same(list(g.parents.get(i, [])), pas[i], f"the ordered parents of {i}")
            same(list(g.get_parents_ordered(i)), sorted(pas[i]), f"the sorted parents of {i}")
    for i in ids:
        for j in ids:
            d = m.edges.get((i, j)) == "d"
            if m.kind in ("dag", "bbn"):
                want = d
            else:
                want = m.adjacent(i, j)
            same(bool(g.edge_exists(i, j)), want, f"edge_exists({i}, {j})")
            if m.kind == "pdag":
                same(bool(g.directed_edge_exists(i, j)), d, f"directed_edge_exists({i}, {j})")
    if m.kind == "bbn" and not plain:
        d = type(g).to_dict(g)
        same({i: [e["pa"] for e in d["edges"] if e["ch"] == i] for i in ids}, pas, "the serialised parents")
        same(sorted(d["nodes"]), sorted(m.nodes), "the serialised nodes")
        same(g.get_i2n(), {i: f"n{i}" for i in m.nodes}, "the names by id")
        same(g.get_n2i(), {f"n{i}": i for i in m.nodes}, "the ids by name")


def probe(ctx, sig, holds, text):
    """A listed finding is reported; one that is not listed is a violation."""
    if holds:
        return
    if sig in ctx.listed:
        ctx.known.append((sig, ctx.listed[sig]))
    else:
        ctx.fail(sig, text)


def probes(plan, ctx):
    if plan["kind"] == "pdag":
        a, b = plan["ids"][:2]
        e = Editor(plan)
        e.call({"op": "edge", "i": a, "j": b, "t": "u"})()
        probe(ctx, "pdag-undirected-parents", e.g.get_parents(a) == [] and e.g.get_out_nodes(a) == [b],
              "a Pdag reports an undirected neighbour as a parent")


def touched(op):
    return {op[k] for k in ("id", "i", "j") if k in op}


def run(plan, ctx):
    probes(plan, ctx)
    e, m, ids = Editor(plan), Model(plan["kind"]), plan["ids"]
    for op in plan["ops"]:
        if any(op[k] not in ids for k in ("id", "i", "j") if k in op):
            raise Inapplicable("node dropped")
    late = []                 # edits cut short that are repeated later: [edits to go, number, edit]

    def cut(k, op):
        g = e.g
        call = e.call(op)
        for kind, at in op.get("cuts", []):
            try:
                with Steps(ctx, at=at, kind=kind):
                    call()
            except BaseException as x:
                if not is_injected(x):
                    raise
                ctx.count("edits cut short")
        if "cuts" in op and plan.get("look", True):
            # between the failure and the repetition somebody looks
            g.get_nodes(), g.get_edges(), [g.get_neighbors(i) for i in ids]

    def finish(k, op):
        g = e.g
        e.call(op)()
        where = f"after edit {k} ({' '.join(str(op[x]) for x in ('op', 'id', 'i', 'j', 't') if x in op)})"
        accepted = False
        if op["op"] == "edge":
            t = (op["i"], op["j"], "d") if op["t"] == "d" else (min(op["i"], op["j"]), max(op["i"], op["j"]), "u")
            had = m.edges.get(t[:2]) == t[2]
            must = m.must(op["i"], op["j"], op["t"])
            accepted = t in edge_list(g) and not had
            ctx.check(must is None or accepted == must, "acceptance",
                      lambda: f"{where}: the edge was {'accepted' if accepted else 'refused'} with the edges {list(m.edges.items())}")
            ctx.count("edges accepted" if accepted else "edges refused")
            if must is False and not had and not m.adjacent(op["i"], op["j"]) and op["i"] != op["j"] and op["t"] == "d":
                ctx.count("cycles refused")
            if had:
                ctx.count("edges repeated")
        elif op["op"] == "remove":
            ctx.count("nodes removed" if op["id"] in m.nodes else "absent nodes removed")
        m.apply(op, accepted)
        if plan.get("huge"):
            ctx.count("edits of graphs of 60 to 400 nodes")
        elif not late:
            check_views(ctx, g, m, ids, where, plan["plain"])

    def due(op):
        """Is an edit waiting to be repeated before this one, because the time has come or they might depend on each other?"""
        for x in late:
            x[0] -= 1
        paths = op is not None and op["op"] != "node" and any(x[2]["op"] != "node" for x in late)
        # an edge that may or may not be there bears on which others are accepted, and so does the order of removals
        while late and (op is None or min(x[0] for x in late) <= 0 or paths and plan["kind"] != "ug" or any(touched(x[2]) & touched(op) for x in late)):
            x = late.pop(0)
            ctx.count("edits repeated later")
            finish(x[1], x[2])

    for k, op in enumerate(plan["ops"]):
        ctx.step()
        due(op)
        cut(k, op)
        if "cuts" in op and op.get("later"):
            late.append([op["later"], k, op])
        else:
            finish(k, op)
    due(None)
    if plan.get("huge"):
        used = [i for i in ids if i in m.nodes]
        few = used[:10] + used[-10:]
        near = {x for i in few for y in m.edges for x in y if i in y}
        ctx.check(sorted(edge_list(e.g)) == sorted((i, j, t) for (i, j), t in m.edges.items()), "view", "the list of edges is wrong in the end")
        for i in sorted(near):
            got, want = sorted(e.g.get_neighbors(i)), sorted({x for y in m.edges if i in y for x in y if x != i})
            ctx.check(got == want, "view", lambda: f"in the end the neighbours of {i} are {got}, should be {want}")
    ctx.ev(plan["kind"], sorted(m.nodes), sorted(m.edges.items()))
    ctx.sig.append((plan["kind"], ids, [[op.get(x) for x in ("op", "id", "i", "j", "t")] for op in plan["ops"]]))


def nontrivial(ctx):
    return ctx.counts.get("edges accepted", 0) > 0


def shrink(plan):
    ops = plan["ops"]
    size = len(ops) // 2
    while size >= 1:
        for a in range(0, len(ops), size):
            yield dict(plan, ops=ops[:a] + ops[a + size:])
        size //= 2
    for k, op in enumerate(ops):
        for drop in ("cuts", "fresh", "later"):
            if drop in op:
                yield dict(plan, ops=ops[:k] + [{a: b for a, b in op.items() if a != drop}] + ops[k + 1:])
        if len(op.get("cuts", [])) > 1:
            for c in range(len(op["cuts"])):
                yield dict(plan, ops=ops[:k] + [dict(op, cuts=op["cuts"][:c] + op["cuts"][c + 1:])] + ops[k + 1:])
    used = {op[x] for op in ops for x in ("id", "i", "j") if x in op}
    if len(plan["ids"]) > 3 and len(used) < len(plan["ids"]):
        for i in plan["ids"]:
            if i not in used:
                yield dict(plan, ids=[x for x in plan["ids"] if x != i], order=[x for x in plan["order"] if x != i])
