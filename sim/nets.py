"""Random network specifications, their construction through the public API, and the
brute-force reference that all probabilistic oracles use (numpy only, no pybbn code)."""
import itertools
import math

import numpy as np

# A spec is plain JSON:
#  {"nodes": [{"id", "name", "values", "parents": [ids], "probs": [...]}, ...] (insertion order),
#   "edges": [[pa, ch], ...] (insertion order; per child it agrees with "parents")}


def spec_nodes(spec):
    return {n["id"]: n for n in spec["nodes"]}


def topo(spec):
    nodes = spec_nodes(spec)
    done, order = set(), []
    while len(order) < len(nodes):
        for i in sorted(nodes):
            if i not in done and all(p in done for p in nodes[i]["parents"]):
                done.add(i)
                order.append(i)
    return order


def rand_row(rng, k, style):
    if style == "uniform":
        row = [1.0] * k
    elif style == "det":
        row = [0.0] * k
        row[rng.randrange(k)] = 1.0
        return row
    elif style == "zeros":
        row = [rng.random() + 0.05 for _ in range(k)]
        for j in range(k):
            if rng.chance(0.35):
                row[j] = 0.0
        if sum(row) == 0.0:
            row[rng.randrange(k)] = 1.0
    elif style == "tiny":
        row = [rng.random() + 0.05 for _ in range(k)]
        row[rng.randrange(k)] = 10.0 ** -rng.randrange(3, 9)
    elif style == "tenths":
        cuts = sorted(rng.randrange(0, 11) for _ in range(k - 1))
        cuts = [0] + cuts + [10]
        return [(b - a) / 10 for a, b in zip(cuts, cuts[1:])]
    else:
        row = [rng.random() + 0.02 for _ in range(k)]
    s = math.fsum(row)
    return [x / s for x in row]


STYLES = ["random", "random", "random", "uniform", "zeros", "det", "tiny", "tenths"]
POSITIVE = ["random", "random", "uniform", "tiny"]

STRUCTURES = ["chain", "tree", "polytree", "starout", "starin", "dag", "dense", "forest", "islands",
              "layers", "loop"]


def rand_structure(rng, n, kind, max_pa):
    """Parents of each position 0..n-1, positions being in topological order."""
    pas = [[] for _ in range(n)]
    if kind == "chain":
        for j in range(1, n):
            pas[j] = [j - 1]
    elif kind == "tree":
        for j in range(1, n):
            pas[j] = [rng.randrange(j)]
    elif kind == "polytree":
        # undirected random tree, random orientation along the position order
        order = rng.shuffled(range(n))
        for a in range(1, n):
            u, v = order[a], order[rng.randrange(a)]
            u, v = min(u, v), max(u, v)
            if len(pas[v]) < max_pa:
                pas[v].append(u)
    elif kind == "starout":
        for j in range(1, n):
            pas[j] = [0]
    elif kind == "starin":
        k = min(max_pa, n - 1)
        pas[n - 1] = rng.shuffled(range(n - 1))[:k]
    elif kind == "dag":
        for j in range(1, n):
            k = min(j, rng.choice([0, 1, 1, 2, 2, 3]), max_pa)
            pas[j] = rng.sample(range(j), k)
    elif kind == "dense":
        for j in range(1, n):
            k = min(j, max_pa)
            pas[j] = rng.sample(range(j), k)
    elif kind == "forest":
        for j in range(1, n):
            if not rng.chance(0.35):
                pas[j] = [rng.randrange(j)]
    elif kind == "islands":
        for j in range(1, n):
            if rng.chance(0.3):
                k = min(j, rng.choice([1, 2]), max_pa)
                pas[j] = rng.sample(range(j), k)
    elif kind == "layers":
        for j in range(2, n):
            lo = max(0, j - 3)
            k = min(j - lo, max_pa, 2)
            pas[j] = rng.sample(range(lo, j), k)
    elif kind == "loop":
        for j in range(1, n - 1):
            pas[j] = [j - 1] if rng.chance(0.6) else [0]
        if n > 2:
            pas[n - 1] = [n - 2] + ([0] if n > 2 and max_pa > 1 and n - 2 != 0 else [])
    elif kind == "grid":
        w = rng.randrange(3, 6)
        for j in range(1, n):
            pas[j] = [x for x, ok in ((j - 1, j % w), (j - w, j >= w)) if ok and rng.chance(0.95)][:max_pa]
    elif kind == "pairs":
        # a common effect of every pair of causes of a graph without cheap eliminations
        a = rng.randrange(4, 7)
        pairs = [(x, a + y) for x in range(a) for y in range(a)] if rng.chance(0.7) else [(x, y) for x in range(2 * a) for y in range(x)]
        pairs = rng.shuffled(pairs) if rng.chance(0.5) else pairs
        for j in range(2 * a, n):
            pas[j] = list(pairs[(j - 2 * a) % len(pairs)])
    return [rng.shuffled(p) for p in pas]


def rand_ids(rng, n):
    scheme = rng.weighted([("natural", 3), ("shuffled", 4), ("sparse", 3), ("offset", 1), ("signed", 0.3)])
    if scheme == "natural":
        return list(range(n))
    if scheme == "shuffled":
        return rng.shuffled(range(n))
    if scheme == "offset":
        k = rng.choice([1, 5, 9, 98])
        return rng.shuffled(range(k, k + n))
    if scheme == "signed":
        return rng.sample([-1001, -12, -11, -3, -2, -1, 0, 1, 2, 3, 11, 12, 255, 256, 257, 258, 2 ** 31, 2 ** 31 + 1, 2 ** 40, 2 ** 53, 2 ** 53 + 1, 10 ** 18], min(n, 22)) + list(range(22, n))
    return rng.sample([0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21, 22, 23, 33, 99, 100, 101, 110, 112, 121, 200, 211, 1000, 1001], n)


NAME_POOL = ["a", "b", "c", "d", "e", "f", "g", "h", "x1", "x2", "x10", "x11", "rain", "Sprinkler", "grass_wet",
             "A", "B", "node", "var 1", "q", "r", "s", "t", "u", "v", "w", "y", "z", "k", "l"]
VALUE_POOLS = [["on", "off"], ["true", "false"], ["yes", "no", "maybe"], ["0", "1", "2", "3", "4", "5"],
               ["low", "mid", "high", "top"], ["v1", "v10", "v2", "v20", "v3"], ["B", "A", "D", "C"],
               ["10", "9", "100", "1"], ["state0", "state1", "state2", "state3"]]


# legal texts that break whoever glues names, values and ids together
ODD_POOLS = [["1", "11", "1,1", "1|1", "11,1"], ["a b", "a", " a", "b a"], ["", "x", "x,", ",x"], ["a=b", "a", "b", "b=a"],
             ["é", "日本", "e", "ß"], ["true", "True", "TRUE", "1"], ["on|off", "on", "off", "on,off"], ["a-b", "a", "b", "-"]]
ODD_NAMES = ["a b", "a,b", "a|b", "a-b", "0", "1", "01", "é", "a=b", "1=a", "None", "self", "A-B", "B-A"]


def rand_values(rng, k):
    if k > 6:
        return rng.shuffled(rng.pick([[str(j) for j in range(k)], [f"v{j}" for j in range(k)], [f"{5 * j}-{5 * j + 4}" for j in range(k)]]))
    pools = [p for p in VALUE_POOLS if len(p) >= k]
    p = rng.pick(pools)
    return p[:k] if rng.chance(0.5) else rng.sample(p, k)


def rand_spec(rng, n=None, max_n=8, max_pa=3, max_card=4, styles=None, structures=None, max_joint=6000,
              max_family=96, ids=None, odd=True, cards=None):
    if n is None:
        n = rng.weighted([(1, 1), (2, 3), (3, 6), (4, 8), (5, 8), (6, 7), (7, 5), (8, 4), (9, 2), (10, 2), (11, 1), (12, 1)])
        n = min(n, max_n)
    kind = rng.pick(structures or STRUCTURES)
    pas = rand_structure(rng, n, kind, max_pa)
    if cards is not None:
        max_card = max(cards)
    fixed, cards = cards, []
    card_mode = rng.weighted([("binary", 5), ("mixed", 4), ("big", 1)])
    for _ in range(n):
        if card_mode == "binary":
            cards.append(2)
        elif card_mode == "mixed":
            cards.append(rng.weighted([(2, 4), (3, 3), (4, 1)]))
        else:
            cards.append(rng.randrange(2, 7))
    cards = list(fixed) if fixed else [min(c, max_card) for c in cards]
    if not fixed and max_card >= 4 and rng.chance(0.03):
        # a variable of very many values
        cards[rng.randrange(n)] = rng.randrange(7, 17)
    while np.prod([float(c) for c in cards]) > max_joint:
        j = max(range(n), key=lambda j: (cards[j], j))
        if cards[j] == 2:
            break
        cards[j] -= 1
    for j in range(n):
        while cards[j] * np.prod([float(cards[p]) for p in pas[j]] or [1.0]) > max_family and pas[j]:
            pas[j].pop()
    ids = ids or rand_ids(rng, n)
    names = rng.sample(NAME_POOL, n) if n <= len(NAME_POOL) and rng.chance(0.5) else [f"n{i}" for i in ids]
    style_set = rng.sample(styles or STYLES, min(3, len(styles or STYLES)))
    nodes = []
    shared_vals = rng.chance(0.4)
    for j in range(n):
        vals = VALUE_POOLS[rng.pick([0, 1])] if shared_vals and cards[j] == 2 else rand_values(rng, cards[j])
        rows = 1
        for p in pas[j]:
            rows *= cards[p]
        style = rng.pick(style_set)
        probs = []
        for _ in range(rows):
            probs.extend(rand_row(rng, cards[j], style))
        nodes.append({"id": ids[j], "name": names[j], "values": list(vals), "parents": [ids[p] for p in pas[j]],
                      "probs": probs})
    if odd and rng.chance(0.12):
        make_odd(rng, nodes)
    edges = rand_edge_order(rng, nodes)
    return {"nodes": rng.shuffled(nodes) if rng.chance(0.7) else nodes, "edges": edges}


def make_odd(rng, nodes):
    """Unusual texts, in particular such that glued-together pairs `id=value` look alike."""
    by = {n["id"]: n for n in nodes}
    for n in nodes:
        if rng.chance(0.4):
            pools = [p for p in ODD_POOLS if len(p) >= len(n["values"])]
            if pools:
                n["values"] = rng.sample(rng.pick(pools), len(n["values"]))
    names = rng.sample(ODD_NAMES, len(ODD_NAMES))
    for n in nodes:
        if names and rng.chance(0.2) and names[-1] not in [m["name"] for m in nodes]:
            n["name"] = names.pop()
    for n in nodes:
        if len(n["parents"]) > 1 and rng.chance(0.6):
            k = rng.randrange(len(n["parents"]) - 1)
            p, q = sorted(n["parents"])[k:k + 2]
            t = rng.choice([f",{q}=", f",{q}=", f"|{q}=", ",", "", "-", "|"])
            by[p]["values"][:2] = ["a", f"a{t}b"]
            by[q]["values"][:2] = [f"b{t}b", "b"]
            for i in (p, q):
                by[i]["values"][2:] = [f"c{j}" for j in range(2, len(by[i]["values"]))]


def decoy(rng, spec):
    """Another network that is easily mistaken for this one."""
    kind = rng.choice(["tables", "tables", "values", "names", "order", "parents", "ids", "same"])
    nodes = [dict(n, values=list(n["values"])) for n in spec["nodes"]]
    edges = list(spec["edges"])
    if kind == "tables":
        return with_cpts(spec, rand_cpts(rng, spec, share=0.8))
    if kind == "values":
        for n in nodes:
            n["values"] = n["values"][1:] + n["values"][:1] if rng.chance(0.5) else [f"w{j}" for j in range(len(n["values"]))]
    elif kind == "names":
        names = rng.shuffled(n["name"] for n in nodes)
        for n, m in zip(nodes, names):
            n["name"] = m
    elif kind == "order":
        nodes = rng.shuffled(nodes)
        edges = rand_edge_order(rng, nodes)
    elif kind == "parents":
        # the same parents, added in another order, under the same table entries
        for n in nodes:
            if len(n["parents"]) > 1:
                n["parents"] = n["parents"][::-1]
        edges = rand_edge_order(rng, nodes)
    elif kind == "ids":
        ids = [n["id"] for n in nodes]
        m = dict(zip(ids, ids[1:] + ids[:1]))
        for n in nodes:
            n["id"] = m[n["id"]]
            n["parents"] = [m[p] for p in n["parents"]]
        edges = [[m[a], m[b]] for a, b in edges]
    return {"nodes": nodes, "edges": edges}


def rand_cpts(rng, spec, styles=None, share=0.5):
    """New tables for some of the nodes: [[id, probs], ...]."""
    out = []
    for n in spec["nodes"]:
        if rng.chance(share):
            k = len(n["values"])
            style = rng.pick(styles or STYLES)
            probs = []
            for _ in range(len(n["probs"]) // k):
                probs.extend(rand_row(rng, k, style))
            out.append([n["id"], probs])
    return out


def with_cpts(spec, cpts):
    m = {i: p for i, p in cpts or []}
    return {"nodes": [dict(n, probs=m.get(n["id"], n["probs"])) for n in spec["nodes"]], "edges": spec["edges"]}


def check_cpts_fit(spec, cpts):
    from .core import Inapplicable
    nodes = spec_nodes(spec)
    for i, p in cpts or []:
        if i not in nodes or len(p) != len(nodes[i]["probs"]):
            raise Inapplicable("table dropped")


def rand_edge_order(rng, nodes):
    """A random interleaving of the edge lists of the children (per-child order kept)."""
    queues = [[n["id"], list(n["parents"])] for n in nodes if n["parents"]]
    if rng.chance(0.3):
        return [[p, q[0]] for q in queues for p in q[1]]
    edges = []
    while queues:
        q = rng.pick(queues)
        edges.append([q[1].pop(0), q[0]])
        queues = [x for x in queues if x[1]]
    return edges


def build(spec, implicit=False):
    """Builds the network through the public API."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    nodes = {n["id"]: BbnNode(Variable(n["id"], n["name"], list(n["values"])), list(n["probs"])) for n in spec["nodes"]}
    bbn = Bbn()
    if implicit:
        # let the edges add the nodes; the isolated ones follow
        for pa, ch in spec["edges"]:
            bbn.add_edge(Edge(nodes[pa], nodes[ch], EdgeType.DIRECTED))
        for n in spec["nodes"]:
            bbn.add_node(nodes[n["id"]])
    else:
        for n in spec["nodes"]:
            bbn.add_node(nodes[n["id"]])
        for pa, ch in spec["edges"]:
            bbn.add_edge(Edge(nodes[pa], nodes[ch], EdgeType.DIRECTED))
    return bbn


class Reference:
    """The joint distribution, by brute force."""

    def __init__(self, spec):
        self.order = [n["id"] for n in spec["nodes"]]
        self.axis = {i: k for k, i in enumerate(self.order)}
        self.nodes = spec_nodes(spec)
        shape = [len(self.nodes[i]["values"]) for i in self.order]
        joint = np.ones(shape)
        for i in self.order:
            joint = joint * self._factor(i)
        self.joint = joint

    def _factor(self, i):
        n = self.nodes[i]
        dims = n["parents"] + [i]
        shape = [len(self.nodes[d]["values"]) for d in dims]
        t = np.array(n["probs"], dtype=float).reshape(shape)
        return self._align(t, dims)

    def _align(self, t, dims):
        axes = [self.axis[d] for d in dims]
        perm = sorted(range(len(dims)), key=lambda k: axes[k])
        t = np.transpose(t, perm)
        full = [1] * len(self.order)
        for d in dims:
            full[self.axis[d]] = len(self.nodes[d]["values"])
        return t.reshape(full)

    def weighted(self, like=None):
        """joint x likelihoods; like: {id: {value: likelihood}}."""
        w = self.joint
        for i, m in (like or {}).items():
            v = np.array([m[x] for x in self.nodes[i]["values"]], dtype=float)
            w = w * self._align(v, [i])
        return w

    def posteriors(self, like=None):
        """{name: {value: p}} or None if the evidence has probability zero."""
        w = self.weighted(like)
        total = w.sum()
        if not total > 0.0:
            return None
        out = {}
        for i in self.order:
            ax = tuple(k for k in range(len(self.order)) if k != self.axis[i])
            m = w.sum(axis=ax) / total
            n = self.nodes[i]
            out[n["name"]] = {v: float(m[k]) for k, v in enumerate(n["values"])}
        return out

    def prob(self, like=None):
        return float(self.weighted(like).sum())

    def sample_prob(self, sample):
        """Probability of a complete assignment {id: value}."""
        idx = tuple(self.nodes[i]["values"].index(sample[i]) for i in self.order)
        return float(self.joint[idx])

    def do(self, x, xv, y, yv):
        """P(y = yv | do(x = xv)) by truncated factorisation."""
        w = np.ones(self.joint.shape)
        for i in self.order:
            if i != x:
                w = w * self._factor(i)
        ind = np.array([1.0 if v == xv else 0.0 for v in self.nodes[x]["values"]])
        w = w * self._align(ind, [x])
        ind = np.array([1.0 if v == yv else 0.0 for v in self.nodes[y]["values"]])
        return float((w * self._align(ind, [y])).sum() / w.sum())


class BigReference:
    """The same answers by variable elimination, for networks too big for the joint table."""

    def __init__(self, spec):
        self.spec = spec
        self.nodes = spec_nodes(spec)

    def posteriors(self, like=None):
        out = {}
        for i, n in self.nodes.items():
            m = marginal(self.spec, i, like)
            if m is None:
                return None
            out[n["name"]] = m
        return out

    def prob(self, like=None):
        return eliminate(self.spec, next(iter(self.nodes)), like)[1]

    def sample_prob(self, sample):
        p = 1.0
        for i, n in self.nodes.items():
            row = 0
            for q in n["parents"]:
                row = row * len(self.nodes[q]["values"]) + self.nodes[q]["values"].index(sample[q])
            p *= n["probs"][row * len(n["values"]) + n["values"].index(sample[i])]
        return p


def reference(spec):
    size = math.prod(len(n["values"]) for n in spec["nodes"])
    return Reference(spec) if size <= 50000 else BigReference(spec)


def point(values, v):
    return {x: 1.0 if x == v else 0.0 for x in values}


def compare_posteriors(got, want, tol=1e-9):
    """None if equal, else a description."""
    if set(got) != set(want):
        return f"variables {sorted(got)} instead of {sorted(want)}"
    for name in sorted(want):
        g, w = got[name], want[name]
        if set(g) != set(w):
            return f"{name}: values {sorted(g)} instead of {sorted(w)}"
        for v in sorted(w):
            if not abs(g[v] - w[v]) <= tol:
                return f"P({name}={v}) is {g[v]!r}, should be {w[v]!r}"
    return None


def shrink_spec(spec, keep=()):
    """Smaller specs (ids in keep must stay)."""
    nodes = spec_nodes(spec)
    children = {i: [c for c in nodes if i in nodes[c]["parents"]] for i in nodes}
    # drop a node: its value in the tables of its children is fixed to the first one
    for i in sorted(nodes):
        if i in keep or len(nodes) == 1:
            continue
        out = []
        for n in spec["nodes"]:
            if n["id"] == i:
                continue
            n = dict(n)
            if i in n["parents"]:
                shape = [len(nodes[p]["values"]) for p in n["parents"]] + [len(n["values"])]
                t = np.array(n["probs"]).reshape(shape)
                k = n["parents"].index(i)
                n["probs"] = [float(x) for x in np.take(t, 0, axis=k).flatten()]
                n["parents"] = [p for p in n["parents"] if p != i]
            out.append(n)
        yield {"nodes": out, "edges": [e for e in spec["edges"] if i not in e]}
    # drop an edge
    for pa, ch in spec["edges"]:
        out = []
        for n in spec["nodes"]:
            if n["id"] == ch:
                n = dict(n)
                shape = [len(nodes[p]["values"]) for p in n["parents"]] + [len(n["values"])]
                t = np.array(n["probs"]).reshape(shape)
                k = n["parents"].index(pa)
                n["probs"] = [float(x) for x in np.take(t, 0, axis=k).flatten()]
                n["parents"] = [p for p in n["parents"] if p != pa]
            out.append(n)
        yield {"nodes": out, "edges": [e for e in spec["edges"] if e != [pa, ch]]}
    # simplify the tables
    for k, n in enumerate(spec["nodes"]):
        r = [round(p, 1) for p in n["probs"]]
        c = len(n["values"])
        ok = all(abs(math.fsum(r[j:j + c]) - 1.0) < 1e-12 for j in range(0, len(r), c))
        if ok and r != n["probs"]:
            out = list(spec["nodes"])
            out[k] = dict(n, probs=r)
            yield {"nodes": out, "edges": spec["edges"]}
    # natural order of insertion
    ordered = sorted(spec["nodes"], key=lambda n: n["id"])
    if ordered != spec["nodes"]:
        yield {"nodes": ordered, "edges": spec["edges"]}


def marginal(spec, target, like=None):
    """P(target | evidence) by variable elimination, for networks too big for the joint table."""
    t, total = eliminate(spec, target, like)
    if not total > 0:
        return None
    return {v: float(x) for v, x in zip(spec_nodes(spec)[target]["values"], t / total)}


def eliminate(spec, target, like=None):
    """P(target, evidence), and its sum."""
    nodes = spec_nodes(spec)
    card = {i: len(n["values"]) for i, n in nodes.items()}
    factors = []
    for i, n in nodes.items():
        dims = n["parents"] + [i]
        factors.append((dims, np.array(n["probs"], dtype=float).reshape([card[d] for d in dims])))
    for i, m in (like or {}).items():
        factors.append(([i], np.array([m[v] for v in nodes[i]["values"]], dtype=float)))

    def product(fs):
        dims = []
        for d, _ in fs:
            dims.extend(x for x in d if x not in dims)
        out = np.ones([card[d] for d in dims])
        for d, t in fs:
            perm = sorted(range(len(d)), key=lambda k: dims.index(d[k]))
            shape = [card[x] if x in d else 1 for x in dims]
            out = out * np.transpose(t, perm).reshape(shape)
        return dims, out

    left = [i for i in nodes if i != target]
    while left:
        def cost(v):
            s = set()
            for d, _ in factors:
                if v in d:
                    s.update(d)
            return math.prod(card[x] for x in s), v
        v = min(left, key=cost)
        left.remove(v)
        dims, t = product([f for f in factors if v in f[0]])
        factors = [f for f in factors if v not in f[0]]
        factors.append(([d for d in dims if d != v], t.sum(axis=dims.index(v))))
    dims, t = product(factors)
    t = t.reshape(-1)
    return t, float(t.sum())
