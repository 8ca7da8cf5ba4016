"""Operations on join trees, and the model of what they mean."""
from ..core import Inapplicable
from ..nets import compare_posteriors, marginal, point, reference, spec_nodes

TYPES = {"obs": "OBSERVATION", "find": "FINDING", "virt": "VIRTUAL", "unobs": "UNOBSERVE"}


# ---- generation ---------------------------------------------------------------------------
def rand_ev(rng, spec, node=None, kinds=("obs", "obs", "find", "virt", "virt", "unobs")):
    n = node or rng.pick(spec["nodes"])
    vals = n["values"]
    t = rng.pick(kinds)
    if t == "obs":
        v = rng.pick(vals)
        mode = rng.randrange(4)
        if mode == 0:
            pairs = [[x, 1.0 if x == v else 0.0] for x in vals]
        elif mode == 1:
            pairs = [[v, rng.choice([0.3, 0.9, 1.0, 7.0])]]
        elif mode == 2:
            pairs = rng.shuffled([[x, 0.9 if x == v else rng.choice([0.1, 0.2, 0.5])] for x in vals])
        else:
            pairs = [[v, 1.0]]
    elif t == "find":
        k = rng.randrange(0, len(vals) + 1)
        pos = rng.sample(vals, k)
        pairs = [[x, rng.choice([1.0, 0.4, 2.0])] for x in pos]
        pairs += [[x, rng.choice([0.0, -1.0])] for x in vals if x not in pos and rng.chance(0.5)]
        pairs = rng.shuffled(pairs)
    elif t == "virt":
        mode = rng.randrange(8)
        if mode == 6:
            # almost certain, almost excluded
            pairs = [[x, rng.choice([1.0, 1.0 - 1e-4, 1.0 - 1e-6, 1e-4, 1e-6, 0.0])] for x in vals]
        elif mode == 7:
            # only the ratios count
            c = 10.0 ** -rng.randrange(3, 14)
            pairs = [[x, c * rng.choice([1.0, 0.5, rng.random()])] for x in vals]
        elif mode == 0:
            pairs = [[x, 1.0] for x in vals]
        elif mode == 1:
            c = rng.choice([0.5, 0.25, 1.0])
            pairs = [[x, c] for x in vals]
        elif mode == 2:
            pairs = [[x, 1.0 if k == 0 else round(rng.random(), 2)] for k, x in enumerate(rng.shuffled(vals))]
        elif mode == 3:
            pairs = [[x, rng.choice([0.0, 1.0, 0.5, 1.5, -0.5])] for x in vals]
        elif mode == 4:
            pairs = [[rng.pick(vals), rng.choice([0.2, 1.0, 0.999])]]
        else:
            pairs = [[x, rng.random()] for x in vals]
        pairs = rng.shuffled(pairs)
    else:
        pairs = []
    return {"id": n["id"], "type": t, "vals": pairs, "by": rng.choice(["id", "name", "list"])}


def rand_op(rng, spec, queries=True):
    kind = rng.weighted([("update", 5), ("set", 5), ("batch", 3), ("unobs", 2), ("all", 1), ("query", 5 if queries else 0)])
    if kind == "update":
        return {"op": "update", "ev": [rand_ev(rng, spec)]}
    if kind == "set":
        n = rng.pick(spec["nodes"])
        return {"op": "set", "id": n["id"], "value": rng.pick(n["values"]), "zeros": rng.choice([True, True, False, False, False, 0.9, 7.0]), "by": rng.choice(["id", "name", "list"])}
    if kind == "batch":
        k = rng.randrange(0, min(len(spec["nodes"]), 6) + 1)
        some = rng.sample(spec["nodes"], k)
        if some and rng.chance(0.15):
            some.append(rng.pick(some))     # the last word about a node counts
        return {"op": "update", "ev": [rand_ev(rng, spec, n) for n in some]}
    if kind == "unobs":
        k = rng.randrange(1, len(spec["nodes"]) + 1)
        return {"op": "unobs", "ids": [n["id"] for n in rng.sample(spec["nodes"], k)], "by": rng.choice(["id", "name", "list"])}
    if kind == "all":
        return {"op": "unobs_all"}
    return {"op": "query", "how": rng.choice(["posteriors", "posteriors", "potential", "twice"]), "id": rng.pick(spec["nodes"])["id"]}


def almost(rng, spec, op):
    """Likelihoods that all but say which value the node of an earlier operation has (often the one it was said to have)."""
    ev = op["ev"][-1] if op.get("ev") else None
    i = op["id"] if "id" in op else ev["id"] if ev else rng.pick(spec["nodes"])["id"]
    vals = spec_nodes(spec)[i]["values"]
    v = op["value"] if "value" in op else max(ev["vals"], key=lambda p: p[1])[0] if ev and ev["vals"] else rng.pick(vals)
    if rng.chance(0.2):
        v = rng.pick(vals)
    small = 10.0 ** -rng.randrange(5, 17)
    return {"id": i, "type": "virt", "vals": rng.shuffled([[x, 1.0 if x == v else rng.choice([small, small, 0.0])] for x in vals]), "by": "id"}


def rand_ops(rng, spec, n, queries=True):
    """A history; now and then an operation comes again, on the same or another value of a node."""
    ops = []
    for _ in range(n):
        prev = [o for o in ops if o["op"] in ("set", "update")]
        if prev and rng.chance(0.15):
            o = rng.pick(prev[-3:])
            if rng.chance(0.5) and "scribble" not in o:
                o["tag"] = o.get("tag") or f"t{len(ops)}"     # with the very same evidence objects
            ops.append(dict(o))
        elif prev and rng.chance(0.06):
            ops.append({"op": "update", "ev": [almost(rng, spec, prev[-1])]})
        else:
            ops.append(rand_op(rng, spec, queries))
            if ops[-1]["op"] in ("set", "update") and rng.chance(0.08):
                ops[-1]["scribble"] = rng.randrange(3)
    return ops


# ---- the real thing -----------------------------------------------------------------------
def get_node(jt, spec, i, by):
    if by == "name":
        return jt.get_bbn_node_by_name(spec_nodes(spec)[i]["name"])
    if by == "list":
        for n in jt.get_bbn_nodes():
            if n.id == i:
                return n
    return jt.get_bbn_node(i)


def make_evidence(jt, spec, e, node=None):
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType
    if e["id"] not in spec_nodes(spec):
        raise Inapplicable("no such node")
    b = EvidenceBuilder().with_node(node or get_node(jt, spec, e["id"], e.get("by", "id")))
    if e["type"] != "obs" or len(e["vals"]) != 1:
        b = b.with_type(getattr(EvidenceType, TYPES[e["type"]]))
    for v, x in e["vals"]:
        b = b.with_evidence(v, x)
    return b.build()


def set_evidence(jt, spec, op):
    n = spec_nodes(spec)[op["id"]]
    z = op.get("zeros")
    if z is True:
        pairs = [[x, 1.0 if x == op["value"] else 0.0] for x in n["values"]]
    elif z:
        # the largest likelihood says what is observed
        pairs = [[x, z if x == op["value"] else 0.1] for x in n["values"]]
    else:
        pairs = [[op["value"], 1.0]]
    return make_evidence(jt, spec, {"id": op["id"], "type": "obs", "vals": pairs, "by": op.get("by", "id")})


def make_all(jt, spec, op):
    return [set_evidence(jt, spec, op)] if op["op"] == "set" else [make_evidence(jt, spec, e) for e in op["ev"]]


def prepare(jt, spec, op, held=None):
    """Builds the arguments; returns the call that performs the operation proper.
    held: the evidence objects of tagged operations, which are used again and again."""
    k = op["op"]
    if k in ("set", "update"):
        evs = None if held is None else held.get(op.get("tag"))
        if evs is None:
            evs = make_all(jt, spec, op)
            if held is not None and "tag" in op:
                held[op["tag"]] = evs
        return (lambda: jt.update_evidences(evs)) if k == "update" else (lambda: jt.set_observation(evs[0]))
    if k == "unobs":
        nodes = [get_node(jt, spec, i, op.get("by", "id")) for i in op["ids"]]
        return lambda: jt.unobserve(nodes)
    if k == "unobs_all":
        return lambda: jt.unobserve_all()
    raise Inapplicable(k)


def perform(jt, spec, op, held=None):
    """Performs the operation; then the caller may do something else with his evidence objects."""
    if "scribble" not in op or op["op"] not in ("set", "update"):
        prepare(jt, spec, op, held)()
        return
    keep = {"": make_all(jt, spec, op)}
    prepare(jt, spec, dict(op, tag=""), keep)()
    for ev in keep[""]:
        for v in list(ev.values):
            ev.add_value(v, [0.0, 1.0, 0.37][op["scribble"]])
        if op["scribble"] == 2:
            ev.values.clear()


def check_op_fits(spec, op):
    nodes = spec_nodes(spec)
    ids = [op["id"]] if "id" in op else [e["id"] for e in op.get("ev", [])] + op.get("ids", [])
    if any(i not in nodes for i in ids):
        raise Inapplicable("node dropped")
    if op["op"] == "set" and op["value"] not in nodes[op["id"]]["values"]:
        raise Inapplicable("value dropped")


def op_fits(spec, op):
    try:
        check_op_fits(spec, op)
    except Inapplicable:
        return False
    return True


def query(jt, spec, op=None):
    """{name: {value: p}} as the tree answers (a potential gives one variable)."""
    how = (op or {}).get("how", "posteriors")
    if how == "potential":
        n = spec_nodes(spec)[op["id"]]
        pot = jt.get_bbn_potential(get_node(jt, spec, op["id"], "id"))
        out = {n["name"]: {e.entries[op["id"]]: e.value for e in pot.entries}}
        for e in pot.entries:
            e.value = -1.0
        pot.entries.reverse()
        return out
    p = jt.get_posteriors()
    if how == "twice":
        p = jt.get_posteriors()
    out = {n: {v: float(x) for v, x in m.items()} for n, m in p.items()}
    # what was handed out belongs to the caller, who may do with it what he likes
    for m in p.values():
        for v in m:
            m[v] = -1.0
    p.clear()
    return out


# ---- the model ----------------------------------------------------------------------------
def clip(x):
    return min(1.0, max(0.0, float(x)))


def ev_likelihood(spec, e):
    vals = spec_nodes(spec)[e["id"]]["values"]
    given = dict((v, x) for v, x in e["vals"])
    full = {v: given.get(v, 0.0) for v in vals}
    t = e["type"]
    if t == "unobs":
        return {v: 1.0 for v in vals}
    if t == "obs":
        best = max(full.values())
        return point(vals, [v for v in vals if full[v] == best][0])
    if t == "find":
        m = {v: 1.0 if full[v] > 0 else 0.0 for v in vals}
        return m if any(m.values()) else {v: 1.0 for v in vals}
    return {v: clip(full[v]) for v in vals}


def is_point(m):
    return sorted(m.values()) == [0.0] * (len(m) - 1) + [1.0]


def model_apply(spec, state, op):
    """state: {id: {value: likelihood}} (absent: no evidence). Returns the next state."""
    nodes = spec_nodes(spec)
    new = dict(state)
    k = op["op"]
    if k == "update":
        for e in op["ev"]:
            new[e["id"]] = ev_likelihood(spec, e)
    elif k == "set":
        vals = nodes[op["id"]]["values"]
        p = point(vals, op["value"])
        if state.get(op["id"]) == p:
            new[op["id"]] = {v: 1.0 for v in vals}
        else:
            new[op["id"]] = p
    elif k == "unobs":
        for i in op["ids"]:
            new[i] = {v: 1.0 for v in nodes[i]["values"]}
    elif k == "unobs_all":
        new = {}
    return {i: m for i, m in new.items() if any(x != 1.0 for x in m.values())}


class Oracle:
    def __init__(self, spec):
        self.spec = spec
        self.ref = reference(spec)
        self.cache = {}

    def want(self, state):
        key = repr(sorted((i, sorted(m.items())) for i, m in state.items()))
        if key not in self.cache:
            self.cache[key] = self.ref.posteriors(state)
        return self.cache[key]

    def compare(self, got, state, tol=1e-9):
        """None if `got` (all variables or some) is right for this evidence or undefined."""
        want = self.want(state)
        if want is None:
            return None
        if len(got) == 1 and len(want) > 1:
            want = {n: want[n] for n in got if n in want}
        return compare_posteriors(got, want, tol)


class Large:
    """Some of the marginals of a network too large to enumerate."""

    def __init__(self, spec, probe):
        nodes = spec_nodes(spec)
        self.spec, self.probe = spec, [i for i in probe if i in nodes]
        self.cache = {}

    def want(self, state):
        key = repr(sorted((i, sorted(m.items())) for i, m in state.items()))
        if key not in self.cache:
            out = {}
            for i in self.probe:
                m = marginal(self.spec, i, state)
                if m is None:
                    out = None
                    break
                out[spec_nodes(self.spec)[i]["name"]] = m
            self.cache[key] = out
        return self.cache[key]

    def compare(self, got, state, tol=1e-9):
        want = self.want(state)
        if want is None:
            return None
        if set(got) != {n["name"] for n in self.spec["nodes"]} and len(got) > 1:
            return f"variables {sorted(got)}"
        return compare_posteriors({n: got[n] for n in want if n in got}, {n: want[n] for n in want if n in got}, tol)


def rand_large(rng, structures=("chain", "tree", "polytree", "forest", "islands", "layers")):
    from .. import nets
    return nets.rand_spec(rng, n=rng.randrange(13, 30), structures=list(structures),
                          max_pa=2, max_card=3, max_joint=10 ** 12, max_family=18, ids=rng.shuffled(range(40)))


def dists(got):
    """Short stable text of an answer, for the log."""
    import hashlib
    txt = repr([(n, [(v, round(x, 6) + 0.0) for v, x in sorted(m.items())]) for n, m in sorted(got.items())])
    return hashlib.sha256(txt.encode()).hexdigest()[:10]


def shrink_ops(ops):
    n = len(ops)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield ops[:a] + ops[a + size:]
        size //= 2
    for k, op in enumerate(ops):
        if op["op"] == "update" and len(op["ev"]) > 1:
            for j in range(len(op["ev"])):
                yield ops[:k] + [dict(op, ev=op["ev"][:j] + op["ev"][j + 1:])] + ops[k + 1:]
        if op["op"] == "unobs" and len(op["ids"]) > 1:
            for j in range(len(op["ids"])):
                yield ops[:k] + [dict(op, ids=op["ids"][:j] + op["ids"][j + 1:])] + ops[k + 1:]


def shape(spec):
    return [len(n["values"]) for n in spec["nodes"]], spec["edges"]


class Bystanders:
    """Other networks, easily mistaken for the one in question, used in the same process."""

    def __init__(self, ctx, specs, uses=("tree", "sampler")):
        from pybbn.pptc.inferencecontroller import InferenceController
        from pybbn.sampling.sampling import LogicSampler
        from .. import nets
        self.ctx = ctx
        self.trees = []
        self.keep = []
        for spec in specs or []:
            bbn = nets.build(spec)
            self.keep.append(bbn)
            ctx.count("look-alike networks used before")
            if "tree" in uses:
                jt = InferenceController.apply(bbn)
                query(jt, spec)
                self.trees.append((spec, jt))
            if "sampler" in uses:
                LogicSampler(bbn).get_samples(n_samples=2, seed=37)
            if "ace" in uses and len(spec["nodes"]) > 1:
                from pybbn.causality.ace import Ace
                x, y = spec["nodes"][0], spec["nodes"][-1]
                Ace(bbn).get_ace(x["name"], y["name"], y["values"][0])

    def judge(self):
        from .. import nets
        for spec, jt in self.trees:
            bad = nets.compare_posteriors(query(jt, spec), nets.reference(spec).posteriors())
            self.ctx.check(bad is None, "look-alike", lambda: f"another network of the same process: {bad}")


def rand_lookalikes(rng, spec, share=0.3):
    from .. import nets
    if not rng.chance(share):
        return []
    return [nets.decoy(rng, spec) for _ in range(rng.choice([1, 1, 2]))]


def fewer_lookalikes(plan):
    d = plan.get("lookalikes") or []
    for k in range(len(d)):
        yield dict(plan, lookalikes=d[:k] + d[k + 1:])
