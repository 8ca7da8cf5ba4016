"""C03: join trees of one network, used side by side, never influence each other."""
import copy
import json

from .. import nets
from ..core import Inapplicable
from ..trace import Scheduler, Steps, make_schedule
from . import jtlib
from .rehearse import measure

PROP = "C03"


def rand_make(rng, spec, first=False):
    how = rng.weighted([("apply", 4), ("reapply", 3), ("deepcopy", 3), ("serde", 2)])
    m = {"op": "make", "how": how, "of": "own" if not first and rng.chance(0.5) else "base", "keep": rng.chance(0.4)}
    if how == "reapply":
        m["cpts"] = nets.rand_cpts(rng, spec, share=rng.choice([0.3, 0.6, 1.0]))
    if how == "serde":
        m["text"] = rng.chance(0.7)
    return m


def rand_edit(rng, spec, gone):
    """Removes a node and all that depends on it from the network, in any order, or adds a child to some."""
    nodes = [n for n in spec["nodes"] if n["id"] not in gone]
    if rng.chance(0.5) and len(nodes) > 1:
        out = [rng.pick(nodes)["id"]]
        for i in nets.topo(spec):
            n = nets.spec_nodes(spec)[i]
            if i not in gone and i not in out and any(p in out for p in n["parents"]):
                out.append(i)
        if len(out) < len(nodes):
            gone.update(out)
            return {"op": "edit", "remove": rng.shuffled(out) if rng.chance(0.7) else out}
    pas = rng.sample(nodes, min(len(nodes), rng.randrange(1, 3)))
    rows = 1
    for p in pas:
        rows *= len(p["values"])
    i = 5000 + rng.randrange(1000)
    return {"op": "edit", "node": {"id": i, "name": f"new{i}", "values": ["on", "off"], "parents": [p["id"] for p in pas],
                                   "probs": [x for _ in range(rows) for x in nets.rand_row(rng, 2, "random")]}}


def gen(rng, tier):
    threads = rng.chance(0.3)
    if threads:
        spec = nets.rand_spec(rng, max_n=5, max_card=3, max_joint=200, max_family=24)
        k = rng.choice([2, 2, 3])
    else:
        spec = jtlib.rand_large(rng) if rng.chance(0.04) else nets.rand_spec(rng, max_n=8, max_card=4, max_joint=2000)
        k = rng.randrange(2, 5)
    callers = []
    for _ in range(k):
        ops = [rand_make(rng, spec, True)]
        for _ in range(rng.randrange(1, 4) if threads else rng.randrange(1, 9)):
            ops.append(rand_make(rng, spec) if rng.chance(0.12) else jtlib.rand_op(rng, spec))
        callers.append(ops)
    if rng.chance(0.3):
        # evidence objects that all of them hold
        for t in range(rng.randrange(1, 4)):
            op = jtlib.rand_op(rng, spec, queries=False)
            if op["op"] not in ("set", "update"):
                continue
            if op["op"] == "update" and rng.chance(0.3):
                op["ev"].append(jtlib.rand_ev(rng, spec, kinds=("find",)))
            for ops in callers:
                if rng.chance(0.8):
                    ops.insert(rng.randrange(1, len(ops) + 1), dict(op, tag=f"t{t}"))
    plan = {"spec": spec, "salt": rng.randrange(1, 2 ** 31), "callers": callers, "implicit": rng.chance(0.2),
            "base_ops": jtlib.rand_ops(rng, spec, rng.choice([0, 0, 1, 2]), queries=False), "drop_base": rng.chance(0.2)}
    if threads:
        ns = measure(plan["salt"], lambda step: solo(plan, step))
        opcodes = rng.chance(0.3)
        total = sum(ns) * (7 if opcodes else 1)
        switches, period = make_schedule(rng, total, k)
        plan["threads"] = {"switches": switches, "period": period, "opcodes": opcodes}
    else:
        if rng.chance(0.3):
            gone = set()
            for _ in range(rng.randrange(1, 3)):
                ops = rng.pick(callers)
                ops.insert(rng.randrange(1, len(ops) + 1), rand_edit(rng, spec, gone))
        order = [c for c, ops in enumerate(callers) for _ in ops]
        plan["order"] = rng.shuffled(order) if rng.chance(0.8) else order
    return plan


class World:
    """The network as it is now, and the first tree made from it."""

    def __init__(self, plan):
        from pybbn.pptc.inferencecontroller import InferenceController
        self.spec = self.first = plan["spec"]
        self.bbn = nets.build(self.spec, plan["implicit"])
        self.base = InferenceController.apply(self.bbn)
        self.state = {}
        self.held = {}

    def edit(self, op):
        from pybbn.graph.edge import Edge, EdgeType
        from pybbn.graph.node import BbnNode
        from pybbn.graph.variable import Variable
        nodes = nets.spec_nodes(self.spec)
        if "remove" in op:
            for i in op["remove"]:
                if i not in nodes:
                    continue
                self.bbn.remove_node(i)
            left = [n for n in self.spec["nodes"] if n["id"] not in op["remove"]]
            if not left or any(p in op["remove"] for n in left for p in n["parents"]):
                raise Inapplicable("a parent is gone")
            self.spec = {"nodes": left, "edges": [e for e in self.spec["edges"] if not set(e) & set(op["remove"])]}
        else:
            n = op["node"]
            rows = 1
            for p in n["parents"]:
                if p not in nodes:
                    raise Inapplicable("a parent is gone")
                rows *= len(nodes[p]["values"])
            if n["id"] in nodes or rows * 2 != len(n["probs"]):
                raise Inapplicable("there already")
            node = BbnNode(Variable(n["id"], n["name"], list(n["values"])), list(n["probs"]))
            self.bbn.add_node(node)
            for p in n["parents"]:
                self.bbn.add_edge(Edge(self.bbn.get_node(p), node, EdgeType.DIRECTED))
            self.spec = {"nodes": self.spec["nodes"] + [n], "edges": self.spec["edges"] + [[p, n["id"]] for p in n["parents"]]}


class Caller:
    def __init__(self, world):
        self.world = world
        self.held = world.held
        self.jt = None
        self.spec = world.first
        self.cpts = []
        self.state = {}
        self.kept = []          # (tree, cpts, evidence)
        self.answers = []       # (what, answer, cpts, evidence)

    def make(self, op):
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController
        if self.jt is not None and op["keep"]:
            self.kept.append((self.jt, self.spec, self.cpts, self.state))
        own = op["of"] == "own" and self.jt is not None
        w = self.world
        src, spec, cpts, state = (self.jt, self.spec, self.cpts, self.state) if own else (w.base, w.first, [], w.state)
        how = op["how"]
        if how == "serde" and spec is not w.spec:
            how = "deepcopy"        # a tree is saved together with its network
        if how == "apply":
            self.jt, self.spec, self.cpts, self.state = InferenceController.apply(w.bbn), w.spec, [], {}
            return
        self.spec = spec
        if how == "deepcopy":
            self.jt, self.cpts, self.state = copy.deepcopy(src), cpts, state
        elif how == "reapply":
            new = [[i, p] for i, p in op["cpts"] if i in nets.spec_nodes(spec)]
            nets.check_cpts_fit(spec, new)
            self.jt = InferenceController.reapply(src, {i: list(p) for i, p in new})
            m = dict((i, p) for i, p in cpts)
            m.update((i, p) for i, p in new)
            self.cpts, self.state = sorted(m.items()), {}
        else:
            d = JoinTree.to_dict(src, w.bbn)
            if op.get("text"):
                d = json.loads(json.dumps(d))
            self.jt, self.cpts, self.state = InferenceController.apply_from_serde(JoinTree.from_dict(d)), cpts, {}

    def do(self, k):
        op = self.ops[k]
        if op["op"] == "make":
            self.make(op)
        elif op["op"] == "edit":
            self.world.edit(op)
        elif not jtlib.op_fits(self.spec, op):
            pass                    # about a node that this tree does not have
        elif op["op"] == "query":
            self.answers.append((f"query {k}", jtlib.query(self.jt, self.spec, op), self.spec, self.cpts, self.state))
        else:
            jtlib.perform(self.jt, self.spec, op, self.held)
            self.state = jtlib.model_apply(self.spec, self.state, op)

    def finish(self):
        self.answers.append(("the end", jtlib.query(self.jt, self.spec), self.spec, self.cpts, self.state))

    def all(self):
        for k in range(len(self.ops)):
            self.do(k)
        self.finish()


def setup(plan):
    spec = plan["spec"]
    w = World(plan)
    for op in plan["base_ops"]:
        jtlib.check_op_fits(spec, op)
        jtlib.prepare(w.base, spec, op)()
        w.state = jtlib.model_apply(spec, w.state, op)
    callers = []
    for ops in plan["callers"]:
        c = Caller(w)
        c.ops = ops
        for op in ops:
            if op["op"] not in ("make", "edit"):
                jtlib.check_op_fits(spec, op)
                if "tag" in op and op["tag"] not in w.held:
                    w.held[op["tag"]] = jtlib.make_all(w.base, spec, op)
        callers.append(c)
    return w, callers


def solo(plan, step):
    _, callers = setup(plan)
    for c in callers:
        step(c.all)


def run(plan, ctx):
    spec = plan["spec"]
    w, callers = setup(plan)
    oracles = {}

    def judge(who, what, got, spec, cpts, state):
        key = json.dumps([spec, cpts])
        if key not in oracles:
            oracles[key] = jtlib.Oracle(nets.with_cpts(spec, cpts))
        bad = oracles[key].compare(got, state)
        ctx.ev(who, what, jtlib.dists(got) if oracles[key].want(state) is not None else "-")
        if bad:
            ctx.fail("influence", f"{who} at {what} with evidence {state}: {bad}")

    t = plan.get("threads")
    if t is not None:
        s = Scheduler(ctx, [c.all for c in callers], t["switches"], t["period"], t["opcodes"])
        _, errors = s.run()
        for e in errors:
            if e is not None:
                raise e
        ctx.count("threaded runs")
        if t["opcodes"]:
            ctx.count("bytecode-level runs")
    else:
        pos = [0] * len(callers)
        last = None
        for c in plan["order"]:
            if c >= len(callers) or pos[c] >= len(callers[c].ops):
                continue
            ctx.step()
            if last is not None and last != c:
                ctx.count("fault:preemption")
            last = c
            callers[c].do(pos[c])
            pos[c] += 1
        for c, caller in enumerate(callers):
            while pos[c] < len(caller.ops):
                caller.do(pos[c])
                pos[c] += 1
        for caller in callers:
            caller.finish()
        ctx.sig.append(plan["order"])
    for c, caller in enumerate(callers):
        for what, got, sp, cpts, state in caller.answers:
            judge(f"caller {c}", what, got, sp, cpts, state)
        for jt, sp, cpts, state in caller.kept:
            ctx.count("earlier trees checked again")
            judge(f"caller {c}", "an earlier tree", jtlib.query(jt, sp), sp, cpts, state)
        if len([op for op in caller.ops if "tag" in op]):
            ctx.count("callers that share evidence objects")
        for op in caller.ops:
            ctx.count("op " + (op["op"] if op["op"] != "make" else "make by " + op["how"]))
    if plan["drop_base"]:
        w.base.unobserve_all()
        w.state = {}
    judge("base", "the end", jtlib.query(w.base, spec), spec, [], w.state)
    for c, caller in enumerate(callers):
        judge(f"caller {c}", "after the base", jtlib.query(caller.jt, caller.spec), caller.spec, caller.cpts, caller.state)
        if w.spec is not spec:
            # each still re-applies as the network was when its tree was made
            from pybbn.pptc.inferencecontroller import InferenceController
            again = InferenceController.reapply(caller.jt, {})
            judge(f"caller {c}", "re-applied at the end", jtlib.query(again, caller.spec), caller.spec, caller.cpts, {})
    ctx.sig.append((jtlib.shape(spec), [[(o["op"], o.get("how")) for o in ops] for ops in plan["callers"]]))


def nontrivial(ctx):
    return ctx.counts.get("fault:preemption", 0) > 0


def shrink(plan):
    cs = plan["callers"]
    for k in range(len(cs)):
        if len(cs) > 1:
            p = dict(plan, callers=cs[:k] + cs[k + 1:])
            if "order" in p:
                p["order"] = [c - (c > k) for c in p["order"] if c != k]
            elif len(cs) == 2:
                continue
            yield p
    for k, ops in enumerate(cs):
        for o in jtlib.shrink_ops(ops[1:]):
            yield dict(plan, callers=cs[:k] + [ops[:1] + o] + cs[k + 1:])
    if "threads" in plan:
        t = plan["threads"]
        sw = t["switches"]
        n = len(sw)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield dict(plan, threads=dict(t, switches=sw[:a] + sw[a + size:]))
            size //= 2
        if t["period"]:
            yield dict(plan, threads=dict(t, period=t["period"] * 2))
    else:
        o = plan["order"]
        if o != sorted(o):
            yield dict(plan, order=sorted(o))
    if plan["base_ops"]:
        yield dict(plan, base_ops=[])
    if plan["drop_base"]:
        yield dict(plan, drop_base=False)
    for s in nets.shrink_spec(plan["spec"]):
        p = dict(plan, spec=s)
        ids = {n["id"]: len(n["probs"]) for n in s["nodes"]}
        p["callers"] = [[dict(o, cpts=[[i, q] for i, q in o["cpts"] if ids.get(i) == len(q)]) if "cpts" in o else o
                         for o in ops] for ops in cs]
        yield p
    if plan["salt"] != 1:
        yield dict(plan, salt=1)
