"""C15: re-applied and restored join trees equal freshly built ones."""
import json

from .. import nets, zygote
from ..core import FAULTS, Inapplicable, blame, is_injected
from ..trace import Steps
from . import jtlib
from .rehearse import measure, place

PROP = "C15"
ZYGOTE = True


def bad_cpts(rng, spec):
    n = rng.pick(spec["nodes"])
    p = list(n["probs"])
    how = rng.choice(["short", "empty", "text", "none", "number", "stranger"])
    q = {"short": p[:-1], "empty": [], "text": ["x"] * len(p), "none": None, "number": 0.5, "stranger": p}[how]
    good = nets.rand_cpts(rng, spec, share=0.4)
    return rng.shuffled([[i, x] for i, x in good if i != n["id"]] + [[987654 if how == "stranger" else n["id"], q]])


def gen(rng, tier):
    large = rng.chance(0.03)
    spec = jtlib.rand_large(rng) if large else nets.rand_spec(rng, max_n=8, max_card=4, max_joint=1500, max_family=64)
    events = []
    trees = 1
    for _ in range(rng.randrange(2, 5) if large else rng.randrange(2, 12)):
        k = rng.randrange(trees)
        what = rng.weighted([("ev", 6), ("reapply", 5), ("serde", 4), ("bad", 1), ("look", 2)])
        if what == "ev":
            e = {"do": "ev", "on": k, "op": jtlib.rand_op(rng, spec, queries=False)}
        elif what == "look":
            e = {"do": "look", "on": k, "op": {"op": "query", "how": rng.choice(["posteriors", "potential"]), "id": rng.pick(spec["nodes"])["id"]}}
        elif what == "reapply":
            e = {"do": "reapply", "on": k, "cpts": nets.rand_cpts(rng, spec, share=rng.choice([0.0, 0.3, 0.6, 1.0]))}
            trees += 1
        elif what == "bad":
            e = {"do": "bad", "on": k, "cpts": bad_cpts(rng, spec)}
        else:
            e = {"do": "serde", "on": k, "text": rng.chance(0.75), "trips": rng.choice([1, 1, 2, 3])}
            if rng.chance(0.25):
                e["text"] = True
                e["process"] = jtlib.rand_ops(rng, spec, rng.randrange(0, 4))
                e["reapply"] = nets.rand_cpts(rng, spec) if rng.chance(0.3) else None
            else:
                trees += 1
                if rng.chance(0.1):
                    e["again"] = jtlib.rand_op(rng, spec, queries=False)
        events.append(e)
    plan = {"spec": spec, "salt": rng.randrange(1, 2 ** 31), "events": events, "implicit": rng.chance(0.2),
            "after": [jtlib.rand_ops(rng, spec, rng.randrange(0, 3), queries=False) for _ in range(trees)]}
    if large:
        plan["probe"] = [x["id"] for x in rng.sample(spec["nodes"], 4)]
    plan["lookalikes"] = jtlib.rand_lookalikes(rng, spec, 0.1) if not large else []
    cuts = [rng.chance(0.35) and e["do"] in ("reapply", "serde") and "process" not in e for e in events]
    if any(cuts):
        def body(step):
            w = World(plan)
            for e, c in zip(events, cuts):
                if e["do"] in ("reapply", "serde") and "process" not in e:
                    call = w.derive(e)
                    w.trees.append((step(call) if c else [step(lambda: None), call()][1],) + w.after(e))
                else:
                    step(lambda: None)
                    if e["do"] == "ev":
                        w.evidence(e)
        ns = measure(plan["salt"], body)
        for e, n, c in zip(events, ns, cuts):
            if c and n:
                e["cut"] = [rng.pick(sorted(FAULTS)), place(rng, n)]
    return plan


@zygote.func
def c15_restore(spec, text, ops, cpts):
    """In another process: restore, ask, follow evidence; perhaps re-apply there."""
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    jt = InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(text)))
    out = [jtlib.query(jt, spec)]
    for op in ops:
        if op["op"] != "query":
            jtlib.prepare(jt, spec, op)()
        out.append(jtlib.query(jt, spec))
    if cpts is not None:
        new = InferenceController.reapply(jt, {i: p for i, p in cpts})
        out.append(jtlib.query(new, spec))
        out.append(jtlib.query(jt, spec))
    return out


class World:
    def __init__(self, plan):
        from pybbn.pptc.inferencecontroller import InferenceController
        self.plan, self.spec = plan, plan["spec"]
        self.bbn = nets.build(self.spec, plan["implicit"])
        self.trees = [(InferenceController.apply(self.bbn), [], {})]   # (tree, tables replaced, evidence)

    def pick(self, e):
        if e["on"] >= len(self.trees):
            raise Inapplicable("tree dropped")
        return self.trees[e["on"]]

    def evidence(self, e):
        jt, cpts, state = self.pick(e)
        jtlib.check_op_fits(self.spec, e["op"])
        jtlib.perform(jt, self.spec, e["op"])
        self.trees[e["on"]] = (jt, cpts, jtlib.model_apply(self.spec, state, e["op"]))

    def derive(self, e):
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController
        jt = self.pick(e)[0]
        if "again" in e:
            jtlib.check_op_fits(self.spec, e["again"])
        if e["do"] == "reapply":
            nets.check_cpts_fit(self.spec, e["cpts"])
            return lambda: InferenceController.reapply(jt, {i: list(p) for i, p in e["cpts"]})

        def serde():
            t = jt
            for _ in range(e["trips"]):
                d = JoinTree.to_dict(t, self.bbn)
                if e["text"]:
                    d = json.loads(json.dumps(d))
                t = InferenceController.apply_from_serde(JoinTree.from_dict(d))
                if "again" in e:
                    # used, and then prepared once more
                    jtlib.perform(t, self.spec, e["again"])
                    t.get_posteriors()
                    t = InferenceController.apply_from_serde(t)
            return t
        return serde

    def after(self, e):
        """(tables, evidence) of the tree that derive gives."""
        cpts = self.pick(e)[1]
        if e["do"] == "reapply":
            m = dict((i, p) for i, p in cpts)
            m.update((i, p) for i, p in e["cpts"])
            cpts = sorted(m.items())
        return cpts, {}


def run(plan, ctx):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = plan["spec"]
    others = jtlib.Bystanders(ctx, plan["lookalikes"], ("tree",))
    w = World(plan)
    oracles = {}
    if "probe" in plan:
        ctx.count("networks of more than twelve variables")

    def oracle(cpts):
        key = json.dumps(cpts)
        if key not in oracles:
            sp = nets.with_cpts(spec, cpts)
            oracles[key] = jtlib.Large(sp, plan["probe"]) if "probe" in plan else jtlib.Oracle(sp)
        return oracles[key]

    def judge(k, what, op=None):
        jt, cpts, state = w.trees[k]
        o = oracle(cpts)
        got = jtlib.query(jt, spec, op)
        bad = o.compare(got, state)
        ctx.ev(what, k, jtlib.dists(got) if o.want(state) is not None else "-")
        if o.want(state) is not None:
            ctx.count("answers compared")
        if bad:
            ctx.fail("answer", f"tree {k}, {what}, evidence {state}: {bad}")

    for n, e in enumerate(plan["events"]):
        ctx.step()
        w.pick(e)
        if e["do"] == "ev":
            w.evidence(e)
            judge(e["on"], f"after evidence {n}")
        elif e["do"] == "look":
            judge(e["on"], f"look {n}", e["op"])
        elif e["do"] == "bad":
            try:
                InferenceController.reapply(w.pick(e)[0], {i: p for i, p in e["cpts"]})
                ctx.count("invalid tables accepted")
            except Exception as x:
                if blame(x) is None:
                    raise
                ctx.count("fault:invalid tables")
            judge(e["on"], f"after invalid tables {n}")
        elif "process" in e:
            jt, cpts, state = w.pick(e)
            for op in e["process"]:
                jtlib.check_op_fits(spec, op)
            nets.check_cpts_fit(spec, e["reapply"])
            text = json.dumps(JoinTree.to_dict(jt, w.bbn))
            for _ in range(e["trips"] - 1):
                text = json.dumps(JoinTree.to_dict(JoinTree.from_dict(json.loads(text)), w.bbn))
            r = zygote.call("c15_restore", spec, text, e["process"], e["reapply"])
            if "ok" not in r:
                ctx.check(not r["blame"], "restore", lambda: f"in another process: {r}")
                raise RuntimeError(str(r))
            s = {}
            wants = [(cpts, s)]
            for op in e["process"]:
                if op["op"] != "query":
                    s = jtlib.model_apply(spec, s, op)
                wants.append((cpts, s))
            if e["reapply"] is not None:
                m = dict((i, p) for i, p in cpts)
                m.update((i, p) for i, p in e["reapply"])
                wants += [(sorted(m.items()), {}), (cpts, s)]
            for k, (got, (c, s)) in enumerate(zip(r["ok"], wants)):
                bad = oracle(c).compare(got, s)
                ctx.check(bad is None, "answer", lambda: f"restored in another process, answer {k}: {bad}")
            ctx.count("fault:restart")
            judge(e["on"], f"after {n}")
        else:
            call = w.derive(e)
            if "cut" in e:
                try:
                    with Steps(ctx, at=e["cut"][1], kind=e["cut"][0]):
                        call()
                except BaseException as x:
                    if not is_injected(x):
                        raise
                    ctx.count(f"{e['do']} cut short")
                judge(e["on"], f"after a cut {n}")
            new = call()
            w.trees.append((new,) + w.after(e))
            ctx.count("trees by " + e["do"])
            if w.pick(e)[2]:
                ctx.count("made from a tree with evidence")
            judge(len(w.trees) - 1, "new")
            judge(e["on"], f"source after {n}")
    for k in range(len(w.trees)):
        judge(k, "at the end")
    for k, ops in enumerate(plan["after"]):
        for op in ops:
            if k < len(w.trees):
                w.evidence({"on": k, "op": op})
                judge(k, "later")
    for k in range(len(w.trees)):
        judge(k, "finally")
    others.judge()
    ctx.sig.append((jtlib.shape(spec), [(e["do"], e["on"], e.get("cut"), e.get("trips"), "process" in e) for e in plan["events"]]))


def nontrivial(ctx):
    return "trees by reapply" in ctx.counts or "trees by serde" in ctx.counts or "fault:restart" in ctx.counts


def shrink(plan):
    yield from jtlib.fewer_lookalikes(plan)
    ev = plan["events"]
    size = len(ev) // 2
    while size >= 1:
        for a in range(0, len(ev), size):
            yield dict(plan, events=ev[:a] + ev[a + size:])
        size //= 2
    if any(plan["after"]):
        yield dict(plan, after=[])
    for k, e in enumerate(ev):
        def w(**kw):
            return dict(plan, events=ev[:k] + [dict(e, **kw)] + ev[k + 1:])
        if e["on"]:
            yield w(on=0)
        if "cut" in e:
            yield dict(plan, events=ev[:k] + [{a: b for a, b in e.items() if a != "cut"}] + ev[k + 1:])
        if e.get("trips", 1) > 1:
            yield w(trips=1)
        if e.get("cpts") and len(e["cpts"]) > 1:
            for j in range(len(e["cpts"])):
                yield w(cpts=e["cpts"][:j] + e["cpts"][j + 1:])
        if e.get("process"):
            yield w(process=[])
    for s in nets.shrink_spec(plan["spec"]):
        ids = {n["id"]: len(n["probs"]) for n in s["nodes"]}
        yield dict(plan, spec=s, events=[dict(e, cpts=[[i, q] for i, q in e["cpts"] if ids.get(i) == len(q)]) if e["do"] == "reapply" else e for e in ev])
