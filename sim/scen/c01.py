"""C01: posteriors after any history of evidence changes, in any message order."""
from .. import nets, simset
from . import jtlib

PROP = "C01"


def gen(rng, tier):
    if rng.chance(0.04):
        # too large for the joint table: some marginals, by elimination
        spec = jtlib.rand_large(rng)
        n = rng.randrange(1, 7)
        ops = [o for o in jtlib.rand_ops(rng, spec, n) if o["op"] != "query"]
        return {"spec": spec, "implicit": rng.chance(0.2), "ops": ops, "lookalikes": [], "resalt": [],
                "probe": [x["id"] for x in rng.sample(spec["nodes"], 4)]}
    if rng.chance(0.03):
        # very long histories
        spec = nets.rand_spec(rng, max_n=5, max_joint=100, max_family=24)
        return {"spec": spec, "implicit": False, "ops": jtlib.rand_ops(rng, spec, rng.randrange(60, 260)), "lookalikes": [], "resalt": []}
    spec = nets.rand_spec(rng, max_n=12, max_card=rng.choice([2, 3, 4, 6]), max_pa=rng.choice([2, 3, 3, 4, 6]))
    n = rng.weighted([(rng.randrange(1, 5), 3), (rng.randrange(4, 14), 5), (rng.randrange(12, 35), 1)])
    return {"spec": spec, "implicit": rng.chance(0.2), "ops": jtlib.rand_ops(rng, spec, n), "lookalikes": jtlib.rand_lookalikes(rng, spec, 0.15),
            "resalt": [[rng.randrange(n + 1), rng.randrange(1, 2 ** 31)] for _ in range(rng.choice([0, 0, 1, 2]))]}


def run(plan, ctx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = plan["spec"]
    others = jtlib.Bystanders(ctx, plan["lookalikes"], ("tree",))
    bbn = nets.build(spec, plan["implicit"])
    jt = InferenceController.apply(bbn)
    o = jtlib.Oracle(spec) if "probe" not in plan else jtlib.Large(spec, plan["probe"])
    state = {}
    kinds = []
    impossible = False

    def check(op, what):
        nonlocal impossible
        got = jtlib.query(jt, spec, op)
        ctx.step()
        if o.want(state) is None:
            ctx.count("impossible evidence in force")
            impossible = True
            return
        if impossible:
            ctx.count("checked after impossible evidence")
            impossible = False
        bad = o.compare(got, state)
        ctx.ev(what, jtlib.dists(got))
        if bad:
            ctx.fail("posterior", f"after {what} with evidence {state}: {bad}")

    held = {}
    check(None, "build")
    resalt = {k: s for k, s in plan["resalt"]}
    if len(plan["ops"]) > 50:
        ctx.count("very long histories")
    if "probe" in plan:
        ctx.count("networks of more than twelve variables")
    for k, op in enumerate(plan["ops"]):
        jtlib.check_op_fits(spec, op)
        if k in resalt:
            simset.reset(resalt[k])
        ctx.step()
        ctx.count("op " + op["op"])
        kinds.append(op["op"])
        if op["op"] == "query":
            check(op, f"query {k}")
        else:
            jtlib.perform(jt, spec, op, held)
            if "tag" in op:
                ctx.count("evidence objects held")
            if "scribble" in op:
                ctx.count("evidence objects altered by their owner afterwards")
            new = jtlib.model_apply(spec, state, op)
            if op["op"] == "set" and op["id"] in state and op["id"] not in new:
                ctx.count("toggled off")
            if any(m.get(v, 1.0) > state.get(i, m).get(v, 1.0) for i, m in new.items() for v in m) or any(i not in new for i in state):
                ctx.count("retraction")
            state = new
            ctx.ev(op["op"], sorted(state))
            if "probe" in plan:
                check(None, f"operation {k}")
    check(None, "history")
    for how in ("potential",):
        for n in spec["nodes"]:
            check({"how": how, "id": n["id"]}, "potential")
    jt.unobserve_all()
    state = {}
    check(None, "retracting everything")
    others.judge()
    if len([c for c in jt.get_cliques()]) > 1:
        ctx.count("several cliques")
    if len(jt.get_sep_sets()) < len(jt.get_cliques()) - 1:
        ctx.count("disconnected network")
    ctx.count("fault:message reordering (seeded visiting order)")
    ctx.sig.append((jtlib.shape(spec), [(o_["op"], len(o_.get("ev", o_.get("ids", [])))) for o_ in plan["ops"]], plan["salt"]))


def nontrivial(ctx):
    return any(k in ctx.counts for k in ("op update", "op set", "op unobs", "op unobs_all"))


def shrink(plan):
    yield from jtlib.fewer_lookalikes(plan)
    for ops in jtlib.shrink_ops(plan["ops"]):
        yield dict(plan, ops=ops, resalt=[])
    if plan["resalt"]:
        yield dict(plan, resalt=[])
    for s in nets.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    if plan["implicit"]:
        yield dict(plan, implicit=False)
    if plan["salt"] != 1:
        yield dict(plan, salt=1)
