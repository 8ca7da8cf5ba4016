"""C02: evidence operations that fail or are cut short are all or nothing."""
from .. import nets, simset
from ..core import FAULTS, is_injected
from ..trace import Steps
from . import jtlib
from .rehearse import measure, place

PROP = "C02"


class ListenerFailed(RuntimeError):
    pass


def bad_evidence(rng, spec):
    n = rng.pick(spec["nodes"])
    how = rng.choice(["value", "value", "node", "none", "text", "nonode", "extra"])
    return {"id": n["id"], "how": how, "v": rng.pick(n["values"]), "pos": rng.randrange(0, 5)}


def gen(rng, tier):
    spec = jtlib.rand_large(rng) if rng.chance(0.03) else nets.rand_spec(rng, max_n=7, max_card=4, max_joint=800, max_family=48)
    salt = rng.randrange(1, 2 ** 31)
    ops = jtlib.rand_ops(rng, spec, rng.weighted([(rng.randrange(1, 5), 3), (rng.randrange(4, 14), 2)]))
    if all(o["op"] == "query" for o in ops):
        ops.append(jtlib.rand_op(rng, spec, queries=False))

    def body(step):
        from pybbn.pptc.inferencecontroller import InferenceController
        jt = InferenceController.apply(nets.build(spec))
        for op in ops:
            step(jtlib.prepare(jt, spec, op) if op["op"] != "query" else (lambda: jtlib.query(jt, spec, op)))
    ns = measure(salt, body)
    ops = [dict(o) for o in ops]
    for k, op in enumerate(ops):
        c = rng.random()
        n = ns[k] if k < len(ns) else 1000
        if c < 0.45 and op["op"] != "query":
            op["cut"] = [rng.pick(sorted(FAULTS)), place(rng, n)]
            op["retry"] = rng.choice([True, "same", "same", False])
        elif c < 0.53:
            op["cut"] = [rng.pick(sorted(FAULTS)), place(rng, n)]
        elif c < 0.68 and op["op"] == "update":
            op["bad"] = bad_evidence(rng, spec)
            op["retry"] = rng.choice([True, "same", "same", False])
        elif c < 0.78 and op["op"] != "query":
            op["listener"] = rng.choice(["before", "after", "middle"])
            op["retry"] = rng.choice([True, "same", "same", False])
    return {"spec": spec, "salt": salt, "ops": ops}


class Listener:
    """A user's listener: drives inference, and fails when told to."""

    def __init__(self, inner):
        self.inner = inner
        self.mode = None
        self.calls = 0

    def _go(self, f, jt):
        self.calls += 1
        mode, self.mode = self.mode, None
        if mode == "before":
            raise ListenerFailed("before")
        if mode == "middle":
            from pybbn.pptc.initializer import Initializer
            Initializer.initialize(jt)
            raise ListenerFailed("middle")
        f(jt)
        if mode == "after":
            raise ListenerFailed("after")

    def evidence_retracted(self, jt):
        self._go(self.inner.evidence_retracted, jt)

    def evidence_updated(self, jt):
        self._go(self.inner.evidence_updated, jt)


def with_bad(jt, spec, op):
    """The same batch with one invalid piece of evidence in it."""
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    b = op["bad"]
    evs = [jtlib.make_evidence(jt, spec, e) for e in op["ev"]]
    node = jtlib.get_node(jt, spec, b["id"], "id")
    how = b["how"]
    if how == "value":
        x = EvidenceBuilder().with_node(node).with_evidence("no such value", 1.0).build()
    elif how == "extra":
        x = EvidenceBuilder().with_node(node).with_type(EvidenceType.VIRTUAL).with_evidence(b["v"], 0.25).with_evidence("no such value", 0.5).build()
    elif how == "node":
        stranger = BbnNode(Variable(987654, "stranger", ["on", "off"]), [0.5, 0.5])
        x = EvidenceBuilder().with_node(stranger).with_evidence("on", 1.0).build()
    elif how == "text":
        x = EvidenceBuilder().with_node(node).with_type(EvidenceType.VIRTUAL).with_evidence(b["v"], "high").build()
    elif how == "nonode":
        x = EvidenceBuilder().with_evidence(b["v"], 1.0).build()
    else:
        x = None
    evs.insert(min(b["pos"], len(evs)), x)
    return lambda: jt.update_evidences(evs)


def uniq(states):
    out, seen = [], set()
    for s in states:
        k = repr(sorted((i, sorted(m.items())) for i, m in s.items()))
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def run(plan, ctx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = plan["spec"]
    jt = InferenceController.apply(nets.build(spec))
    lst = Listener(InferenceController())
    jt.set_listener(lst)
    o = jtlib.Oracle(spec)
    cands = [{}]

    def look(op, what):
        nonlocal cands
        got = jtlib.query(jt, spec, op)
        ctx.step()
        fit = [s for s in cands if o.compare(got, s) is None]
        ctx.ev(what, len(cands), len(fit))
        if not fit:
            ctx.fail("atomicity" if len(cands) > 1 else "posterior",
                     f"{what}: the answers fit none of {cands}: {'; '.join(str(o.compare(got, s)) for s in cands)}")
        if len(got) == len(spec["nodes"]):
            cands = fit

    held = [None]
    tagged = {}

    def attempt(op, faulty):
        """Performs op; returns the exception or None."""
        nonlocal cands
        new = [jtlib.model_apply(spec, s, op) for s in cands]
        try:
            if faulty and "bad" in op:
                call = with_bad(jt, spec, op)
                held[0] = None
            elif not faulty and op["retry"] == "same" and held[0] is not None:
                # the very evidence objects of the failed attempt
                call = held[0]
                ctx.count("retried with the same evidence objects")
            else:
                call = held[0] = jtlib.prepare(jt, spec, op, tagged)
            if faulty and "listener" in op:
                lst.mode = op["listener"]
            if faulty and "cut" in op:
                with Steps(ctx, at=op["cut"][1], kind=op["cut"][0]) as st:
                    call()
            elif ctx.step_limit:
                with Steps(ctx):
                    call()
            else:
                call()
            err = None
        except BaseException as e:
            if not (is_injected(e) or isinstance(e, ListenerFailed) or (faulty and "bad" in op and isinstance(e, Exception))):
                raise
            err = e
        finally:
            lst.mode = None
        if err is not None:
            cands = uniq(cands + new)
            if isinstance(err, ListenerFailed):
                ctx.count("fault:listener failure")
            elif faulty and "bad" in op and not is_injected(err):
                ctx.count("fault:invalid evidence")
        elif faulty and "bad" in op:
            cands = uniq(cands + new)
            ctx.count("invalid evidence accepted")
        else:
            cands = new
        ctx.ev(op["op"], type(err).__name__ if err else "done", len(cands))
        return err

    for k, op in enumerate(plan["ops"]):
        jtlib.check_op_fits(spec, op)
        ctx.step()
        ctx.count("op " + op["op"])
        if op["op"] == "query":
            if "cut" in op:
                try:
                    with Steps(ctx, at=op["cut"][1], kind=op["cut"][0]):
                        jtlib.query(jt, spec, op)
                except BaseException as e:
                    if not is_injected(e):
                        raise
                    ctx.count("query cut short")
            look(op, f"query {k}")
            continue
        err = attempt(op, True)
        if err is not None:
            ctx.count("failed operations")
            if op.get("retry"):
                if op["op"] != "set" or len(cands) == 1:
                    err2 = attempt(op, False)
                    if err2 is not None:
                        raise err2
                    if op["op"] != "set":
                        cands = [jtlib.model_apply(spec, s, op) for s in cands]
                        cands = uniq(cands)
                    ctx.count("retried")
            if plan["salt"] % 3:
                look(None, f"after the fault in operation {k}")
    look(None, "at the end")
    jt.unobserve_all()
    cands = [{}]
    look(None, "after retracting everything")
    simset.reset(plan["salt"])


def nontrivial(ctx):
    return "failed operations" in ctx.counts or "query cut short" in ctx.counts


def shrink(plan):
    for ops in jtlib.shrink_ops(plan["ops"]):
        yield dict(plan, ops=ops)
    for k, op in enumerate(plan["ops"]):
        for f in ("cut", "bad", "listener", "retry"):
            if f in op:
                yield dict(plan, ops=plan["ops"][:k] + [{a: b for a, b in op.items() if a != f}] + plan["ops"][k + 1:])
        if "cut" in op:
            for at in (1, 10, 100, op["cut"][1] // 2, op["cut"][1] - 1):
                if 0 < at < op["cut"][1]:
                    yield dict(plan, ops=plan["ops"][:k] + [dict(op, cut=[op["cut"][0], at])] + plan["ops"][k + 1:])
    for s in nets.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    if plan["salt"] != 1:
        yield dict(plan, salt=1)
