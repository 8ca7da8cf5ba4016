"""Saving, loading in another process, and what must come back."""
import os

from .. import nets
from ..core import Ctx, Inapplicable
from ..fs import FaultFS
from ..zygote import func

AWKWARD = ['quo"te', "com,ma", "back\\slash", "new\nline", "üml", "日本", " lead", "tab\t", "{brace}", "null", "", "|", "1e5", "'x'", "\udce9", "v\x0bt", "l\u2028s"]
AWKWARD_CSV = ["üml", "日本", "{brace}", "null", "1e5", "in ner", "quo\"te", "a;b", "#x", "-1", "=2", "v\x0bt", "f\x0cf", "l\u2028s", "n\x85l", "f\x1cs", "nb\xa0sp"]


def unsavable(spec):
    """Texts the CSV format, which has no quoting, cannot hold."""
    return [s for n in spec["nodes"] for s in [n["name"]] + n["values"] if s == "" or s != s.strip() or any(c in ",|\r\n" or "\ud800" <= c <= "\udfff" for c in s)]


def rand_net(rng, fmt, big=False, unfit=False):
    """unfit: also networks that the format cannot hold."""
    odd = fmt != "csv" or unfit
    if big == "huge":
        # more than fits into any one buffer
        c = rng.choice([2, 3, 5])
        n = {2: 13, 3: 9, 5: 6}[c] - rng.randrange(2)
        spec = nets.rand_spec(rng, n=n, max_joint=10 ** 30, max_family=10 ** 5, max_pa=n, structures=["starin"], cards=[c] * n, odd=odd)
    elif big:
        n = rng.randrange(20, 60)
        spec = nets.rand_spec(rng, n=n, max_joint=10 ** 30, max_card=rng.choice([2, 4]), ids=rng.shuffled(range(100))[:n], odd=odd)
    else:
        spec = nets.rand_spec(rng, max_n=9, max_joint=1500, odd=odd)
    if rng.chance(0.35):
        pool = AWKWARD_CSV if fmt == "csv" and not (unfit and rng.chance(0.4)) else AWKWARD
        for n in rng.sample(spec["nodes"], max(1, len(spec["nodes"]) // 3)):
            if rng.chance(0.5):
                name = rng.pick(pool)
                if all(m["name"] != name for m in spec["nodes"]) and name:
                    n["name"] = name
            else:
                v = rng.pick(pool)
                if v not in n["values"]:
                    n["values"][rng.randrange(len(n["values"]))] = v
    if rng.chance(0.25):
        n = rng.pick(spec["nodes"])
        k = len(n["values"])
        for r in range(0, len(n["probs"]), k):
            row = [rng.choice([5e-324, 1e-300, 2.2250738585072014e-308, 1e-17, 0.0]) for _ in range(k)]
            row[rng.randrange(k)] = 1.0
            n["probs"][r:r + k] = row
    if unfit and rng.chance(0.08):
        # tables written by hand, whose rows do not quite add up to one
        for n in rng.sample(spec["nodes"], rng.randrange(1, len(spec["nodes"]) + 1)):
            d = rng.choice([1, 2, 3, 6])
            n["probs"] = [round(p, d) or 10.0 ** -d for p in n["probs"]]
    return spec


def adds_up(spec):
    for n in spec["nodes"]:
        k = len(n["values"])
        if any(abs(sum(n["probs"][r:r + k]) - 1) > 1e-9 for r in range(0, len(n["probs"]), k)):
            return False
    return True


def describe_spec(spec):
    return {str(n["id"]): [n["name"], n["values"], [float(p).hex() for p in n["probs"]], n["parents"]] for n in spec["nodes"]}


def describe(bbn):
    """Everything a user can see of a network, as plain JSON; raises if its views disagree."""
    out = {}
    for node in bbn.get_nodes():
        v = node.variable
        pas = [int(p) for p in bbn.parents.get(node.id, [])]
        if sorted(pas) != sorted(bbn.get_parents(node.id)) or sorted(pas) != list(bbn.get_parents_ordered(node.id)):
            raise AssertionError(f"views of the parents of {node.id} disagree")
        out[str(int(node.id))] = [v.name, list(v.values), [float(p).hex() for p in node.probs], pas]
    es = sorted([int(e.i.id), int(e.j.id)] for e in bbn.get_edges())
    if es != sorted([p, int(c)] for c, d in out.items() for p in d[3]):
        raise AssertionError("views of the edges disagree")
    return out


def save(bbn, fmt, path):
    from pybbn.graph.dag import Bbn
    if fmt == "csv":
        Bbn.to_csv(bbn, path)
    else:
        Bbn.to_json(bbn, path)


@func
def load_net(path, fmt, root, io, infer):
    """Runs in a fresh process."""
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    from .jtlib import query
    ctx = Ctx()
    out = {"counts": ctx.counts, "failed": None, "raised": None}
    with FaultFS(ctx, root, io) as fs:
        try:
            bbn = Bbn.from_csv(path) if fmt == "csv" else Bbn.from_json(path)
        except Exception as e:
            from ..core import blame
            out.update(raised=f"{type(e).__name__}: {e}"[:300], failed=fs.failed, blame=blame(e), steps=ctx.steps)
            return out
    out["failed"] = fs.failed
    out["steps"] = ctx.steps
    out["net"] = describe(bbn)
    if infer:
        out["posteriors"] = query(InferenceController.apply(bbn), None)
    return out


@func
def load_jt(path):
    import json
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    from .jtlib import query
    with open(path) as f:
        d = json.load(f)
    jt = InferenceController.apply_from_serde(JoinTree.from_dict(d))
    return {"posteriors": query(jt, None), "cliques": sorted(sorted(c.get_node_ids()) for c in jt.get_cliques()),
            "probs": {str(n.id): [float(p).hex() for p in n.probs] for n in jt.get_bbn_nodes()}}


def rand_writes(rng, size, failing=True):
    p = {}
    if rng.chance(0.6):
        p["short_w"] = [rng.logint(1, 400) for _ in range(rng.randrange(1, 4))]
    if rng.chance(0.5):
        p["wbuf"] = rng.choice([1, 7, 16, 64, 512, 8192])
    if rng.chance(0.4):
        p["chunk"] = rng.choice([1, 32, 200, 8192])
    if rng.chance(0.4):
        p["eintr_w"] = [rng.randrange(0, 12) for _ in range(rng.randrange(1, 5))]
    if failing:
        c = rng.random()
        if c < 0.3:
            p["err_w"] = [rng.logint(1, 20) - 1, rng.choice(["EIO", "ENOSPC", "EDQUOT", "EPIPE"]), rng.choice([0, 0, 1, 10])]
        elif c < 0.6:
            p["capacity"] = rng.randrange(0, size + 5)
        elif c < 0.8:
            p["close_err"] = rng.choice(["EIO", "ENOSPC"])
    return p


def rand_reads(rng, failing=True):
    p = {}
    if rng.chance(0.6):
        p["short_r"] = [rng.logint(1, 400) for _ in range(rng.randrange(1, 4))]
    if rng.chance(0.5):
        p["rbuf"] = rng.choice([1, 7, 64, 512, 8192])
    if rng.chance(0.4):
        p["chunk"] = rng.choice([16, 200, 8192])
    if rng.chance(0.4):
        p["eintr_r"] = [rng.randrange(0, 12) for _ in range(rng.randrange(1, 5))]
    if failing and rng.chance(0.3):
        p["err_r"] = [rng.logint(1, 8) - 1, "EIO"]
    return p


def est_size(spec, fmt):
    n = sum(len(str(p)) + 8 for x in spec["nodes"] for p in x["probs"])
    return n + 90 * len(spec["nodes"]) + 40 * len(spec["edges"]) if fmt == "json" else n // 2 + 20 * len(spec["nodes"])


def diff(got, want):
    for i in sorted(set(got) | set(want)):
        if got.get(i) != want.get(i):
            return f"node {i} is {got.get(i)}, should be {want.get(i)}"
    return None
