"""C19: saves and loads made at the same time do not mix."""
import json
import os
import shutil
import tempfile

from .. import nets
from ..fs import FaultFS
from ..trace import Scheduler, make_schedule
from . import iolib
from .jtlib import query

PROP = "C19"
NAMES = ["net", "net1", "a/net", "b/net", "net.old", "NET", "a/b/net", "n\xe9t", "net 1", ".net"]


def gen(rng, tier):
    odd = rng.chance(0.5)
    first = iolib.rand_net(rng, "json" if odd else "csv")
    specs = [first]
    for _ in range(rng.randrange(1, 3)):
        if rng.chance(0.6):
            specs.append(nets.with_cpts(first, nets.rand_cpts(rng, first)))
        else:
            specs.append(iolib.rand_net(rng, "json" if odd else "csv"))
    names = rng.sample(NAMES, rng.randrange(1, 4))
    files = [[n, f] for n in names for f in (["json", "tree"] if odd else ["json", "csv", "tree"])]
    files = rng.shuffled(files)
    k = rng.randrange(2, 5)
    common = []
    if len(files) > k and rng.chance(0.6):
        common = [files.pop() + [rng.randrange(len(specs))]]
    if rng.chance(0.5):
        # nobody's file but one of the same name in another format or place
        files.sort(key=lambda x: (names.index(x[0]), x[1]))
    own = [[] for _ in range(k)]
    for j, f in enumerate(files):
        own[j % k].append(f)
    callers = []
    size = sum(len(s["nodes"]) for s in specs) // len(specs)
    for c in range(k):
        events = []
        if not own[c]:
            own[c].append([f"own{c}", "json"])
        for _ in range(rng.randrange(1, 5)):
            what = rng.weighted([("save", 5), ("load", 3), ("common", 2 if common else 0), ("dict", 1)])
            if what == "save" or not events:
                events.append({"do": "save", "file": rng.randrange(len(own[c])), "net": rng.randrange(len(specs))})
            elif what == "dict":
                events.append({"do": "dict", "net": rng.randrange(len(specs))})
            elif what == "common":
                events.append({"do": "common"})
            else:
                events.append({"do": "load", "file": rng.pick([e["file"] for e in events if e["do"] == "save"])})
        callers.append(events)
    opcodes = rng.chance(0.4)
    total = sum(len(e) for e in callers) * (40 + 14 * size) * (8 if opcodes else 1)
    sw, period = make_schedule(rng, total, k)
    w = dict(iolib.rand_writes(rng, 1000, False), **iolib.rand_reads(rng, False))
    if rng.chance(0.25):
        w["err_w"] = [rng.logint(1, 40) - 1, rng.choice(["EIO", "ENOSPC"]), rng.choice([0, 1, 10])]
    elif rng.chance(0.1):
        w["err_r"] = [rng.logint(1, 20) - 1, "EIO"]
    elif rng.chance(0.1):
        w["close_err"] = "EIO"
    return {"specs": specs, "own": own, "common": common, "callers": callers, "w": w, "salt": rng.randrange(2 ** 32),
            "threads": {"switches": sw, "period": period, "opcodes": opcodes}}


def save(net, tree, fmt, path):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    if fmt == "csv":
        Bbn.to_csv(net, path)
    elif fmt == "json":
        Bbn.to_json(net, path)
    else:
        d = JoinTree.to_dict(tree, net)
        with open(path, "w") as f:
            json.dump(d, f)


def load(fmt, path):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    if fmt == "csv":
        return Bbn.from_csv(path)
    if fmt == "json":
        return Bbn.from_json(path)
    with open(path) as f:
        d = json.load(f)
    return JoinTree.from_dict(d)


def run(plan, ctx):
    root = tempfile.mkdtemp(prefix="c19-")
    try:
        inner(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def inner(plan, ctx, root):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    specs = plan["specs"]
    built = [nets.build(s) for s in specs]
    trees = [InferenceController.apply(b) for b in built]
    want = [iolib.describe_spec(s) for s in specs]
    refs = [nets.reference(s) for s in specs]

    def where(f):
        p = os.path.join(root, f[0] + "." + f[1])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    for f in plan["own"]:
        for x in f:
            where(x)
    for f in plan["common"]:
        save(built[f[2]], trees[f[2]], f[1], where(f))
    results = []         # (caller, what, fmt, expected network, object)
    state = {}           # (caller, file) -> network; None: a save failed
    broken = []

    def work(c):
        for k, e in enumerate(plan["callers"][c]):
            try:
                if e["do"] == "save":
                    f = plan["own"][c][e["file"]]
                    state[c, e["file"]] = None
                    save(built[e["net"]], trees[e["net"]], f[1], where(f))
                    state[c, e["file"]] = e["net"]
                elif e["do"] == "load":
                    f = plan["own"][c][e["file"]]
                    n = state.get((c, e["file"]))
                    if n is not None:
                        results.append((c, f"event {k}", f, n, load(f[1], where(f))))
                elif e["do"] == "common":
                    f = plan["common"][0]
                    results.append((c, f"event {k}", f, f[2], load(f[1], where(f))))
                else:
                    d = json.loads(json.dumps(Bbn.to_dict(built[e["net"]])))
                    results.append((c, f"event {k}", ["dictionary", "json"], e["net"], Bbn.from_dict(d)))
            except OSError as x:
                if "injected" not in str(x):
                    raise
                broken.append((c, k))
                ctx.count("uses that failed")

    t = plan["threads"]
    s = Scheduler(ctx, [(lambda c=c: work(c)) for c in range(len(plan["callers"]))], t["switches"], t["period"], t["opcodes"])
    with FaultFS(ctx, root, plan["w"], s.point) as fs:
        _, errors = s.run()
    for c, x in enumerate(errors):
        if x is not None:
            ctx.fail("raised", f"caller {c}: {type(x).__name__}: {x}")
    ctx.check(len(broken) == (fs.failed is not None), "failure", lambda: f"one {fs.failed} was injected, {broken} were told")

    def judge(c, what, f, n, x):
        at = f"caller {c}, {what}, {f[0]}.{f[1]}"
        if f[1] == "tree":
            bad = nets.compare_posteriors(query(x if what == "shared" else InferenceController.apply_from_serde(x), None), refs[n].posteriors())
            ctx.check(bad is None, "mixed", lambda: f"{at}: {bad}")
        else:
            try:
                got = iolib.describe(x)
            except AssertionError as e:
                ctx.fail("mixed", f"{at}: {e}")
            ctx.check(got == want[n], "mixed", lambda: f"{at}: {iolib.diff(got, want[n])}")
        ctx.count("networks compared")
    for x in results:
        judge(*x)
    for (c, j), n in sorted(state.items()):
        if n is not None:
            f = plan["own"][c][j]
            judge(c, "in the end", f, n, load(f[1], where(f)))
            ctx.count("files compared")
    for f in plan["common"]:
        judge("-", "in the end", f, f[2], load(f[1], where(f)))
    for n, b in enumerate(built):
        ctx.check(iolib.describe(b) == want[n], "altered", lambda: f"network {n} was altered: {iolib.diff(iolib.describe(b), want[n])}")
        judge("-", "shared", ["the one saved", "tree"], n, trees[n])
    ctx.ev(len(results), fs.nw, fs.nr, len(s.trail), len(broken))
    ctx.sig.append(([[(e["do"], e.get("file"), e.get("net")) for e in c] for c in plan["callers"]], [x[:2] for x in plan["own"]]))


def nontrivial(ctx):
    return ctx.counts.get("context switches", 0) > 0 and ctx.counts.get("files compared", 0) > 0


def shrink(plan):
    cs = plan["callers"]
    for c in range(len(cs)):
        for k in range(len(cs[c])):
            yield dict(plan, callers=cs[:c] + [cs[c][:k] + cs[c][k + 1:]] + cs[c + 1:])
    for f in plan["w"]:
        yield dict(plan, w={a: b for a, b in plan["w"].items() if a != f})
    sw = plan["threads"]["switches"]
    for k in range(len(sw)):
        yield dict(plan, threads=dict(plan["threads"], switches=sw[:k] + sw[k + 1:]))
    for j, s in enumerate(plan["specs"]):
        for x in nets.shrink_spec(s):
            yield dict(plan, specs=plan["specs"][:j] + [x] + plan["specs"][j + 1:])
