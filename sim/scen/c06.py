"""C06: a file cut short is never taken for a complete network."""
import os
import shutil
import tempfile

from .. import nets, zygote
from ..core import FAULTS, is_injected
from ..fs import FaultFS, SimCrash
from ..trace import Steps
from . import iolib
from .rehearse import place

PROP = "C06"
ZYGOTE = True
TORN_CSV = "csv-prefix"


def gen(rng, tier):
    fmt = rng.choice(["json", "json", "csv"])
    tenths = rng.chance(0.35)
    if tenths:
        spec = nets.rand_spec(rng, max_n=6, styles=["tenths"], max_joint=500, odd=fmt != "csv")
    else:
        spec = iolib.rand_net(rng, fmt, rng.chance(0.08))
    prev = rng.choice(["none", "other", "variant", "variant"])
    if prev == "other":
        prev = iolib.rand_net(rng, fmt)
    elif prev == "variant":
        prev = nets.with_cpts(spec, nets.rand_cpts(rng, spec, styles=["tenths"] if tenths else None, share=0.7))
    else:
        prev = None
    size = iolib.est_size(spec, fmt)
    w = iolib.rand_writes(rng, size, False)
    mode = rng.weighted([("crash", 5), ("full", 2), ("reader", 4), ("interrupt", 1)])
    plan = {"fmt": fmt, "spec": spec, "prev": prev, "w": w, "mode": mode, "r": iolib.rand_reads(rng, False)}
    # where to cut, as a share of the complete file; the ends get extra weight
    at = rng.weighted([(rng.random(), 6), (0.0, 1), (-rng.randrange(1, 8), 3)])
    if mode == "crash":
        plan["at"] = at
        if rng.chance(0.3):
            w["power"] = rng.choice([0.0, 0.5, 0.9, rng.random()])
    elif mode == "full":
        plan["at"] = at
    elif mode == "reader":
        w["wbuf"] = rng.choice([16, 64, 256])
        w["chunk"] = rng.choice([1, 16, 200])
        plan["points"] = sorted({rng.logint(1, 60) for _ in range(rng.randrange(1, 5))})
    else:
        plan["cut"] = [rng.pick(sorted(FAULTS)), place(rng, 40 + 6 * len(spec["nodes"]))]
    return plan


def csv_rows(text):
    """What the rows of a (torn) file say, read by the format alone. None: they make no sense."""
    nodes, edges = {}, []
    try:
        for line in text.split("\n"):
            if not line:
                continue
            f = line.split(",")
            if len(f) == 3:
                edges.append((int(f[0]), int(f[1])))
                continue
            left, right = line.split("|")[:2]
            left = [x.strip() for x in left.split(",") if x.strip()]
            right = [x.strip() for x in right.split(",") if x.strip()]
            nodes[int(left[0])] = [left[1], left[2:], [float(p).hex() for p in right], []]
        for pa, ch in edges:
            nodes[pa]
            if pa not in nodes[ch][3]:
                nodes[ch][3].append(pa)
    except (ValueError, IndexError, KeyError):
        return None
    return {str(i): d for i, d in nodes.items()}


def run(plan, ctx):
    root = tempfile.mkdtemp(prefix="c06-")
    try:
        inner(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def inner(plan, ctx, root):
    fmt, spec = plan["fmt"], plan["spec"]
    path = os.path.join(root, "net." + fmt)
    whole = os.path.join(root, "whole." + fmt)
    new = iolib.describe_spec(spec)
    old = None
    bbn = nets.build(spec)
    iolib.save(bbn, fmt, whole)
    with open(whole, "rb") as f:
        full = f.read()
    os.remove(whole)
    if plan["prev"] is not None:
        old = iolib.describe_spec(plan["prev"])
        iolib.save(nets.build(plan["prev"]), fmt, path)

    def look(what):
        if not os.path.exists(path):
            ctx.ev(what, "no file")
            ctx.count("no file yet")
            return
        with open(path, "rb") as f:
            data = f.read()
        r = zygote.call("load_net", path, fmt, root, plan["r"], False)
        ctx.count("fault:restart" if what != "reader" else "fault:concurrent read")
        if "ok" not in r:
            # views that disagree, or a death of the process
            ctx.fail("load", f"{what}: {r}")
        r = r["ok"]
        for c, n in r["counts"].items():
            ctx.count(c, n)
        ctx.step(r["steps"])
        ctx.ev(what, len(data), r["raised"].split(":")[0] if r["raised"] else "loaded")
        if data != full and full.startswith(data):
            ctx.count("torn files loaded")
        if r["raised"] is not None:
            ctx.count("torn file rejected")
            if data == full:
                ctx.fail("rejected", f"{what}: the complete file was rejected: {r['raised']}")
            return
        net = r["net"]
        if net == new:
            ctx.count("new network loaded")
            return
        if net == old:
            ctx.count("previous network loaded")
            return
        if fmt == "csv" and TORN_CSV in ctx.listed and full.startswith(data) and net == csv_rows(data.decode(errors="replace")):
            ctx.known.append((TORN_CSV, ctx.listed[TORN_CSV]))
            ctx.count("known finding: torn CSV loaded")
            return
        ctx.fail("other network", f"{what}: {len(data)} of {len(full)} bytes of {fmt} were loaded as another network: "
                                  f"{iolib.diff(net, new)}")

    w = dict(plan["w"])
    mode = plan["mode"]
    if mode in ("crash", "full"):
        at = plan["at"]
        at = int(at * len(full)) if at >= 0 and at < 1 else max(0, len(full) + int(at))
        w["crash_at" if mode == "crash" else "capacity"] = at
    points = set(plan.get("points") or [])
    seen = [0]

    def point(what):
        seen[0] += 1
        if seen[0] in points:
            look("reader")

    try:
        with FaultFS(ctx, root, w, point if mode == "reader" else None) as fs:
            if mode == "interrupt":
                with Steps(ctx, at=plan["cut"][1], kind=plan["cut"][0]):
                    iolib.save(bbn, fmt, path)
            else:
                iolib.save(bbn, fmt, path)
    except SimCrash:
        ctx.count("crashed while saving")
    except OSError:
        if fs.failed is None:
            raise
        ctx.count("save failed")
    except BaseException as e:
        if not is_injected(e):
            raise
    look("after " + mode)
    # life goes on: a later complete save must be readable whatever lies there
    iolib.save(bbn, fmt, path)
    r = zygote.call("load_net", path, fmt, root, {}, False)
    ctx.check("ok" in r and r["ok"].get("net") == new, "recovery", lambda: f"after {mode}, saving again and loading gives {r}")
    ctx.sig.append((fmt, mode, fs.nw, fs.written, plan["prev"] is not None, len(full)))


def nontrivial(ctx):
    return "torn files loaded" in ctx.counts or "fault:concurrent read" in ctx.counts


def shrink(plan):
    if plan["prev"] is not None:
        yield dict(plan, prev=None)
    for f in plan["w"]:
        yield dict(plan, w={a: b for a, b in plan["w"].items() if a != f})
    for f in plan["r"]:
        yield dict(plan, r={a: b for a, b in plan["r"].items() if a != f})
    if len(plan.get("points") or []) > 1:
        for k in range(len(plan["points"])):
            yield dict(plan, points=plan["points"][:k] + plan["points"][k + 1:])
    for s in nets.shrink_spec(plan["spec"]):
        p = plan["prev"]
        if p is not None and [n["id"] for n in p["nodes"]] == [n["id"] for n in plan["spec"]["nodes"]]:
            continue
        yield dict(plan, spec=s)
