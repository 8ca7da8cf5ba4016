"""C05: what was saved comes back exactly; a failed save or load is reported."""
import json
import os
import shutil
import tempfile

import numpy as np

from .. import nets, zygote
from ..core import Inapplicable
from ..fs import FaultFS
from . import c04, iolib, jtlib

PROP = "C05"
ZYGOTE = True


def gen(rng, tier):
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.weighted([("json", 5), ("csv", 5), ("gen", 3), ("jt", 2)])
        last = [x for x in steps if x["kind"] == "bbn"][-1:]
        if last and not last[0]["big"] and rng.chance(0.5):
            steps.append(successor(rng, last[0], steps))
            continue
        if kind == "gen":
            st = {"kind": "gen", "fmt": rng.choice(["json", "csv"]), "n": rng.weighted([(1, 1), (2, 1), (rng.randrange(3, 9), 6), (rng.randrange(20, 50), 1)]),
                  "type": rng.choice(["singly", "multi"]), "max_iter": rng.randrange(0, 20), "max_values": rng.randrange(1, 5),
                  "max_alpha": rng.choice([1, 3, 10]), "seed": rng.randrange(2 ** 32)}
            size = 150 * st["n"]
        elif kind == "jt":
            spec = iolib.rand_net(rng, "json")
            st = {"kind": "jt", "spec": spec, "ops": jtlib.rand_ops(rng, spec, rng.randrange(0, 3), queries=False),
                  "cpts": nets.rand_cpts(rng, spec) if rng.chance(0.3) else None}
            size = 0
        else:
            big = rng.weighted([(False, 88), (True, 10), ("huge", 2)])
            st = {"kind": "bbn", "fmt": kind, "spec": iolib.rand_net(rng, kind, big, unfit=True), "big": big}
            size = iolib.est_size(st["spec"], kind)
        st["path"] = rng.randrange(2)
        st["w"] = iolib.rand_writes(rng, size, rng.chance(0.45))
        st["r"] = iolib.rand_reads(rng, rng.chance(0.5))
        steps.append(st)
    return {"steps": steps}


def successor(rng, last, steps):
    """The network of an earlier step, edited since; or another one whose file has much the same size."""
    spec = cur(steps) if steps[-1]["kind"] == "again" else last["spec"]
    st = {"fmt": rng.choice(["json", "csv", last["fmt"]]), "big": False, "path": last["path"], "r": iolib.rand_reads(rng, rng.chance(0.2))}
    if rng.chance(0.5):
        st.update(kind="again", edits=[])
        for _ in range(rng.choice([0, 1, 1, 2])):
            e = c04.rand_edit(rng, spec)
            if e is not None:
                spec = c04.edit_spec(spec, e)
                st["edits"].append(e)
    else:
        st.update(kind="bbn", spec=nets.decoy(rng, spec) if rng.chance(0.5) else permuted(rng, spec), fmt=last["fmt"])
        spec = st["spec"]
    st["w"] = iolib.rand_writes(rng, iolib.est_size(spec, st["fmt"]), rng.chance(0.2))
    return st


def permuted(rng, spec):
    """The same texts and numbers at other places."""
    nodes = [dict(n, values=list(n["values"]), probs=list(n["probs"])) for n in spec["nodes"]]
    for n in rng.sample(nodes, rng.randrange(1, len(nodes) + 1)):
        k = len(n["values"])
        rows = [n["probs"][i:i + k] for i in range(0, len(n["probs"]), k)]
        how = rng.randrange(3)
        if how == 0:
            n["values"] = n["values"][::-1]
        elif how == 1:
            n["probs"] = [p for r in rows[::-1] for p in r]
        else:
            n["probs"] = [p for r in rows for p in r[::-1]]
    return {"nodes": nodes, "edges": spec["edges"]}


def cur(steps):
    """The network of the last step, as the edits have left it."""
    spec = None
    for st in steps:
        if st["kind"] == "bbn":
            spec = st["spec"]
        elif st["kind"] == "again":
            if spec is None:
                raise Inapplicable("nothing to edit")
            for e in st["edits"]:
                spec = c04.edit_spec(spec, e)
    return spec


def run(plan, ctx):
    live = [None]
    root = tempfile.mkdtemp(prefix="c05-")
    try:
        for k, st in enumerate(plan["steps"]):
            one(k, st, ctx, root, plan, live)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def one(k, st, ctx, root, plan, live):
    from pybbn.generator import bbngenerator as g
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    ctx.step()
    if st["kind"] == "jt":
        spec = st["spec"]
        bbn = nets.build(spec)
        jt = InferenceController.apply(bbn)
        if st["cpts"]:
            nets.check_cpts_fit(spec, st["cpts"])
            jt = InferenceController.reapply(jt, {i: p for i, p in st["cpts"]})
        for op in st["ops"]:
            jtlib.check_op_fits(spec, op)
            jtlib.prepare(jt, spec, op)()
        text = json.dumps(JoinTree.to_dict(jt, bbn))
        path = os.path.join(root, "jt.json")
        with open(path, "w") as f:
            f.write(text)
        r = zygote.call("load_jt", path)
        ctx.check("ok" in r, "load", lambda: f"restoring the join tree in another process: {r}")
        spec = nets.with_cpts(spec, st["cpts"])
        r = r["ok"]
        want = {str(n["id"]): [float(p).hex() for p in n["probs"]] for n in spec["nodes"]}
        ctx.check(r["probs"] == want, "tables", lambda: f"tables {r['probs']} instead of {want}")
        cl = sorted(sorted(c.get_node_ids()) for c in jt.get_cliques())
        ctx.check(r["cliques"] == cl, "cliques", lambda: f"cliques {r['cliques']} instead of {cl}")
        bad = nets.compare_posteriors(r["posteriors"], nets.reference(spec).posteriors())
        ctx.check(bad is None, "posterior", bad or "")
        ctx.count("restored join trees")
        ctx.count("fault:restart")
        ctx.ev(k, "jt", jtlib.dists(r["posteriors"]))
        return
    fmt = st["fmt"]
    path = os.path.join(root, f"net{st['path']}.{fmt}")
    spec = None
    if st["kind"] == "gen":
        np.random.seed(st["seed"])
        f = g.generate_singly_bbn if st["type"] == "singly" else g.generate_multi_bbn
        bbn = g.convert_for_exact_inference(*f(st["n"], max_iter=st["max_iter"], max_values=st["max_values"], max_alpha=st["max_alpha"]))
        want = iolib.describe(bbn)
        np.random.seed(st["seed"])

        def save():
            g.generate_bbn_to_file(st["n"], path, bbn_type=st["type"], max_iter=st["max_iter"], max_values=st["max_values"],
                                   max_alpha=st["max_alpha"])
    else:
        spec = cur(plan["steps"][:k + 1])
        if st["kind"] == "bbn":
            bbn = live[0] = nets.build(spec)
        else:
            bbn = live[0]
            for e in st["edits"]:
                c04.edit_bbn(bbn, e)
            ctx.count("networks saved again" + (" after edits" if st["edits"] else ""))
        want = iolib.describe_spec(spec)

        def save():
            iolib.save(bbn, fmt, path)
    if os.path.exists(path):
        ctx.count("overwrites")
    err = None
    with FaultFS(ctx, root, st["w"]) as fs:
        try:
            save()
        except OSError as e:
            if fs.failed is None:
                raise
            err = e
        except ValueError as e:
            # refusing what the format cannot hold is a reported failure
            if fmt != "csv" or spec is None or not iolib.unsavable(spec):
                raise
            err = e
    if isinstance(err, ValueError):
        ctx.count("networks refused by CSV")
        ctx.ev(k, "refused")
        ctx.sig.append(("csv", "refused", iolib.unsavable(spec)))
        return
    if not fs.opened:
        ctx.count("saves that bypass the simulated disk")
    if fs.failed is not None:
        ctx.check(err is not None, "silent failure", lambda: f"{fs.failed} while saving as {fmt}, but the save returned normally")
        ctx.count("reported failures")
        ctx.ev(k, fmt, "save failed", fs.failed)
        ctx.sig.append((fmt, "failed", fs.failed, fs.nw))
        return
    ctx.ev(k, fmt, "saved", os.path.getsize(path), fs.nw)
    small = len(want) <= 12 and spec is not None and st["big"] != "huge"
    r = zygote.call("load_net", path, fmt, root, st["r"], small)
    ctx.check("ok" in r, "load", lambda: f"loading {fmt} in another process: {r}")
    r = r["ok"]
    for c, n in r["counts"].items():
        ctx.count(c, n)
    ctx.step(r["steps"])
    ctx.count("fault:restart")
    if r["failed"]:
        ctx.check(r["raised"] is not None, "silent failure", lambda: f"{r['failed']} while loading {fmt}, but the load returned normally")
        ctx.count("reported failures")
        ctx.ev(k, "load failed", r["failed"])
        ctx.sig.append((fmt, "load failed", r["failed"]))
        return
    ctx.check(r["raised"] is None, "load", lambda: f"loading the {fmt} raised {r['raised']}")
    bad = iolib.diff(r["net"], want)
    ctx.check(bad is None, "content", lambda: f"loaded from {fmt}: {bad}")
    if small:
        p = nets.reference(spec).posteriors()
        if not iolib.adds_up(spec):
            ctx.count("tables that do not quite add up")
        elif p is not None:
            bad = nets.compare_posteriors(r["posteriors"], p)
            ctx.check(bad is None, "posterior", lambda: f"loaded from {fmt}: {bad}")
    ctx.count(f"exact round trips ({fmt})")
    ctx.sig.append((fmt, st["kind"], fs.nw, sorted(st["w"]), sorted(st["r"]), sorted((len(d[1]), len(d[3])) for d in want.values())))


def nontrivial(ctx):
    return any(k.startswith("fault:") for k in ctx.counts)


def shrink(plan):
    s = plan["steps"]
    for k in range(len(s)):
        if len(s) > 1:
            yield dict(plan, steps=s[:k] + s[k + 1:])
        for io in ("w", "r"):
            for f in s[k][io]:
                yield dict(plan, steps=s[:k] + [dict(s[k], **{io: {a: b for a, b in s[k][io].items() if a != f}})] + s[k + 1:])
        if s[k]["kind"] == "gen":
            for n in (1, 2, 3):
                if n < s[k]["n"]:
                    yield dict(plan, steps=s[:k] + [dict(s[k], n=n)] + s[k + 1:])
        elif s[k]["kind"] == "again":
            for j in range(len(s[k]["edits"])):
                yield dict(plan, steps=s[:k] + [dict(s[k], edits=s[k]["edits"][:j] + s[k]["edits"][j + 1:])] + s[k + 1:])
        else:
            for sp in nets.shrink_spec(s[k]["spec"]):
                yield dict(plan, steps=s[:k] + [dict(s[k], spec=sp)] + s[k + 1:])
