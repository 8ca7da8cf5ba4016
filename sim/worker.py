"""One shard of a check, in a process of its own (with its own PYTHONHASHSEED).

python -m sim.worker shard  PROP SEED TIER START STEP TOTAL OUT
python -m sim.worker replay FILE OUT [limited]
python -m sim.worker shrink FILE OUT"""
import json
import os
import resource
import sys
import time
import traceback


def dump(path, obj):
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f)
    os.replace(path + ".tmp", path)


def merge(into, counts):
    for k, v in counts.items():
        into[k] = into.get(k, 0) + v


def shard(prop, seed, tier, start, step, total, out):
    from . import boot
    from .execute import execute, known_findings, plan_for, scenario
    boot.load()
    mod = scenario(prop)
    known = known_findings(prop)
    from . import zygote
    if getattr(mod, "ZYGOTE", False):
        zygote.start()
    t0 = time.monotonic()
    agg = {"runs": 0, "steps": 0, "counts": {}, "sigs": [], "nontrivial": 0, "known": {}, "digests": {},
           "samples": [], "violation": None, "error": None, "hang": None, "next": None, "inapplicable": 0}
    sigs = set()
    wall = int(os.environ.get("SIM_RUN_WALL", "60"))
    deadline = float(os.environ.get("SIM_DEADLINE", "1e18"))
    i = start
    while i < total:
        if time.time() > deadline:
            agg["next"] = i
            break
        try:
            plan = plan_for(mod, seed, i, tier)
        except BaseException as e:
            from .core import blame
            w = blame(e)
            if w is None:
                agg["error"] = f"generating run {i}: {traceback.format_exc()[-3000:]}"
                break
            # the rehearsal that places the faults failed inside the code under test
            plan = mod.fallback(seed, i) if hasattr(mod, "fallback") else None
            if plan is None:
                agg["error"] = f"generating run {i}: {traceback.format_exc()[-3000:]}"
                break
        status, info, ctx = execute(mod, plan, wall=wall, known=known)
        agg["runs"] += 1
        agg["steps"] += ctx.steps
        merge(agg["counts"], ctx.counts)
        agg["digests"][str(i)] = status + ":" + ctx.digest()
        for sig, text in ctx.known:
            agg["known"].setdefault(sig, text)
        if status == "inapplicable":
            agg["inapplicable"] += 1
        elif status == "ok":
            s = ctx.signature()
            if mod.nontrivial(ctx) and s not in sigs:
                sigs.add(s)
                if len(agg["samples"]) < 1:
                    agg["samples"].append({"run": i, "plan": plan, "log": ctx.log[:12], "counts": ctx.counts})
        elif status == "violation":
            agg["violation"] = {"run": i, "plan": plan, "kind": info["kind"], "msg": info["msg"], "log": ctx.log[-40:]}
            break
        elif status == "hang":
            agg["hang"] = {"run": i, "plan": plan}
            agg["next"] = i + step
            break
        else:
            agg["error"] = f"run {i}: {info['msg']}"
            break
        i += step
    agg["sigs"] = sorted(sigs)
    agg["wall"] = time.monotonic() - t0
    dump(out, agg)
    sys.stdout.flush()
    os._exit(0)


def run_list(mod, plans, limited=False):
    """Runs the plans in order; the outcome is that of the first that is not ok."""
    from .execute import execute
    res = ("ok", None, None)
    for k, p in enumerate(plans):
        status, info, ctx = execute(mod, p, limited=limited, wall=None if limited else 120)
        res = (status, info, ctx)
        if status != "ok" and status != "inapplicable":
            return res
    return res


def replay(path, out, limited):
    from . import boot
    from .execute import scenario
    with open(path) as f:
        d = json.load(f)
    boot.load()
    mod = scenario(d["property"])
    from . import zygote
    if getattr(mod, "ZYGOTE", False):
        zygote.start()
    status, info, ctx = run_list(mod, d["runs"], limited)
    dump(out, {"status": status, "info": info, "log": ctx.log if ctx else [], "digest": ctx.digest() if ctx else None,
               "counts": ctx.counts if ctx else {}, "steps": ctx.steps if ctx else 0})
    os._exit(0)


def size(plan):
    return len(json.dumps(plan))


def shrink(path, out):
    from . import boot
    from .execute import execute, scenario
    with open(path) as f:
        d = json.load(f)
    boot.load()
    mod = scenario(d["property"])
    from . import zygote
    if getattr(mod, "ZYGOTE", False):
        zygote.start()
    plan, kind = d["runs"][-1], d["kind"]
    budget = float(os.environ.get("SIM_SHRINK_S", "60"))
    t0 = time.monotonic()
    tried = 0
    seen = set()
    msg = d["msg"]
    progress = True
    while progress and time.monotonic() - t0 < budget and tried < 3000:
        progress = False
        for cand in mod.shrink(plan):
            cand = json.loads(json.dumps(cand))
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            status, info, _ = execute(mod, cand, wall=20)
            if status == "hang":
                dump(out, {"plan": plan, "msg": msg, "tried": tried})
                os._exit(0)
            if status == "violation" and info["kind"] == kind:
                plan, msg = cand, info["msg"]
                progress = True
                break
        dump(out, {"plan": plan, "msg": msg, "tried": tried})
    dump(out, {"plan": plan, "msg": msg, "tried": tried})
    os._exit(0)


if __name__ == "__main__":
    sys.setrecursionlimit(2000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import faulthandler
    faulthandler.enable()
    a = sys.argv[1:]
    try:
        if a[0] == "shard":
            shard(a[1], a[2], a[3], int(a[4]), int(a[5]), int(a[6]), a[7])
        elif a[0] == "replay":
            replay(a[1], a[2], len(a) > 3 and a[3] == "limited")
        elif a[0] == "shrink":
            shrink(a[1], a[2])
    except BaseException:
        traceback.print_exc()
        os._exit(3)
