#!/opt/venv/bin/python
"""Runs the check of one property: seeded search over simulated runs.

python run.py PROP [--tier quick|thorough] [--runs N] [--workers W]
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

from sim.core import derive  # noqa: E402


def env_for(hashseed, tmp, **extra):
    e = dict(os.environ)
    e.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
              "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "TMPDIR": tmp, "PYTHONPATH": HERE, "MPLBACKEND": "Agg",
              "LC_ALL": "C.UTF-8"})
    e.pop("PYTHONSTARTUP", None)
    e.update({k: str(v) for k, v in extra.items()})
    return e


def spawn(args, env):
    return subprocess.Popen([PY, "-m", "sim.worker"] + [str(a) for a in args], cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def wait(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


def hash_seed(seed, prop, shard):
    return derive(seed, prop, "hash", shard) % 4294967295


def replay_file(path, limited, tmp, timeout):
    """Replays in a fresh process: dict, or None if it had to be killed, or a str if it broke."""
    d = load(path)
    out = os.path.join(tmp, f"replay{time.monotonic_ns()}.json")
    p = spawn(["replay", path, out] + (["limited"] if limited else []), env_for(d["hashseed"], tmp))
    rc, txt = wait(p, timeout)
    if rc is None:
        return None
    r = load(out)
    if r is None:
        return f"replay process ended with {rc}: {txt[-2000:]}"
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument("--seed", default=None)
    ap.add_argument("--digests", help="write the digest of each run here (determinism check)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed or os.environ.get("VERIF_SEED") or "1"
    prop = a.prop
    t0 = time.monotonic()
    print(f"{prop}: seed={seed} tier={tier}", flush=True)

    import importlib
    meta = importlib.import_module(f"sim.meta").META[prop]
    total = a.runs or meta["runs"][tier]
    nshards = 8 if tier == "quick" else 32
    nshards = min(nshards, total)
    soft = float(os.environ.get("SIM_SOFT_S") or (420 if tier == "quick" else 6 * 3600))
    tmp = tempfile.mkdtemp(prefix=f"pybbn-sim-{prop}-")
    try:
        return campaign(a, prop, seed, tier, meta, total, nshards, soft, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def campaign(a, prop, seed, tier, meta, total, nshards, soft, tmp, t0):
    deadline = time.time() + soft
    results = {}
    pending = [(s, s) for s in range(nshards)]          # (shard, first run)
    running = []
    hangs = []
    problems = []
    while pending or running:
        while pending and len(running) < a.workers:
            s, start = pending.pop(0)
            out = os.path.join(tmp, f"shard{s}.{start}.json")
            env = env_for(hash_seed(seed, prop, s), tmp, SIM_DEADLINE=deadline)
            log = open(os.path.join(tmp, f"shard{s}.{start}.log"), "wb")
            p = subprocess.Popen([PY, "-m", "sim.worker", "shard", prop, seed, tier, str(start), str(nshards), str(total), out],
                                 cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT)
            log.close()
            running.append((p, s, start, out))
        time.sleep(0.02)
        for item in list(running):
            p, s, start, out = item
            rc = p.poll()
            if rc is None:
                if time.time() > deadline + 240:
                    p.kill()
                continue
            running.remove(item)
            r = load(out)
            if r is None:
                log = out[:-5] + ".log"
                txt = open(log, errors="replace").read()[-2500:]
                problems.append(f"shard {s} from run {start} ended with {rc} without a result: {txt}")
                continue
            results[(s, start)] = r
            if r["hang"]:
                hangs.append((s, r["hang"]))
                pending.append((s, r["next"]))
            if r["error"]:
                problems.append(f"shard {s}: {r['error']}")

    # runs that ran into the wall-clock fail-safe are decided by repeating them under a step limit
    violations = []
    slow = 0
    for s, h in hangs[:4]:
        path = os.path.join(tmp, f"hang{s}.{h['run']}.json")
        rec = {"property": prop, "seed": seed, "hashseed": hash_seed(seed, prop, s), "run": h["run"], "kind": "liveness",
               "msg": "", "runs": [h["plan"]], "limited": True}
        json.dump(rec, open(path, "w"))
        r = replay_file(path, True, tmp, 240)
        if r is None:
            rec["msg"] = "blocked: neither finishes nor makes steps"
            violations.append((h["run"], s, rec, True))
        elif isinstance(r, str):
            problems.append(r)
        elif r["status"] == "violation":
            rec["kind"], rec["msg"] = r["info"]["kind"], r["info"]["msg"]
            violations.append((h["run"], s, rec, True))
        elif r["status"] in ("ok", "inapplicable"):
            slow += 1
        else:
            problems.append(f"run {h['run']}: {r['info']}")
    for (s, start), r in results.items():
        v = r["violation"]
        if v:
            violations.append((v["run"], s, {"property": prop, "seed": seed, "hashseed": hash_seed(seed, prop, s),
                                             "run": v["run"], "kind": v["kind"], "msg": v["msg"], "runs": [v["plan"]],
                                             "limited": False}, False))

    done = sum(r["runs"] for r in results.values())
    nviol = len(violations)
    code = 0
    replay_path = None
    if violations:
        violations.sort(key=lambda v: v[0])
        for cand in violations[:3]:
            replay_path = report(prop, seed, tier, nshards, *cand, tmp, problems)
            if replay_path:
                break
        if replay_path:
            code = 1
    known = {}
    for r in results.values():
        known.update(r["known"])
    for sig in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {known[sig]}")
    if code == 0 and done < total and not hangs:
        if done < total // 4:
            problems.append(f"only {done} of {total} runs were made in {soft:.0f} s")
    if not a.no_evidence:
        write_evidence(prop, seed, tier, meta, results, done, total, nviol, slow, time.monotonic() - t0)
    if a.digests:
        d = {}
        for r in results.values():
            d.update(r["digests"])
        json.dump(d, open(a.digests, "w"), sort_keys=True)
    wall = time.monotonic() - t0
    print(f"{prop}: {done} runs in {wall:.1f} s, {nviol} violating shards, {len(problems)} problems")
    if code == 1:
        return 1
    if problems:
        for p in problems[:5]:
            print("ERROR:", p)
        return 2
    return 0


def report(prop, seed, tier, nshards, run, s, rec, from_hang, tmp, problems):
    """Minimises, confirms in a fresh process and writes the replay file. None if it cannot be confirmed."""
    work = os.path.join(tmp, f"v{run}.json")
    json.dump(rec, open(work, "w"))
    best = None
    limited = rec["limited"]
    if not from_hang and rec["kind"] != "liveness":
        out = os.path.join(tmp, f"shrunk{run}.json")
        p = spawn(["shrink", work, out], env_for(rec["hashseed"], tmp, SIM_SHRINK_S=45))
        wait(p, 100)
        sh = load(out)
        if sh:
            cand = dict(rec, runs=[sh["plan"]], msg=sh["msg"], shrink_tries=sh["tried"])
            path = os.path.join(tmp, f"cand{run}.json")
            json.dump(cand, open(path, "w"))
            r = replay_file(path, limited, tmp, 240)
            if isinstance(r, dict) and r["status"] == "violation" and r["info"]["kind"] == rec["kind"]:
                best = dict(cand, msg=r["info"]["msg"], log=r["log"], digest=r["digest"])
    if best is None:
        r = replay_file(work, limited, tmp, 300)
        if r is None and from_hang:
            best = dict(rec, log=[])
        elif isinstance(r, dict) and r["status"] == "violation":
            best = dict(rec, kind=r["info"]["kind"], msg=r["info"]["msg"], log=r["log"], digest=r["digest"])
    if best is None and not from_hang:
        # perhaps state left in the process by earlier runs matters: replay the shard up to here
        best = with_history(prop, seed, tier, nshards, run, rec, tmp)
    if best is None:
        problems.append(f"run {run}: {rec['kind']}: {rec['msg']} was not reproduced by its replay")
        return None
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{seed}-{run}.json")
    with open(path, "w") as f:
        json.dump(best, f, indent=1)
    print(f"{prop}: run {run}: {best['kind']}: {best['msg']}")
    for line in best.get("log", [])[-25:]:
        print("   ", line)
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return path


def with_history(prop, seed, tier, nshards, run, rec, tmp):
    gen = subprocess.run([PY, "-c", "import sys,json\nfrom sim import boot\nboot.load()\nfrom sim.execute import *\n"
                          f"m=scenario({prop!r})\n"
                          f"json.dump([plan_for(m,{seed!r},i,{tier!r}) for i in range({run % nshards},{run},{nshards})],"
                          "open(sys.argv[1],'w'))", os.path.join(tmp, "hist.json")], cwd=HERE,
                         env=env_for(rec["hashseed"], tmp), capture_output=True, timeout=300)
    hist = load(os.path.join(tmp, "hist.json"))
    if hist is None:
        return None

    def attempt(h):
        path = os.path.join(tmp, "histcand.json")
        c = dict(rec, runs=h + rec["runs"])
        json.dump(c, open(path, "w"))
        r = replay_file(path, False, tmp, 300)
        if isinstance(r, dict) and r["status"] == "violation":
            return dict(c, kind=r["info"]["kind"], msg=r["info"]["msg"], log=r["log"], digest=r["digest"])
        return None

    best, t0 = None, time.monotonic()
    k = 1
    while True:
        best = attempt(hist[-k:])
        if best or k >= len(hist) or time.monotonic() - t0 > 120:
            break
        k = min(len(hist), k * 4)
    if best is None:
        return None
    h = best["runs"][:-1]
    n = 2
    while len(h) > 1 and time.monotonic() - t0 < 120:
        step = max(1, len(h) // n)
        for a in range(0, len(h), step):
            c = h[:a] + h[a + step:]
            b = attempt(c)
            if b:
                best, h, n = b, c, max(2, n - 1)
                break
            if time.monotonic() - t0 > 120:
                break
        else:
            if step == 1:
                break
            n = min(len(h), n * 2)
    return best


def write_evidence(prop, seed, tier, meta, results, done, total, nviol, slow, wall):
    counts = {}
    sigs = set()
    steps = 0
    samples = []
    busy = 0.0
    inapp = 0
    for r in results.values():
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r["sigs"])
        steps += r["steps"]
        busy += r["wall"]
        inapp += r["inapplicable"]
        for x in r["samples"]:
            if len(samples) < 2:
                txt = json.dumps(x["plan"])
                samples.append({"run": x["run"], "plan": x["plan"] if len(txt) < 6000 else txt[:6000], "log": x["log"], "counts": x["counts"]})
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(counts.items()) if not k.startswith("fault:")}
    try:
        seed_i = int(seed)
    except ValueError:
        seed_i = derive(seed) % 2 ** 31
    ev = {
        "property": prop, "tier": tier, "seed": seed_i, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(sigs), "rule": meta["rule"], "samples": samples,
            "runs_planned": total, "runs_per_hour": round(done / wall * 3600) if wall else 0,
            "seeds_per_hour": round(done / wall * 3600) if wall else 0,
            "simulated_time": f"{steps} simulated steps (the code has no clock: time is counted in executed steps and operations)",
            "simulated_steps": steps, "faults_injected": faults,
            "fault_kinds_never_fired": [k for k in meta["faults"] if k not in faults],
            "probes": probes, "probes_never_hit": [k for k in meta.get("probes", []) if k not in counts],
            "distinct_measure": meta["distinct"], "real_components": meta["real"], "stub_components": meta["stub"],
            "runs_slower_than_the_wall_clock_failsafe": slow, "plans_not_applicable": inapp, "cpu_s": round(busy, 1),
        },
        "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": nviol,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
