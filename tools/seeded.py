"""Checks the planted changes in /verif/seeded against the rules and against the checks (development only).

python tools/seeded.py [--no-detect] [--tier quick] [--all-props] [ID ...]
For each: the patch applies to /repo's HEAD and removes or changes lines of the base commit, the tree builds (imports),
the tests pass, demo.sh exits 0 without and nonzero with it; then runs the check of its property on the patched copy.
Nothing is ever changed in /repo: all work is done in copies under a temporary directory. Prints a table."""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True,
                      text=True).stdout.split()[-1]


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def original_lines(diff):
    """Removed (or, for pure additions, neighbouring) lines of the patch that git blame gives to the base commit."""
    out, f, old = [], None, 0
    for line in diff.splitlines():
        if line.startswith("--- "):
            f = line[4:].split("/", 1)[1]
        elif line.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            out.append((f, old))
            old += 1
        elif line.startswith(" "):
            old += 1
    n_orig = n_fix = 0
    for f, n in out:
        b = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", f"-L{n},{n}", f], capture_output=True, text=True).stdout
        if b.lstrip("^").startswith(BASE[:38]):
            n_orig += 1
        else:
            n_fix += 1
    return n_orig, n_fix


def one(bug, args, tmp):
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    patch = os.path.join(d, "patch.diff")
    res = {"id": bug, "property": meta["property"]}
    scratch = os.path.join(tmp, bug)
    shutil.copytree(REPO, scratch, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    demo = os.path.join(tmp, bug + "-demo")
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    res["orig"], res["fix"] = original_lines(open(patch).read())
    res["clean_demo"] = run(["bash", os.path.join(demo, "demo.sh")], scratch, 300)[0]
    rc, out = run(["git", "apply", "-p1", patch], scratch)
    res["applies"] = rc == 0
    if rc:
        res["note"] = out[-300:]
        return res
    res["demo"], out = run(["bash", os.path.join(demo, "demo.sh")], scratch, 300)
    res["demo_out"] = out[-200:]
    rc, out = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], scratch)
    res["tests"] = rc
    if rc:
        res["note"] = out[-600:]
    return res


def detect(bug, prop, args, tmp):
    t = time.time()
    rc, out = run([PY, os.path.join(HERE, "run.py"), prop, "--tier", args.tier, "--no-evidence"], HERE, 1000,
                  PYBBN_SIM_REPO=os.path.join(tmp, bug), VERIF_SEED=args.seed)
    return {"rc": rc, "s": round(time.time() - t), "caught": rc == 1 and f"VIOLATION property={prop}" in out,
            "out": out[-500:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-detect", action="store_true")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--all-props", action="store_true", help="run every check on every patched copy")
    args = ap.parse_args()
    bugs = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))
    if args.ids:
        bugs = [b for b in bugs if any(b.startswith(i) for i in args.ids)]
    with tempfile.TemporaryDirectory(prefix="seeded-") as tmp:
        with cf.ThreadPoolExecutor(6) as ex:
            rows = list(ex.map(lambda b: one(b, args, tmp), bugs))
        for r in rows:
            ok = r["applies"] and r["orig"] > 0 and r["clean_demo"] == 0 and r.get("demo") not in (0, 124, None) \
                and r.get("tests") == 0
            line = f"{r['id']:28} {r['property']} {'counts' if ok else 'INVALID ' + json.dumps(r)}"
            if ok and r["fix"]:
                line += f" (touches {r['fix']} repaired lines)"
            print(line, flush=True)
            if args.no_detect or not r["applies"]:
                continue
            props = [f"C{i:02}" for i in range(1, 18)] if args.all_props else [r["property"]]
            for p in props:
                x = detect(r["id"], p, args, tmp)
                if p == r["property"] or x["rc"] != 0:
                    print(f"    {p}: {'caught' if x['caught'] else 'NOT CAUGHT rc ' + str(x['rc'])} in {x['s']} s", flush=True)
                if x["rc"] not in (0, 1):
                    print(x["out"])


main()
