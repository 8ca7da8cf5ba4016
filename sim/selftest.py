"""Quick check that the framework itself works here: seams, determinism of a few runs, exact replay of plans."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = """
import sys, json
from sim import boot
boot.load()
from sim.execute import execute, plan_for, scenario
out = {}
for p in sys.argv[1:]:
    m = scenario(p)
    for i in range(3):
        st, info, ctx = execute(m, plan_for(m, "selftest", i, "quick"))
        out[p + str(i)] = st + ":" + ctx.digest()
print("DIGESTS" + json.dumps(out, sort_keys=True))
"""


def digests(props, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    r = subprocess.run([sys.executable, "-c", CODE] + props, cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
    for line in r.stdout.split("\n"):
        if line.startswith("DIGESTS"):
            return json.loads(line[7:])
    raise SystemExit(f"selftest: {r.stdout[-1000:]} {r.stderr[-3000:]}")


def main():
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    props = ["C01", "C02", "C03", "C07", "C09", "C10", "C11", "C14", "C16", "C17", "C18", "C19"]
    a, b, c = digests(props, 1), digests(props, 1), digests(props, 4711)
    # nothing may be different between two executions; another hash seed may only matter if the code depends on it
    if a != b:
        print("selftest: runs differ between executions:", [k for k in a if a[k] != b[k]])
    if a != c:
        print("selftest: runs differ under another hash seed:", [k for k in a if a[k] != c[k]])
    print(f"selftest: {len(a)} runs, repeated twice exactly: {a == b}, under another hash seed: {a == c}")


if __name__ == "__main__":
    main()
