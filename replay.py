#!/opt/venv/bin/python
"""Replays a file written by run.py in a fresh process: exit 1 and the violation if it reproduces."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import run  # noqa: E402

path = os.path.abspath(sys.argv[1])
d = run.load(path)
tmp = tempfile.mkdtemp(prefix="pybbn-replay-")
try:
    r = run.replay_file(path, d.get("limited", False), tmp, 600)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
if r is None:
    print("blocked")
elif isinstance(r, str):
    print(r)
    sys.exit(2)
else:
    print("\n".join(r["log"]))
    print(r["status"], r["info"] or "", "digest", r["digest"], "(same as recorded)" if r["digest"] == d.get("digest") else "")
    if r["status"] == "ok":
        sys.exit(0)
    if r["status"] != "violation":
        sys.exit(2)
print(f"VIOLATION property={d['property']} replay={path}")
sys.exit(1)
