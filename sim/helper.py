"""Processes with another hash randomisation: one server per PYTHONHASHSEED, forking for each request."""
import json
import os
import struct
import subprocess
import sys

_servers = {}


def call(hashseed, module, func, *args):
    p = _servers.get(hashseed)
    if p is None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = _servers[hashseed] = subprocess.Popen([sys.executable, "-m", "sim.helper"], env=env, stdin=subprocess.PIPE,
                                                  stdout=subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    data = json.dumps([module, func, list(args)]).encode()
    p.stdin.write(struct.pack("<I", len(data)) + data)
    p.stdin.flush()
    n, = struct.unpack("<I", p.stdout.read(4))
    return json.loads(p.stdout.read(n))


def main():
    from . import boot
    from .zygote import _recv, _send
    import importlib
    import signal
    out = os.dup(1)
    os.dup2(2, 1)          # nothing the code prints gets between the answers
    boot.load()
    while True:
        try:
            module, func, args = _recv(0)
        except EOFError:
            os._exit(0)
        importlib.import_module(module)
        pid = os.fork()
        if pid == 0:
            signal.alarm(90)
            try:
                res = {"ok": getattr(importlib.import_module(module), func)(*args)}
            except BaseException as e:
                from .core import blame
                res = {"err": type(e).__name__, "msg": str(e)[:300], "blame": blame(e)}
            _send(out, res)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            _send(out, {"err": "Died", "msg": f"status {st}", "blame": "the helper process"})


if __name__ == "__main__":
    main()
