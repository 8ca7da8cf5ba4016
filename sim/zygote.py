"""Process restarts: a child forked before the first run, which forks again for each request, so
that what it loads comes from the durable state alone (no object of the run survives into it)."""
import json
import os
import struct
import sys

_chan = None
FUNCS = {}


def func(f):
    FUNCS[f.__name__] = f
    return f


def _send(fd, obj):
    data = json.dumps(obj).encode()
    data = struct.pack("<I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def need(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out
    n, = struct.unpack("<I", need(4))
    return json.loads(need(n))


def start():
    global _chan
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        os.close(w1)
        os.close(r2)
        try:
            while True:
                try:
                    req = _recv(r1)
                except EOFError:
                    os._exit(0)
                pid = os.fork()
                if pid == 0:
                    import signal
                    signal.alarm(300)
                    try:
                        out = {"ok": FUNCS[req["f"]](*req["a"])}
                    except BaseException as e:
                        from .core import blame
                        out = {"err": type(e).__name__, "msg": str(e)[:300], "blame": blame(e)}
                    _send(w2, out)
                    os._exit(0)
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    _send(w2, {"err": "Died", "msg": f"status {st}", "blame": None})
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    _chan = (w1, r2)


def call(name, *args):
    """Runs FUNCS[name](*args) in a process that has seen nothing but the code and the disk."""
    if _chan is None:
        start()
    _send(_chan[0], {"f": name, "a": list(args)})
    return _recv(_chan[1])
