"""Simulated file I/O: files under the scratch directory are opened through a raw layer whose
every read, write and close is decided by the plan, be it through open() or through os.open() and
the calls on descriptors. The bytes that "the disk" has are really in the scratch file, so that a
fresh process can load them.

plan (all keys optional):
  wbuf, rbuf, chunk: buffer sizes;  short_w, short_r: cycled limits of bytes per raw call
  eintr_w, eintr_r: indices of raw calls that fail with EINTR first
  err_w / err_r: [index, errno name, bytes written before failing]
  capacity: bytes until the disk is full (ENOSPC);  close_err: errno name on closing a written file
  crash_at: bytes persisted when the process dies;  power: keep only this share of them (but what
  was synced is kept)"""
import builtins
import errno
import io
import os
import shutil

from .core import SimFault


class SimCrash(SimFault):
    """The process dies here; nothing it does afterwards reaches the disk."""


class Raw(io.FileIO):
    def __init__(self, fs, file, mode, direct, closefd=True, opener=None):
        dead = fs.crashed and mode[:1] != "r"
        if dead:
            io.FileIO.__init__(self, os.devnull, "w")
        else:
            io.FileIO.__init__(self, file, mode, closefd, opener)
        self._fs = fs
        self._dirty = "r" not in mode or "+" in mode
        self._direct = direct  # without a buffer on top that restarts interrupted calls
        self._closefd = closefd
        fs.files.setdefault(self.fileno(), None if dead or isinstance(file, int) else os.fspath(file))

    def write(self, b):
        return self._fs.write(bytes(b), lambda c: io.FileIO.write(self, c), not self._direct)

    def readinto(self, buf):
        limit = self._fs.before_read(not self._direct)
        data = io.FileIO.read(self, len(buf) if limit is None else min(limit, len(buf)))
        buf[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        limit = self._fs.before_read(not self._direct)
        return io.FileIO.read(self, size if limit is None else min(limit, size))

    def readall(self):
        out = b""
        while True:
            limit = self._fs.before_read(False)  # readall itself restarts interrupted system calls
            data = io.FileIO.read(self, limit if limit is not None else 1 << 16)
            if not data:
                return out
            out += data

    def truncate(self, size=None):
        if self._fs.crashed:
            return size if size is not None else 0
        self._fs.point("truncate")
        return io.FileIO.truncate(self, size)

    def close(self):
        first = not self.closed
        if first and self._closefd:
            self._fs.files.pop(self.fileno(), None)
        io.FileIO.close(self)
        if first and self._dirty and self._closefd:
            self._fs.closed()


class FaultFS:
    def __init__(self, ctx, root, plan=None, point=None):
        p = plan or {}
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.wbuf = p.get("wbuf", 8192)
        self.rbuf = p.get("rbuf", 8192)
        self.chunk = p.get("chunk", 8192)
        self.short_w = p.get("short_w") or []
        self.short_r = p.get("short_r") or []
        self.eintr_w = set(p.get("eintr_w") or [])
        self.eintr_r = set(p.get("eintr_r") or [])
        self.err_w = p.get("err_w")
        self.err_r = p.get("err_r")
        self.capacity = p.get("capacity")
        self.close_err = p.get("close_err")
        self.crash_at = p.get("crash_at")
        self.power = p.get("power")
        self.interrupted = set()
        self.nw = self.nr = self.written = 0
        self.crashed = False
        self.failed = None
        self.opened = 0
        self.files = {}   # descriptor -> path
        self.synced = {}  # path -> bytes that survive a power loss; every path opened for writing
        self._point = point

    def point(self, what):
        self.ctx.step()
        if self._point is not None:
            self._point(what)

    def crash(self):
        self.crashed = True
        self.ctx.count("fault:crash")
        raise SimCrash("injected crash")

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and (p + os.sep).startswith(self.root + os.sep)

    # what the disk does
    def write(self, b, put, interruptible):
        self.point("write")
        if self.crashed:
            return len(b)
        i = self.nw
        if interruptible and i in self.eintr_w and ("w", i) not in self.interrupted:
            self.interrupted.add(("w", i))
            self.ctx.count("fault:eintr")
            raise InterruptedError(errno.EINTR, "injected")
        self.nw += 1
        limit = len(b)
        if self.short_w:
            limit = min(limit, max(1, self.short_w[i % len(self.short_w)]))
        e = None
        if self.err_w is not None and self.err_w[0] == i:
            e = self.err_w[1]
            limit = min(limit, self.err_w[2])
        if self.capacity is not None and self.written + limit > self.capacity:
            limit = max(0, self.capacity - self.written)
            if limit == 0:
                e = "ENOSPC"
        crash = self.crash_at is not None and self.written + limit >= self.crash_at
        if crash:
            limit = max(0, min(limit, self.crash_at - self.written))
        if limit < len(b) and e is None and not crash:
            self.ctx.count("fault:short write")
        if limit:
            n = 0
            while n < limit:
                n += put(b[n:limit])
            self.written += limit
        if crash:
            self.crash()
        if e is not None:
            self.fail(e, e)
        return limit

    def fail(self, e, what):
        self.ctx.count("fault:" + what)
        self.failed = e
        raise OSError(getattr(errno, e), "injected " + what)

    def before_read(self, interruptible):
        self.point("read")
        i = self.nr
        if interruptible and i in self.eintr_r and ("r", i) not in self.interrupted:
            self.interrupted.add(("r", i))
            self.ctx.count("fault:eintr")
            raise InterruptedError(errno.EINTR, "injected")
        self.nr += 1
        if self.err_r is not None and self.err_r[0] == i:
            self.fail(self.err_r[1], self.err_r[1] + " on read")
        if self.short_r:
            self.ctx.count("fault:short read")
            return max(1, self.short_r[i % len(self.short_r)])
        return None

    def closed(self):
        if self.crashed:
            return
        self.point("close")
        if self.close_err:
            e, self.close_err = self.close_err, None
            self.fail(e, "close " + e)

    def begin(self, path, writing):
        self.opened += 1
        if writing and not self.crashed:
            self.synced.setdefault(os.path.realpath(os.fspath(path)), 0)
        self.point("open")

    # the seams
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        known = file in self.files if isinstance(file, int) else self.mine(file)
        if not known:
            return self._open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace("b", "").replace("t", "").replace("U", "") or "r"
        if opener is None and not isinstance(file, int):
            self.begin(file, "r" not in m or "+" in m)
        raw = Raw(self, file, m, buffering == 0, closefd, opener)
        if buffering == 0:
            return raw
        if "+" in m:
            buf = io.BufferedRandom(raw, self.wbuf)
        elif "r" in m:
            buf = io.BufferedReader(raw, self.rbuf)
        else:
            buf = io.BufferedWriter(raw, self.wbuf)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding if encoding not in (None, "locale") else "utf-8", errors, newline,
                                line_buffering=buffering == 1)
        text._CHUNK_SIZE = self.chunk
        text.mode = mode
        return text

    def os_open(self, path, flags, *a, **k):
        real = self._os["open"]
        if isinstance(path, int) or not self.mine(path):
            return real(path, flags, *a, **k)
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        self.begin(path, writing)
        fd = real(os.devnull, os.O_WRONLY) if self.crashed and writing else real(path, flags, *a, **k)
        self.files[fd] = os.fspath(path)
        return fd

    def os_write(self, fd, b):
        real = self._os["write"]
        return real(fd, b) if fd not in self.files else self.write(bytes(b), lambda c: real(fd, c), False)

    def os_writev(self, fd, bs):
        if fd not in self.files:
            return self._os["writev"](fd, bs)
        return self.os_write(fd, b"".join(bytes(b) for b in bs))

    def os_read(self, fd, n):
        real = self._os["read"]
        if fd not in self.files:
            return real(fd, n)
        limit = self.before_read(False)
        return real(fd, n if limit is None else min(n, limit))

    def os_close(self, fd):
        known = self.files.pop(fd, None) is not None
        self._os["close"](fd)
        if known:
            self.closed()

    def os_fsync(self, fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        if n in self.files:
            if self.crashed:
                return
            self.point("fsync")
            p = os.path.realpath(self.files[n]) if self.files[n] else None
            if p in self.synced:
                self.synced[p] = os.fstat(n).st_size
        return self._os["fsync"](fd)

    def _moving(self, name):
        def f(src, dst, *a, **k):
            if not (self.mine(src) or self.mine(dst)):
                return self._os[name](src, dst, *a, **k)
            if self.crashed:
                return None
            self.point(name)
            s, d = os.path.realpath(src), os.path.realpath(dst)
            self._os[name](src, dst, *a, **k)
            if s in self.synced:
                self.synced[d] = self.synced[s] if name == "link" else self.synced.pop(s)
        return f

    def _changing(self, name):
        def f(path, *a, **k):
            if path not in self.files if isinstance(path, int) else not self.mine(path):
                return self._os[name](path, *a, **k)
            if self.crashed:
                return None
            self.point(name)
            return self._os[name](path, *a, **k)
        return f

    def __enter__(self):
        self._open = builtins.open
        self._sendfile = shutil._USE_CP_SENDFILE
        shutil._USE_CP_SENDFILE = False
        ours = {"open": self.os_open, "write": self.os_write, "writev": self.os_writev, "read": self.os_read, "close": self.os_close,
                "fsync": self.os_fsync, "fdatasync": self.os_fsync}
        for n in ("rename", "replace", "renames", "link"):
            ours[n] = self._moving(n)
        for n in ("remove", "unlink", "truncate", "ftruncate", "mkdir", "rmdir"):
            ours[n] = self._changing(n)
        self._os = {n: getattr(os, n) for n in ours}
        builtins.open = self.open
        io.open = self.open
        for n, f in ours.items():
            setattr(os, n, f)
        return self

    def __exit__(self, *a):
        builtins.open = self._open
        io.open = self._open
        shutil._USE_CP_SENDFILE = self._sendfile
        for n, f in self._os.items():
            setattr(os, n, f)
        if self.crashed and self.power is not None:
            # power loss: the page cache of what was not synced is lost in part
            for p in sorted(self.synced):
                if os.path.isfile(p):
                    size = os.path.getsize(p)
                    keep = max(int(size * self.power), min(size, self.synced[p]))
                    if keep < size:
                        self.ctx.count("fault:power loss")
                        os.truncate(p, keep)
        return False
