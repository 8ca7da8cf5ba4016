"""The two seams built on sys.settrace: cutting an operation short at its k-th step, and a
deterministic scheduler that decides, step by step, which of several real threads runs.

A step is a line (or, if asked, a bytecode instruction) executed in a file under /repo/pybbn."""
import sys
import threading

from .core import FAULTS, REPO, StepLimit

PREFIX = REPO + "/pybbn/"
_IN = {}


def _ours(code):
    fn = code.co_filename
    r = _IN.get(fn)
    if r is None:
        r = _IN[fn] = fn.startswith(PREFIX)
    return r


class Steps:
    """Context manager: counts the steps of the enclosed operation, throws a fault before the
    step number `at`, and stops runaway loops after `limit` steps."""

    def __init__(self, ctx=None, at=None, kind="interrupt", limit=None):
        self.ctx = ctx
        self.at = at
        self.kind = kind
        self.limit = limit or (ctx.step_limit if ctx is not None else None)
        self.n = 0
        self.fired = None

    def _global(self, frame, event, arg):
        if _ours(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.fired = f"{frame.f_code.co_filename[len(REPO) + 1:]}:{frame.f_code.co_name}"
                sys.settrace(None)
                raise FAULTS[self.kind]("injected")
            if self.limit is not None and self.n > self.limit:
                sys.settrace(None)
                raise StepLimit(f"{self.n} steps in {frame.f_code.co_name}")
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, et, e, tb):
        sys.settrace(self._old)
        if self.ctx is not None:
            self.ctx.step(self.n)
            if self.fired:
                self.ctx.count("fault:" + self.kind)
                self.ctx.sig.append(("cut", self.fired, self.n))
        return False


_current = None


class SimLock:
    """Stands in for threading.Lock/RLock inside pybbn, so that a thread that has to wait for a
    lock gives way to the others instead of blocking the simulation."""

    def __init__(self, reentrant=False):
        self._lock = _RealRLock() if reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or not s.is_member() or not blocking:
            return self._lock.acquire(blocking, timeout)
        spins = 0
        while not self._lock.acquire(False):
            spins += 1
            if spins > 10000:
                raise StepLimit("deadlock: a lock is never released")
            s.give_way()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


_RealLock = threading.Lock
_RealRLock = threading.RLock


class sim_locks:
    """While active, threading.Lock and RLock make simulated locks."""

    def __enter__(self):
        threading.Lock = lambda: SimLock(False)
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        threading.Lock = _RealLock
        threading.RLock = _RealRLock


class Scheduler:
    """Runs the given functions in real threads of which exactly one runs at a time.

    switches: [[step, thread], ...]: when the global step counter reaches `step`, the baton goes
    to `thread` (if still alive). period: if not 0, the baton also goes round every `period`
    steps. opcodes: a step is a bytecode instruction rather than a line."""

    def __init__(self, ctx, funcs, switches=(), period=0, opcodes=False, limit=25_000_000):
        self.ctx = ctx
        self.funcs = funcs
        self.switches = {}
        for s, t in switches:
            self.switches.setdefault(int(s), int(t))
        self.period = period
        self.opcodes = opcodes
        self.limit = limit
        self.n = 0
        self.turn = 0
        self.sem = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.result = [None] * len(funcs)
        self.error = [None] * len(funcs)
        self.main = threading.Semaphore(0)
        self.idx = {}
        self.trail = []
        self.abort = False

    # --- called in the worker threads
    def is_member(self):
        return threading.get_ident() in self.idx

    def me(self):
        return self.idx[threading.get_ident()]

    def _next_alive(self, t):
        k = len(self.funcs)
        for d in range(k):
            c = (t + d) % k
            if not self.done[c]:
                return c
        return None

    def _hand_over(self, to, why):
        me = self.turn
        if to == me or self.done[to]:
            return
        self.trail.append((self.n, to, why))
        self.turn = to
        self.sem[to].release()
        self.sem[me].acquire()
        if self.abort:
            raise StepLimit("aborted")

    def give_way(self):
        to = self._next_alive((self.turn + 1) % len(self.funcs))
        if to is not None:
            self._hand_over(to, "?")

    def _global(self, frame, event, arg):
        if _ours(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.n += 1
            n = self.n
            to = self.switches.get(n)
            if to is not None:
                self._hand_over(to, frame.f_code.co_name)
            elif self.period and n % self.period == 0:
                to = self._next_alive((self.turn + 1) % len(self.funcs))
                if to is not None:
                    self._hand_over(to, frame.f_code.co_name)
            if n > self.limit:
                self.abort = True
                raise StepLimit(f"{n} steps")
        return self._local

    def point(self, what):
        """A step outside the traced code (I/O, noise callers); nothing if a thread of ours is not asking."""
        if not self.is_member():
            return
        self.n += 1
        to = self.switches.get(self.n)
        if to is None and self.period and self.n % self.period == 0:
            to = self._next_alive((self.turn + 1) % len(self.funcs))
        if to is not None:
            self._hand_over(to, what)

    def _body(self, k):
        self.sem[k].acquire()
        sys.settrace(self._global)
        try:
            if not self.abort:
                self.result[k] = self.funcs[k]()
        except BaseException as e:
            self.error[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            to = self._next_alive(k)
            if to is None:
                self.main.release()
            else:
                self.turn = to
                self.sem[to].release()

    def run(self):
        global _current
        _current = self
        threads = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(len(self.funcs))]
        try:
            for k, t in enumerate(threads):
                t.start()
                self.idx[t.ident] = k
            self.turn = 0
            self.sem[0].release()
            self.main.acquire()
            for t in threads:
                t.join()
        finally:
            _current = None
        self.ctx.step(self.n)
        self.ctx.count("context switches", len(self.trail))
        self.ctx.count("fault:preemption", len(self.trail))
        self.ctx.sig.append(("sched", [(to, why) for _, to, why in self.trail]))
        for e in self.error:
            if isinstance(e, StepLimit):
                raise e
        return self.result, self.error


def make_schedule(rng, total, k):
    """Switch points for a program of about `total` steps and k threads: (switches, period)."""
    total = max(total, 2)
    mode = rng.weighted([("few", 5), ("many", 3), ("burst", 3), ("robin", 2)])
    if mode == "robin":
        return [], rng.logint(1, max(2, total // (2 * k)))
    if mode == "few":
        m = rng.randrange(1, 6)
        at = [rng.randrange(1, total + 1) for _ in range(m)]
    elif mode == "many":
        m = rng.randrange(6, 60)
        at = [rng.randrange(1, total + 1) for _ in range(m)]
    else:
        at = []
        for _ in range(rng.randrange(1, 4)):
            c = rng.randrange(1, total + 1)
            at.extend(c + rng.randrange(0, 40) for _ in range(rng.randrange(3, 15)))
    at = sorted(set(at))
    return [[a, rng.randrange(k)] for a in at], 0
