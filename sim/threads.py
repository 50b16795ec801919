"""Real threads, parked and released one at a time.

A simulated thread runs until it reaches a switch point (a statement of the
library, or an operation on a lock created by the library) at which the plan
demands a switch, or until it blocks on such a lock or ends.  The plan alone
decides who runs next, so that an interleaving is data.
"""
import _thread
import os
import random
import sys
import threading
import types
import zlib

from sim.core import Violation

LIB = "/repo/skwdro/"
_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = None  # active Scheduler


def _from_library():
    f = sys._getframe(2)  # caller of the factory
    while f is not None and f.f_globals.get("__name__") in ("threading", "contextlib"):
        f = f.f_back
    return f is not None and str(f.f_globals.get("__name__", "")).startswith("skwdro")


class _Gate:
    """What a parked thread waits at."""

    def __init__(self):
        self._l = _thread.allocate_lock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        if self._l.locked():
            self._l.release()


class SimLock:
    """Lock known to the scheduler; outside of a simulation it never blocks as
    there is one thread only."""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = _current
        if s is not None and s.mine():
            s.point("acquire")
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if s is None or not s.mine():
                if timeout is not None and timeout >= 0:
                    return False
                raise Violation("deadlock", "waits for a lock that nobody will release")
            if timeout is not None and timeout >= 0:
                if not s.block(self, may_time_out=True):
                    return False
            else:
                s.block(self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            s = _current
            if s is not None and s.mine():
                s.point("release")

    def locked(self):
        return bool(self.count)

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError(f"cannot pickle '{type(self).__name__}' object")


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def _release_save(self):
        st = (self.count, self.owner)
        self.count, self.owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count, self.owner = st


def _lock_factory():
    return SimLock() if _from_library() else _real_lock()


def _rlock_factory():
    return SimRLock() if _from_library() else _real_rlock()


def install():
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _lock_factory
    os.register_at_fork(after_in_child=_leave)  # (before the hooks of the library, if any)


def _leave():
    """A forked process has one thread, outside of the simulation."""
    global _current
    _current = None
    sys.settrace(None)


class Shared:
    """What the library keeps per process: attributes of its classes, globals of
    its modules, default values and caches of its functions.  ``changed`` tells
    whether any of it was rebound, or a container among it changed its size,
    since the last call."""

    def __init__(self):
        self.spaces, self.caches, seen = [], [], set()
        for name, m in sorted(sys.modules.items()):
            if m is None or not (name == "skwdro" or name.startswith("skwdro.")):
                continue
            self._space(vars(m), seen)
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__.startswith("skwdro") and v not in seen:
                    seen.add(v)
                    self._space(vars(v), seen)
        self._flat()
        self.last = self._now()

    def _space(self, d, seen):
        data = []
        for k, v in list(d.items()):
            f = getattr(v, "__func__", v)
            if hasattr(f, "cache_info"):
                self.caches.append(f.cache_info)
            elif isinstance(f, types.FunctionType):
                for x in (*(f.__defaults__ or ()), *(f.__kwdefaults__ or {}).values()):
                    if isinstance(x, (dict, list, set)):
                        self.caches.append(x.__len__)
            elif not k.startswith(("__", "_abc")) and not isinstance(v, (type, types.ModuleType, property)) \
                    and type(v).__module__ not in ("typing", "types"):
                data.append(k)
        self.spaces.append((d, data))

    def _flat(self):
        self.values = [(d.get, k) for d, data in self.spaces for k in data]
        self.dicts = [d for d, _ in self.spaces]
        self.sized = [v for v in (g(k) for g, k in self.values) if isinstance(v, (dict, list, set))]

    def _now(self):
        return [id(g(k)) for g, k in self.values], [len(d) for d in self.dicts], [len(v) for v in self.sized], [c() for c in self.caches]

    def changed(self):
        now = self._now()
        if now == self.last:
            return False
        for n, (d, data) in enumerate(self.spaces):  # attributes that did not exist before
            if now[1][n] != self.last[1][n]:
                data[:] = [k for k, v in list(d.items()) if not k.startswith(("__", "_abc")) and not callable(v)]
        self._flat()
        self.last = self._now()
        return True


class _Thread:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.go = _Gate()
        self.state = "ready"      # ready | blocked | done
        self.waiting = None
        self.timed_out = False
        self.result = None
        self.exc = None
        self.points = 0
        self.daemon_thread = None


class _Abort(BaseException):
    pass


class Scheduler:
    def __init__(self, ctx, switches=(), pickseed=0, faults=None, max_points=2_000_000, trace_files=(LIB,), focus=None,
                 hot=0.):
        self.ctx = ctx
        self.hot = hot                      # how often to switch after a write to process-wide state
        self.shared = Shared() if hot else None
        self.focus = focus                  # [k, r]: one function in k is a switch point
        self.switches = list(switches)      # [[gap, pick], ...]
        self.left = self.switches[0][0] if self.switches else None
        self.nswitch = 0
        self.rng = random.Random(pickseed)
        self.threads = []
        self.by_ident = {}
        self.control = _Gate()
        self.points = 0
        self.max_points = max_points
        self.active = None
        self.trace_files = tuple(trace_files)
        self.abort = False
        self.signature = []
        self.spawn_hook = None
        self.point_hook = faults            # called as f(thread, kind): may raise

    # ---- called from simulated threads
    def mine(self):
        return threading.get_ident() in self.by_ident

    def me(self):
        return self.by_ident[threading.get_ident()]

    def point(self, kind, where=None):
        t = self.me()
        self.points += 1
        t.points += 1
        if self.abort or self.points > self.max_points:
            self.abort = True
            raise _Abort()
        if self.point_hook is not None:
            self.point_hook(t, kind, where)
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        pick = self.switches[self.nswitch][1]
        self.nswitch += 1
        self.left = self.switches[self.nswitch][0] if self.nswitch < len(self.switches) else None
        others = [x for x in self.threads if x.state == "ready" and x is not t]
        if not others:
            return
        nxt = others[pick % len(others)]
        self.signature.append((t.idx, t.points, nxt.idx, where))
        self.ctx.event("switch", t.idx, nxt.idx, where)
        self._handoff(t, nxt)

    def _handoff(self, t, nxt):
        self.active = nxt
        nxt.go.release()
        t.go.acquire()
        if self.abort:
            raise _Abort()

    def block(self, lock, may_time_out=False):
        """Returns False if the wait timed out."""
        t = self.me()
        t.state, t.waiting, t.timed_out = "blocked", lock, False
        self.ctx.probe("blocked on a library lock")
        self.ctx.event("block", t.idx)
        t.may_time_out = may_time_out
        nxt = self._next()
        if nxt is t:
            t.state, t.waiting = "ready", None
            return not t.timed_out
        self._handoff_or_stop(t, nxt)
        t.state, t.waiting = "ready", None
        return not t.timed_out

    def _wake(self):
        for x in self.threads:
            if x.state == "blocked" and (not x.waiting.count):
                x.state = "ready"

    def _next(self):
        self._wake()
        ready = [x for x in self.threads if x.state == "ready"]
        if not ready:
            timed = [x for x in self.threads if x.state == "blocked" and getattr(x, "may_time_out", False)]
            if timed:
                x = timed[self.rng.randrange(len(timed))]
                x.timed_out, x.state = True, "ready"
                return x
            return None
        return ready[self.rng.randrange(len(ready))] if len(ready) > 1 else ready[0]

    def _handoff_or_stop(self, t, nxt):
        if nxt is None:
            self.deadlock = [x.idx for x in self.threads if x.state == "blocked"]
            self.abort = True
            self.control.release()
            t.go.acquire()
            raise _Abort()
        self.ctx.event("run", nxt.idx)
        self._handoff(t, nxt)

    deadlock = None

    def _tracer(self, frame, event, arg):
        c = frame.f_code
        if event != "call" or not c.co_filename.startswith(self.trace_files):
            return None
        if self._watched(c):
            return self._local
        return self._local_hot if self.hot else None

    def _watched(self, c):
        if self.focus is None:
            return True
        k, r = self.focus
        return zlib.crc32(f"{c.co_filename.rsplit('/', 1)[-1]}:{c.co_name}".encode()) % k == r % k

    def _local(self, frame, event, arg):
        if event == "line":
            where = (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno)
            if self.hot:
                self._after_write(where)
            self.point("line", where)
        return self._local

    def _local_hot(self, frame, event, arg):
        if event == "line":
            self._after_write((frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno))
        return self._local_hot

    def _after_write(self, where):
        if not self.shared.changed():
            return
        self.ctx.probe("writes to process-wide state")
        if self.rng.random() < self.hot:
            t = self.me()
            others = [x for x in self.threads if x.state == "ready" and x is not t]
            if others:
                nxt = others[self.rng.randrange(len(others))]
                self.signature.append((t.idx, t.points, nxt.idx, where))
                self.ctx.event("switch", t.idx, nxt.idx, where)
                self._handoff(t, nxt)

    def spawn(self, fn):
        t = _Thread(len(self.threads), fn)
        self.threads.append(t)

        def body():
            t.go.acquire()
            self.by_ident[threading.get_ident()] = t
            try:
                if self.abort:
                    return
                sys.settrace(self._tracer)
                try:
                    t.result = fn()
                finally:
                    sys.settrace(None)
            except _Abort:
                pass
            except BaseException as e:
                t.exc = e
            finally:
                t.state = "done"
                self._ended(t)
        t.real = threading.Thread(target=body, daemon=True)
        t.real.start()
        return t

    def _ended(self, t):
        self.by_ident.pop(threading.get_ident(), None)
        if self.abort:
            self.control.release()
            return
        nxt = self._next()
        if nxt is None:
            if any(x.state == "blocked" for x in self.threads):
                self.deadlock = [x.idx for x in self.threads if x.state == "blocked"]
                self.abort = True
            self.control.release()
            return
        self.ctx.event("run", nxt.idx)
        self.active = nxt
        nxt.go.release()

    def run(self):
        """Run the spawned threads to their end; returns them."""
        global _current
        _current = self
        try:
            nxt = self._next()
            if nxt is not None:
                self.active = nxt
                nxt.go.release()
                self.control.acquire()
        finally:
            _current = None
        self.ctx.step(self.points)
        if self.deadlock is not None:
            raise Violation("deadlock", f"threads {self.deadlock} wait for locks that are never released")
        if self.abort:
            raise Violation("livelock", f"threads still running after {self.points} switch points")
        return self.threads


def gen_switches(rng, n=None, means=(2, 6, 25, 80, 250)):
    """Random switch plan: gaps between switches, and whom to switch to."""
    n = rng.choice([0, 1, 2, 5, 20, 80, 250]) if n is None else n
    mean = rng.choice(means)
    return [[1 + int(rng.expovariate(1 / mean)), rng.randrange(6)] for _ in range(n)]
