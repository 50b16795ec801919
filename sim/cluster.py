"""Stand-ins for dask's client and for joblib's "dask" backend.

While a ``Cluster`` is active the tasks handed to the backend run on simulated
workers: the plan decides how many there are, which pending task each takes,
where they are switched, which are lost in the middle of a task (the task then
runs again), which tasks run twice and which fail.
"""
import random
import sys

from sim.core import FAULTS
from sim.faults import at_edge
from sim.threads import Scheduler

_active = None


class WorkerLost(BaseException):
    """The worker went away; nobody sees what it did."""


class Client:
    """What the library is given instead of dask.distributed.Client."""

    def __init__(self, *a, **kw):
        if _active is None:
            raise RuntimeError("no simulated cluster")
        _active.open(self)
        self.status = "running"

    def close(self, *a, **kw):
        if self.status != "closed":
            self.status = "closed"
            if _active is not None:
                _active.closed(self)

    shutdown = close

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def scatter(self, data, *a, **kw):
        return data


class Task:
    def __init__(self, func, callback, number):
        self.func, self.callback, self.number = func, callback, number
        self.done, self.result, self.exc = False, None, None
        self.told = False

    def get(self, timeout=None):
        _active.wait(self)
        if self.exc is not None:
            raise self.exc
        return self.result


class Cluster:
    """One simulated cluster; ``spec`` is plain data of the plan."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.clients, self.pending, self.tasks = [], [], 0
        self.switches = list(spec["switches"])
        self.rng = random.Random(spec["pick"])
        self.faults = {f["task"]: dict(f) for f in spec["faults"]}
        self.waits = 0
        self.signature = []
        self.order = []
        self.failed = []

    def __enter__(self):
        global _active
        _active = self
        return self

    def __exit__(self, *exc):
        global _active
        _active = None

    # ---- life cycle
    def open(self, client):
        if self.spec.get("no_start"):
            self.ctx.fault("cluster does not start")
            raise OSError("injected: no port left")
        self.clients.append(client)
        self.ctx.event("client", len(self.clients))

    def closed(self, client):
        self.ctx.event("closed", self.clients.index(client))

    def running(self):
        return [c for c in self.clients if c.status != "closed"]

    # ---- tasks
    def submit(self, func, callback):
        if self.spec["copied"]:  # as sent over a wire, anew for every execution
            import cloudpickle
            data = cloudpickle.dumps(func)

            def load():
                return cloudpickle.loads(data)
        else:
            def load():
                return func
        t = Task(load, callback, self.tasks)
        self.tasks += 1
        self.pending.append(t)
        return t

    def wait(self, task):
        self.waits += 1
        if self.waits == self.spec.get("interrupt_wait"):
            self.ctx.fault("interrupt while waiting for the workers")
            raise FAULTS["interrupt"]("injected while waiting")
        while not task.done:
            self.round()

    def execute(self, t, arm):
        """One execution of a task on the current simulated worker."""
        f = self.faults.get(t.number)
        if f and f["kind"] == "twice":
            del self.faults[t.number]
            self.ctx.fault("task executed twice")
            self.pending.append(t)
            f = None
        if f:
            del self.faults[t.number]
            arm(f["at"], f["kind"])
        try:
            result, exc = t.func()(), None
        except WorkerLost:
            arm(None, None)
            self.pending.append(t)
            self.ctx.event("lost", t.number)
            return
        except BaseException as e:
            result, exc = None, e
            if type(e).__name__ == "_Abort":
                raise
        arm(None, None)
        if not t.done:
            t.done, t.result, t.exc = True, result, exc
            self.order.append(t)

    def round(self):
        """The workers empty the queue; then whoever waits is told."""
        armed = {}

        def hook(thread, kind, where):
            a = armed.get(thread.idx)
            if a is None or kind != "line":
                return
            a[0] -= 1
            # code that handles an error under way or cleans up is left alone
            if a[0] > 0 or sys.exc_info()[0] is not None or at_edge(sys._getframe(1)):
                return
            armed[thread.idx] = None
            if a[1] == "lost":
                self.ctx.fault("worker lost during a task")
                raise WorkerLost()
            self.ctx.fault(f"{a[1]} in a task")
            self.failed.append(f"{a[1]} at {where}")
            raise FAULTS[a[1]]("injected in a task")
        sched = Scheduler(self.ctx, self.switches, self.rng.randrange(10**6), faults=hook)

        def worker(i):
            def arm(at, kind):
                armed[i] = None if at is None else [at, kind]
            while self.pending:
                k = self.rng.randrange(len(self.pending)) if self.spec["shuffle"] else 0
                t = self.pending.pop(k)
                self.ctx.event("task", i, t.number)
                self.execute(t, arm)
        n = max(1, min(self.spec["workers"], len(self.pending)))
        for i in range(n):
            sched.spawn(lambda i=i: worker(i))
        for t in sched.run():
            if t.exc is not None:
                raise RuntimeError("simulated worker failed") from t.exc
        self.switches = sched.switches[sched.nswitch:]
        self.signature += sched.signature
        self.ctx.step(n)
        for t in self.order:
            if not t.told:
                t.told = True
                if t.callback is not None:
                    t.callback(t)
        self.order = [t for t in self.order if not t.told]


def make_backend():
    from joblib._parallel_backends import ParallelBackendBase, SequentialBackend

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = False
        supports_sharedmem = True
        uses_threads = True

        def __init__(self, *a, scatter=None, nesting_level=None, **kw):
            super().__init__(nesting_level=nesting_level)
            if _active is None or not _active.running():
                raise ValueError("To use Joblib with Dask first create a Dask Client")
            if scatter is not None and not isinstance(scatter, (list, tuple)):
                raise TypeError("scatter must be a list/tuple")

        def __reduce__(self):
            return make_backend(), ()

        def effective_n_jobs(self, n_jobs):
            n = _active.spec["workers"]
            return n if n_jobs is None or n_jobs < 0 else max(1, min(n, n_jobs))

        def compute_batch_size(self):
            return _active.spec["batch"]

        def submit(self, func, callback=None):
            if not _active.running():
                raise RuntimeError("task submitted after the client was closed")
            return _active.submit(func, callback)

        apply_async = submit

        def get_nested_backend(self):
            return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None

        def abort_everything(self, ensure_ready=True):
            _active.pending.clear()
    return SimBackend


def install():
    import dask.distributed
    import distributed
    import joblib.parallel
    dask.distributed.Client = distributed.Client = Client
    joblib.parallel.register_parallel_backend("dask", make_backend())
