"""The machine a run sees: clocks, entropy and number of processors.

While a ``Machine`` is active, the clocks of the ``time`` module are simulated
(they start anywhere and jump as the plan says at every look), what the system
offers as randomness comes from the plan, and the processors are as many as
the plan says.
"""
import os
import random
import time

_CLOCKS = ("time", "monotonic", "perf_counter", "process_time", "thread_time")


ORDINARY = {"start": 1.7e9, "tick": 1e-3, "cores": 8, "entropy": 0}


def gen_machine(rng):
    return {"start": rng.choice([0., 1., 1e6, 1.7e9, 4e9]), "tick": rng.choice([0., 1e-3, 1., 600., 1e5]),
            "cores": rng.choice([1, 1, 2, 3, 5, 16, 64]), "entropy": rng.randrange(10**6)}


class Machine:
    def __init__(self, spec, ctx=None):
        self.spec, self.ctx = spec, ctx
        self.now, self.looks = spec["start"], 0
        self.rng = random.Random(spec["entropy"])

    def look(self):
        self.looks += 1
        self.now += self.spec["tick"]
        return self.now

    def sleep(self, s):
        self.now += s

    def urandom(self, n):
        self.looks += 1
        return self.rng.randbytes(n)

    def __enter__(self):
        cores = self.spec["cores"]
        new = {(time, k): self.look for k in _CLOCKS}
        new.update({(time, k + "_ns"): lambda: int(self.look() * 1e9) for k in _CLOCKS})
        new.update({(time, "sleep"): self.sleep, (os, "urandom"): self.urandom, (random, "_urandom"): self.urandom,
                    (os, "cpu_count"): lambda: cores, (os, "sched_getaffinity"): lambda pid=0: set(range(cores))})
        if hasattr(os, "process_cpu_count"):
            new[os, "process_cpu_count"] = lambda: cores
        self.old = {k: getattr(*k) for k in new}
        self.env = os.environ.get("LOKY_MAX_CPU_COUNT")
        os.environ["LOKY_MAX_CPU_COUNT"] = str(cores)
        for (mod, name), f in new.items():
            setattr(mod, name, f)
        return self

    def __exit__(self, *exc):
        for (mod, name), f in self.old.items():
            setattr(mod, name, f)
        if self.env is None:
            os.environ.pop("LOKY_MAX_CPU_COUNT", None)
        else:
            os.environ["LOKY_MAX_CPU_COUNT"] = self.env
        if self.ctx is not None:
            self.ctx.probe("looks at the simulated clock or entropy", self.looks)
