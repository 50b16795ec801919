"""C25: a process forked while the library is at work can use the library."""
import importlib
import os
import pickle
import signal

from checks.c02 import gen_task, sibling
from checks.c24 import DOORS, gen_activity, perform, unvisited
from sim import zoo
from sim.core import Check, Violation, _read_all, _retell, _told, in_fork, reset_generators
from sim.threads import Scheduler, gen_switches

for m in ("torch", "linear_models", "operations_research", "base.rho_tuners", "base.samplers.torch", "solvers.hybrid_opt"):
    importlib.import_module("skwdro." + m)

WAIT = 25.
GETPID = os.getpid
ROOT = os.getpid()  # the process that loaded the library


class Family:
    """A process and the children it starts while it works."""

    def __init__(self, ctx):
        self.ctx, self.children, self.report = ctx, [], None

    def start(self, fn=None):
        """Fork; with fn, the child does that only, otherwise both go on."""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid:
            os.close(wfd)
            self.children.append((pid, rfd))
            return False
        os.close(rfd)
        os.getpid = GETPID
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        self.report, self.children = wfd, []
        if fn is not None:
            self.tell(fn)
        return True

    def tell(self, fn):
        """Last act of a child."""
        try:
            with os.fdopen(self.report, "wb") as f:
                f.write(pickle.dumps(_told(fn)))
        finally:
            os._exit(0)

    def heard(self):
        out = []
        for pid, rfd in self.children:
            data = _read_all(rfd, WAIT, pid)
            os.waitpid(pid, 0)
            if not data:
                raise Violation("hang", "a forked process did not end")
            out.append(_retell(pickle.loads(data)))
        self.children = []
        return out


class C25(Check):
    id = "C25"
    runs = {"quick": 700, "thorough": 9000}
    timeout = 240.
    rule = "a run is non-trivial when a process was forked while another thread, or the caller's own frame, was inside the library"
    real = ["all of skwdro", "torch", "processes and threads of the operating system"]
    stubs = ["locks created by skwdro (scheduler-controlled, same semantics)", "the process number, which is that of the process that loaded the library", "user's model, loss, data, stopping condition, closure and rule"]
    state_measure = "distinct (where the other threads were at the fork, what the child did)"
    assumptions = ["children of fork, not of spawn; children use objects of their own or those of the thread that forked",
                   "switch points are the statements of skwdro and operations on its locks"]

    def gen(self, rng, tier):
        def activity(like=None):
            r = rng.random()
            if r < .6:
                t = gen_task(rng)
                if like is not None and like["what"] == "task":
                    t = sibling(rng, like["task"])
                return {"what": "task", "task": {**t, "fault": None}}
            a = gen_activity(rng)
            if rng.random() < .6:
                doors = [d for d in DOORS[a["what"]] if d != "cond" or a["what"] == "fit" or any(o["op"] == "solve" for o in a["ops"])]
                a["visits"].append({"door": rng.choice(doors), "at": rng.choice([1, 1, 2, 3]), "act": {"what": "split"}, "fails": None})
            return a
        threads = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            threads.append([activity(threads[0][0] if threads and rng.random() < .5 else None) for _ in range(rng.choice([1, 2, 2, 3]))])
        for _ in range(rng.choice([1, 2, 3])):
            t = rng.choice(threads)
            rng.choice(t)["fork"] = True
        p = {"ambient": rng.randrange(1000), "threads": threads, "pick": rng.randrange(10**6), "focus": None}
        if rng.random() < .7:
            p["focus"] = [rng.choice([4, 12, 40]), rng.randrange(1000)]
            p["switches"] = gen_switches(rng, rng.choice([3, 20, 80]), (1, 1, 2, 4, 15))
        else:
            p["switches"] = gen_switches(rng)
        p["hot"] = rng.choice([0., 0., .5, 1.])
        return p

    def valid(self, p):
        return p["threads"] and all(p["threads"])

    def run(self, plan, ctx):
        os.getpid = lambda: ROOT  # stands for the process that loaded the library
        try:
            self.live(plan, ctx)
        finally:
            os.getpid = GETPID

    def live(self, plan, ctx):
        def alone(acts):
            reset_generators(plan["ambient"])
            return [perform(unvisited(a)) for a in acts]
        expect = [in_fork(lambda: alone(t)) for t in plan["threads"]]
        sched = Scheduler(ctx, plan["switches"], plan["pick"], focus=plan["focus"], hot=plan["hot"])
        families = [Family(ctx) for _ in plan["threads"]]
        inside = []

        def body(i):
            fam, acts = families[i], plan["threads"][i]
            mine = {}

            def split():
                if fam.report is not None or len(fam.children) > 3:
                    return
                note("inside a call of its own")
                fam.start()

            def note(how):
                where = sorted((x.idx, x.points) for x in sched.threads if x.idx != i and x.points and x.state != "done")
                ctx.fault("fork " + how)
                ctx.event("fork", i, where)
                ctx.state("fork", how, where)
                if where or how.startswith("inside"):
                    inside.append(how)
            for n, a in enumerate(acts):
                if a.get("fork") and fam.report is None:
                    note("between calls")
                    if fam.start():
                        fam.tell(lambda: {n: perform(a, None, split)})
                    continue
                mine[n] = perform(a, ctx, split)
            if fam.report is not None:
                fam.tell(lambda: mine)
            return [mine, *fam.heard()]
        for i in range(len(plan["threads"])):
            sched.spawn(lambda i=i: body(i))
        threads = sched.run()
        for i, (t, want) in enumerate(zip(threads, expect)):
            if isinstance(t.exc, Violation):
                raise Violation(t.exc.kind, f"thread {i}: {t.exc.msg}")
            if t.exc is not None:
                raise RuntimeError(f"thread {i} ended by {t.exc!r}")
            for k, results in enumerate(t.result):
                for n, got in results.items():
                    self.compare(got["own"], want[n]["own"], f"thread {i} activity {n} in {'the parent' if k == 0 else f'child {k}'}")
        ctx.probe("switches inside library code", len(sched.signature))
        ctx.nontrivial = bool(inside)

    def compare(self, got, want, where):
        if isinstance(got, dict) and isinstance(want, dict):
            d = zoo.diff(got, want)
        else:
            d = None if str(got) == str(want) else f"{zoo.show(got)} / {zoo.show(want)}"
        if d:
            raise Violation("differs", f"{where}: with forks / alone: {d}")


CHECK = C25()
