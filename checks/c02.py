"""C02: fits running in several threads give the results of running alone."""
import copy

from checks.c01 import observe
from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import OpFaults, attempt
from sim.threads import Scheduler, gen_switches


def gen_task(rng):
    t = rng.choice(["fit", "fit", "fit", "train", "train", "sample"])
    if t == "fit":
        est = zoo.gen_est(rng)
        if est["est"] != "weber" and rng.random() < .2:
            est["solver"], est["rho"] = "dedicated", est["rho"] or .1
        est["n_iter"] = rng.choice([[1, 2], [2, 2], [0, 3], [0, 8], [1, 5]])
        if rng.random() < .5:
            est.pop("opt", None)
        task = {"task": "fit", "est": est, "data": zoo.gen_data(rng, zoo.KIND[est["est"]], n=rng.choice([4, 6]))}
        zoo.polyhedron(rng, est, task["data"]["d"] + 1, .2)
        if rng.random() < .4:  # a fitted estimator, fitted again, perhaps in vain
            task["again"] = {"seed": rng.randrange(10**6), "bad": rng.random() < .4}
    elif t == "train":
        task = {"task": "train", "loss": zoo.gen_loss(rng), "steps": rng.randrange(1, 4),
                "batches": rng.randrange(1000)}
    else:
        task = {"task": "sample", "labels": rng.random() < .5, "seed": rng.randrange(100), "d": rng.choice([1, 2]),
                "n": rng.choice([2, 3]), "times": rng.randrange(1, 4),
                "cost": rng.choice(["NLC-2-2", "NLC-1-1", "NLC-1-2"])}
    task["fault"] = [rng.choice([1, 20, 80, 200]) + rng.randrange(40),
                     rng.choice(["error", "interrupt", "memory"])] if rng.random() < .15 else None
    return task


def sibling(rng, task):
    """A task like another one, with a few settings of its own."""
    t = copy.deepcopy(task)
    if t["task"] == "fit" and rng.random() < .5:
        t["data"]["labels"] = rng.randrange(5)
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = gen_task(rng)
        while o["task"] != t["task"]:
            o = gen_task(rng)
        if t["task"] == "fit":
            k = rng.choice(["n_iter", "n_iter", "solver", "random_state", "rho", "n_zeta", "opt", "data", "data", "problem", "lr"])
            if k == "data":
                f = rng.choice(["seed", "k", "d", "n"])
                t["data"][f] = o["data"][f]
            elif k == "solver" and t["est"]["est"] != "weber":
                t["est"]["solver"] = rng.choice(["dedicated", "entropic_torch_post", "entropic_torch_pre"])
                if t["est"]["solver"] == "dedicated" and not t["est"]["rho"]:
                    t["est"]["rho"] = .1
            elif k == "opt":
                t["est"]["opt"] = zoo.gen_opt(rng)
            elif k == "rho":
                t["est"]["rho"] = rng.choice([.01, .1, .7])
            elif k in t["est"] and k in o["est"] and k not in ("solver", "problem"):
                t["est"][k] = o["est"][k]
        elif t["task"] == "train":
            k = rng.choice(["rho", "seed", "init", "n_iter", "n_samples", "l2", "steps"])
            if k == "steps":
                t[k] = o[k]
            elif k == "rho":
                t["loss"]["rho"] = rng.choice([.01, .1, .7])
            elif k in t["loss"] and k in o["loss"]:
                t["loss"][k] = o["loss"][k]
        else:
            k = rng.choice(["seed", "cost", "n", "times"])
            t[k] = o[k]
    return t


def train(spec, steps, batches):
    """Evaluate and step a robust loss; returns values and parameters."""
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro  # noqa (kept loaded)
    dual = zoo.make_loss(spec)
    vals = []
    if spec["mode"] == "pre":
        x, y = zoo.make_batch(spec, spec["init"] + 1, 5)
        z, zl = presample(spec, x, y)
        for _ in range(steps):
            def closure():
                dual.optimizer.zero_grad()
                v = dual(x, y, z, zl).sum()
                v.backward()
                vals.append(v.item())
                return v
            dual.optimizer.step(closure)
    else:
        for i in range(steps):
            x, y = zoo.make_batch(spec, batches + i, 3 + i)
            dual.optimizer.zero_grad()
            v = dual(x, y).sum()
            v.backward()
            dual.optimizer.step()
            vals.append(v.item())
    return {"values": zoo.arr(vals), "params": zoo.params(dual)}


def presample(spec, x, y):
    """Adversarial samples chosen by the plan (the caller supplies them)."""
    import numpy as np
    import torch as pt
    g = np.random.RandomState(spec["init"] + 77)
    z = x.unsqueeze(0) + .3 * pt.tensor(g.randn(spec["n_samples"], *x.shape), dtype=x.dtype)
    zl = None if y is None else y.unsqueeze(0).expand(spec["n_samples"], *y.shape).clone()
    return z, zl


CONDITIONS = {}


def build(s):
    """The estimator, perhaps with a stopping condition that the caller gives to several ones."""
    if not s.get("shared"):
        return zoo.make_est(s)
    return zoo.make_est(s, CONDITIONS.setdefault(str(sorted(s["opt"].items())), zoo.make_opt(s["opt"])))


def do_task(task, ctx=None):
    at, kind = task["fault"] or (None, "error")

    if task.get("again"):
        s = task["est"]
        X, y = zoo.make_data(task["data"])
        est = build(s)
        first = attempt(lambda: zoo.fit_est(est, X, y) and None)
        X2, y2 = zoo.make_data({**task["data"], "seed": task["again"]["seed"]})
        if task["again"]["bad"]:
            X2 = X2.copy()
            X2[0, 0] = float("nan")
        with OpFaults(at, kind, ctx):
            second = attempt(lambda: zoo.fit_est(est, X2, y2) and None)
        return "ok", {"first": str(first), "second": str(second), **observe(est, s["est"], s, X, y)}

    def body():
        if task["task"] == "fit":
            s = task["est"]
            X, y = zoo.make_data(task["data"])
            est = build(s)
            zoo.fit_est(est, X, y)
            return observe(est, s["est"], s, X, y)
        if task["task"] == "train":
            return train(task["loss"], task["steps"], task["batches"])
        import numpy as np
        import torch as pt
        from skwdro.base.cost_decoder import cost_from_str
        from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
        g = np.random.RandomState(task["seed"])
        out = {}
        for i in range(task["times"]):
            # a newly built sampler of a given seed, used at once
            x = pt.tensor(g.randn(task["n"], task["d"]), dtype=pt.float32)
            y = pt.tensor(g.randn(task["n"], 1), dtype=pt.float32)
            if task["labels"]:
                smp = LabeledCostSampler(cost_from_str("t-" + task["cost"] + "-2.0"), x, y, .3, seed=task["seed"])
                out[str(i)] = zoo.arr(smp.log_prob(x.unsqueeze(0), y.unsqueeze(0)))
            else:
                smp = NoLabelsCostSampler(cost_from_str("t-" + task["cost"].replace("NLC", "NC")), x, .3, seed=task["seed"])
                out[str(i)] = zoo.arr(smp.log_prob(x.unsqueeze(0), None))
        return out
    with OpFaults(at, kind, ctx):
        return attempt(body)


class C02(Check):
    id = "C02"
    runs = {"quick": 1500, "thorough": 9000}
    timeout = 90.
    rule = ("a run is non-trivial when at least two threads had work, at least one switch happened inside library code "
            "and at least one task completed with numbers to compare")
    real = ["all of skwdro", "torch", "threads of the operating system, one released at a time"]
    stubs = ["locks created by skwdro (scheduler-controlled, same semantics)"]
    state_measure = "distinct interleavings, as sequences of (thread, switch position, next thread)"
    assumptions = ["switch points are the statements of skwdro and operations on its locks, so races between two "
                   "operations of one statement, or inside third-party code, are not reached",
                   "threads do not use numpy's or python's global generators themselves"]

    def gen(self, rng, tier):
        threads = [{"tasks": [gen_task(rng) for _ in range(rng.choice([1, 1, 2]))]} for _ in range(rng.choice([2, 2, 3, 4]))]
        r = rng.random()
        if r < .15:  # the same work in every thread
            threads = [threads[0]] * len(threads)
        elif r < .6:  # nearly so
            threads = [{"tasks": [sibling(rng, t) for t in threads[0]["tasks"]]} for _ in threads]
        if rng.random() < .3:  # fits with the same stopping condition
            opt = zoo.gen_opt(rng)
            for t in threads:
                for k in t["tasks"]:
                    if k["task"] == "fit":
                        k["est"].update(opt=opt, shared=True, n_iter=rng.choice([[0, 8], [1, 5], [0, 20]]))
        p = {"ambient": rng.randrange(1000), "threads": threads, "pick": rng.randrange(10**6), "focus": None}
        if rng.random() < .7:  # switches in a few functions only, many of them there
            p["focus"] = [rng.choice([4, 12, 40]), rng.randrange(1000)]
            p["switches"] = gen_switches(rng, rng.choice([3, 20, 80, 250]), (1, 1, 2, 4, 15))
        else:
            p["switches"] = gen_switches(rng)
        p["hot"] = rng.choice([0., 0., .5, 1.])
        return p

    def valid(self, p):
        return all(t["tasks"] for t in p["threads"])

    def simpler(self, p):
        if p["hot"]:
            yield {**p, "hot": 0.}
        for i, t in enumerate(p["threads"]):
            for j, k in enumerate(t["tasks"]):
                if k["fault"]:
                    q = [dict(x, tasks=list(x["tasks"])) for x in p["threads"]]
                    q[i]["tasks"][j] = {**k, "fault": None}
                    yield {**p, "threads": q}

    def run(self, plan, ctx):
        CONDITIONS.clear()
        def alone(tasks):
            reset_generators(plan["ambient"])
            return [do_task(t) for t in tasks]
        expect = [in_fork(lambda: alone(t["tasks"])) for t in plan["threads"]]
        sched = Scheduler(ctx, plan["switches"], plan["pick"], focus=plan["focus"], hot=plan["hot"])
        for t in plan["threads"]:
            sched.spawn(lambda t=t: [do_task(k, ctx) for k in t["tasks"]])
        threads = sched.run()
        done = 0
        for i, (t, e) in enumerate(zip(threads, expect)):
            if t.exc is not None:
                raise RuntimeError(f"thread {i} ended by {t.exc!r}")
            for j, (got, want) in enumerate(zip(t.result, e)):
                if got[0] != want[0]:
                    raise Violation("outcome", f"thread {i} task {j}: {got if got[0] != 'ok' else 'ok'}, alone {want if want[0] != 'ok' else 'ok'}")
                if got[0] == "ok":
                    done += 1
                    d = zoo.diff(got[1], want[1])
                    if d:
                        raise Violation("differs", f"thread {i} task {j} among {len(threads)} threads / alone: {d}")
        ctx.state([s[:3] for s in sched.signature])
        ctx.probe("switches inside library code", len(sched.signature))
        ctx.nontrivial = len(threads) > 1 and bool(sched.signature) and done > 0


CHECK = C02()
