"""C04: a failed evaluation can be retried as if it never happened."""
import copy

from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.robust import User, counted, gen_fault, gen_user
from sim.threads import Scheduler


def gen_loss(rng, **kw):
    s = gen_user(rng, bn=True, **kw)
    s["user"]["eval"] = "all"  # batch statistics of a failed evaluation are the model's own business
    return s


def do(u, op):
    x, y = u.batch(op["batch"], op["n"])
    k = op["op"]
    if k == "eval":
        return {"value": zoo.arr(u.evaluate(x, y))}
    if k == "grads":
        v = u.grads(x, y)
        return {"value": zoo.arr(v), "grads": u.grad_state()}
    if k == "step":
        v = u.step(x, y)
        return {"value": zoo.arr(v), "state": u.state()}
    if k == "init":
        u.init(x, y)
        return {"lam": zoo.arr(u.dual.lam)}
    r = u.solve(x, y, op["opt"])
    return {"result": [zoo.arr(v) for v in r], "state": u.state()}


def attempted(u, op, x, y):
    """The part of an operation that may fail and be tried again."""
    return {"eval": lambda: u.evaluate(x, y), "init": lambda: u.init(x, y)}.get(op["op"], lambda: u.grads(x, y))


def in_thread(ctx, fn):
    """Run fn in another thread: it must not find anything locked."""
    sched = Scheduler(ctx)
    t = sched.spawn(fn)
    sched.run()
    if t.exc is not None:
        raise t.exc
    return t.result


class C04(Check):
    id = "C04"
    runs = {"quick": 900, "thorough": 16000}
    rule = "a run is non-trivial when at least one injected fault fired inside a call that was then retried and compared"
    real = ["robustify, dual losses, samplers, importance sampling, optimizers, solve_dual_wdro", "torch"]
    stubs = ["user's model and loss (real torch modules behind a call counter that can fail)",
             "locks created by skwdro (known to the scheduler)"]
    state_measure = "distinct (operation, fault site, fault kind, retried in another thread, sampling mode, importance sampling, loss kind) tuples"
    assumptions = ["model in evaluation mode (no batch statistics, no dropout)",
                   "an optimizer step itself is not interrupted, only the evaluation and differentiation before it",
                   "after an interrupted solve the comparison is with a new loss given the same state"]

    def gen(self, rng, tier):
        s = gen_loss(rng)
        ops = [{"op": "init", "batch": rng.randrange(1000), "n": 4, "faults": [], "other_thread": False}] if rng.random() < .4 else []
        for _ in range(rng.choice([2, 3, 5] if tier == "quick" else [3, 6, 10])):
            o = {"op": rng.choice(["eval", "grads", "grads", "step", "step", "init"]),
                 "batch": rng.randrange(1000), "n": rng.choice([2, 3, 5]), "faults": [], "other_thread": False}
            if rng.random() < .6:
                o["faults"] = [gen_fault(rng, ops=(1, 8, 25, 60, 110)) for _ in range(rng.choice([1, 1, 2]))]
                o["other_thread"] = rng.random() < .2
                o["abandon"] = rng.random() < .35
            if rng.random() < .3:
                o["failed_batch"] = rng.randrange(1000)
            ops.append(o)
        p = {"ambient": rng.randrange(1000), "loss": s, "ops": ops, "solve": None}
        if rng.random() < .35:
            p["solve"] = {"op": "solve", "batch": rng.randrange(1000), "n": 5, "opt": zoo.gen_opt(rng),
                          "fault": gen_fault(rng, ops=(1, 30, 100, 200, 400, 700))}
            if p["solve"]["fault"]["where"] != "op":
                p["solve"]["fault"]["at"] = rng.randrange(1, 12)
        return p

    def simpler(self, p):
        if p["solve"]:
            yield {**p, "solve": None}
        for i, o in enumerate(p["ops"]):
            if o["other_thread"]:
                yield {**p, "ops": p["ops"][:i] + [{**o, "other_thread": False}] + p["ops"][i + 1:]}

    def run(self, plan, ctx):
        s = plan["loss"]

        def alone():
            reset_generators(plan["ambient"])
            u = User(s)
            out = [None if op.get("abandon") else do(u, op) for op in plan["ops"]]
            # how many places there are to fail in, of each kind
            places = []
            for op in plan["ops"]:
                x, y = u.batch(op["batch"], op["n"])
                call = attempted(u, op, x, y)
                places.append({f["where"]: counted(f["where"], lambda: call() is None)[1] for f in op["faults"] if "frac" in f})
            return out, places
        expect, places = in_fork(alone)
        u = User(s, ctx)
        for i, op in enumerate(plan["ops"]):
            for f in op["faults"]:
                x, y = u.batch(op.get("failed_batch", op["batch"]), op["n"])
                (out, e), fired = u.with_fault(f, attempted(u, op, x, y), places[i].get(f["where"]))
                ctx.event("attempt", op["op"], f, out, fired)
                if out == "raises":
                    raise Violation("raises", f"{op['op']} {i} raised {e} (fault fired: {fired})")
                if fired and out == "injected":
                    ctx.nontrivial = True
                    ctx.state(op["op"], f["where"], f["kind"], op["other_thread"], s["mode"], s["imp_samp"], s["kind"])
                if op["op"] == "init" and out == "ok":
                    ctx.probe("fault beyond the end of the call")
                if op["op"] not in ("eval", "init"):
                    u.dual.optimizer.zero_grad()
                if op["op"] == "init" and out == "ok" and op.get("abandon"):
                    return
            if op.get("abandon"):  # go on with the next batch, as if the call was never made
                ctx.probe("failed call not retried")
                continue
            got = in_thread(ctx, lambda: do(u, op)) if op["other_thread"] else do(u, op)
            ctx.step()
            d = zoo.diff(got, expect[i])
            if d:
                raise Violation("differs", f"{op['op']} {i} after {len(op['faults'])} failed attempts / never failed: {d}")
            ctx.event(op["op"])
        sv = plan["solve"]
        if not sv:
            return
        x, y = u.batch(sv["batch"], sv["n"])
        (out, e), fired = u.with_fault(sv["fault"], lambda: u.solve(x, y, sv["opt"]))
        ctx.event("solve", out, fired)
        ctx.probe(f"solve {out}")
        if not fired:
            return
        # a new loss in the same state must behave alike
        twin = User(s)
        twin.dual.load_state_dict(u.dual.state_dict())
        if s["mode"] == "pre" or s["adapt"] is None or s["adapt"] == "prodigy":
            twin.dual.optimizer.load_state_dict(copy.deepcopy(u.dual.optimizer.state_dict()))
            tasks = ["eval", "grads", "step", "solve"]
        else:
            tasks = ["eval", "grads", "init"]
        for k in tasks:
            op = {"op": k, "batch": sv["batch"] + 1, "n": 3, "opt": sv["opt"]}
            a, b = (zoo.attempt_dict(lambda: do(w, op)) for w in (u, twin))
            ctx.step()
            d = zoo.diff(a, b)
            if d:
                raise Violation("after solve", f"{k} after an interrupted solve / of a new loss in the same state: {d}")
        ctx.nontrivial = True
        ctx.state("solve", sv["fault"]["where"], sv["fault"]["kind"], s["mode"], s["imp_samp"], s["kind"], sv["opt"]["metric"])


CHECK = C04()
