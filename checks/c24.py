"""C24: user code called by the library may itself use the library."""
import copy
import itertools

import numpy as np
import torch as pt

from checks.c01 import observe
from checks.c02 import do_task, gen_task, sibling
from checks.c05 import act
from sim import zoo
from sim.core import Check, FAULTS, Violation, in_fork, reset_generators
from sim.faults import CallFaults, attempt
from sim.robust import User, gen_user

NAMES = itertools.count()
DOORS = {"loss": ["model", "loss", "cond"], "fit": ["array", "cond"], "hybrid": ["closure", "rule"]}


def gen_activity(rng, like=None):
    what = rng.choice(["loss", "loss", "loss", "fit", "fit", "hybrid"]) if like is None else like["what"]
    if what == "loss":
        a = {"loss": gen_user(rng, bn=True), "ops": []}
        if like is not None:
            a["loss"] = copy.deepcopy(like["loss"])
            k = rng.choice(["rho", "seed", "init", "n_iter", "n_samples", "l2", "none"])
            other = gen_user(rng)
            if k == "rho":
                a["loss"]["rho"] = rng.choice([.01, .1, .7])
            elif k in other:
                a["loss"][k] = other[k]
        for _ in range(rng.choice([1, 1, 2, 3])):
            a["ops"].append({"op": rng.choice(["step", "step", "eval", "grads", "init", "solve", "solve"]), "batch": rng.randrange(1000),
                             "n": rng.choice([2, 3, 5]), "opt": zoo.gen_opt(rng)})
    elif what == "fit":
        t = gen_task(rng)
        while t["task"] != "fit":
            t = gen_task(rng)
        if like is not None:
            t = sibling(rng, {**like["task"], "task": "fit"})
        a = {"task": {"est": t["est"], "data": t["data"], "fault": None}, "opt": zoo.gen_opt(rng)}
    else:
        a = {"rule": rng.choice(["mwu", "mwu_simplex", "non_neg", "max", "bound"]), "adam": rng.random() < .5,
             "values": [round(rng.uniform(.1, 1.), 2) for _ in range(rng.choice([2, 3]))], "steps": rng.choice([1, 2, 4])}
    return {"what": what, **a, "visits": []}


class Visits(CallFaults):
    """Calls of user code of an activity, some of which pay visits to the library."""

    def __init__(self, a, door, results, ctx, split):
        super().__init__(ctx)
        self.split = split
        self.due = [(n, v) for n, v in enumerate(a["visits"]) if v["door"] == door]
        self.results, self.busy = results, False

    def hit(self, where):
        self.count += 1
        # (torch does not allow to train anything inside of its function transforms)
        while self.due and self.count >= self.due[0][1]["at"] and not self.busy \
                and pt._C._functorch.maybe_current_level() is None:
            n, v = self.due.pop(0)
            self.busy = True
            if self.ctx is not None:
                self.ctx.event("visit", where, v["act"]["what"])
                self.ctx.probe("visits from " + where)
            try:
                with pt.enable_grad():
                    self.results[n] = perform(v["act"], self.ctx, self.split)
            finally:
                self.busy = False
            if v["fails"]:  # the user's code itself breaks after its visit
                if self.ctx is not None:
                    self.ctx.fault(f"{v['fails']} in {where} after a visit")
                raise FAULTS[v["fails"]](f"injected in {where}")
        return None


class Lazy:
    """Data computed when it is asked for."""

    def __init__(self, values, visits):
        self.values, self.visits = values, visits

    def __array__(self, dtype=None, copy=None):
        self.visits.hit("data")
        return np.array(self.values, dtype=dtype)


def perform(a, ctx=None, split=None):
    """The results of an activity, and of the activities its user code started."""
    results = {}
    if a["what"] == "nothing":
        return {}
    if a["what"] == "split":
        split()
        return {}
    if a["what"] == "task":
        st, own = do_task(a["task"], ctx)
        return {"own": own if st == "ok" else st, "visits": results}
    doors = {d: Visits(a, d, results, ctx, split) for d in DOORS[a["what"]]}
    return {"own": {"loss": do_loss, "fit": do_fit, "hybrid": do_hybrid}[a["what"]](a, doors), "visits": results}


def condition(o, visits):
    """A caller's stopping condition."""
    from skwdro.solvers.optim_cond import OptCondTorch

    class Mine(OptCondTorch):
        def __call__(self, *args, **kw):
            visits.hit("stopping condition")
            return super().__call__(*args, **kw)
    o = dict(o)
    return Mine(o.pop("order"), **o)


def do_loss(a, doors):
    u = User(a["loss"])
    u.model._f[0] = doors["model"]
    u.loss_faults = doors["loss"]
    if a["loss"]["kind"] != "fun":
        u.loss._f[0] = doors["loss"]
    out = {}
    for n, op in enumerate(a["ops"]):
        out[str(n)] = zoo.attempt_dict(lambda: act(u, op, condition(op["opt"], doors["cond"])))
    out["state"] = u.state()
    return out


def do_fit(a, doors):
    t = a["task"]
    X, y = zoo.make_data(t["data"])
    est = zoo.make_est(t["est"], condition(a["opt"], doors["cond"]))
    st = attempt(lambda: zoo.fit_est(est, Lazy(X, doors["array"]), y) and None)
    return {"outcome": str(st), **observe(est, t["est"]["est"], t["est"], X, y)}


def do_hybrid(a, doors):
    from skwdro.solvers import hybrid_opt
    w = pt.tensor(a["values"])
    p = pt.nn.Parameter(w / w.sum())
    q = pt.nn.Parameter(w.clone())
    name = f"sim_{next(NAMES)}"

    @hybrid_opt.prerule(name)
    def rule(v):
        doors["rule"].hit("rule")
    o = (hybrid_opt.HybridAdam if a["adam"] else hybrid_opt.HybridSGD)([{"params": [p], a["rule"]: True}, {"params": [q], name: True}], lr=.1)

    def closure():
        doors["closure"].hit("closure")
        o.zero_grad()
        v = (p * p + .3 * p * q).sum()
        v.backward()
        return v
    out = {}
    for n in range(a["steps"]):
        st, v = attempt(lambda: o.step(closure))
        out[str(n)] = [zoo.arr(v) if st == "ok" else f"{st} {v}", zoo.arr(p), zoo.arr(q)]
    return out


def unvisited(a):
    """The same activity, its user code without visits (but breaking where it would)."""
    return {**a, "visits": [{**v, "act": {"what": "nothing"}} for v in a.get("visits", [])]}


class C24(Check):
    id = "C24"
    runs = {"quick": 700, "thorough": 9000}
    rule = "a run is non-trivial when user code called by the library used the library, and both ended with numbers to compare"
    real = ["all of skwdro", "torch"]
    stubs = ["user's model, loss, data, stopping condition, closure and rule, from inside of which the simulator uses the library"]
    state_measure = "distinct (activity, door, call at which it opened, activity inside)"
    assumptions = ["no visits inside of torch's function transforms (torch itself forbids most of them)",
                   "user code visits other objects than the one that is calling it", "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        def visits(a, depth):
            for _ in range(rng.choice([1, 1, 2]) if depth == 0 else rng.choice([0, 0, 1])):
                r = rng.random()
                if r < .4:
                    inner = {"what": "task", "task": gen_task(rng)}
                else:
                    inner = gen_activity(rng, a if r < .75 else None)
                    if depth < 1:
                        visits(inner, depth + 1)
                doors = [d for d in DOORS[a["what"]] if d != "cond" or a["what"] == "fit" or any(o["op"] == "solve" for o in a["ops"])]
                a["visits"].append({"door": rng.choice(doors), "at": rng.choice([1, 1, 1, 2, 3, 5]), "act": inner,
                                    "fails": rng.choice(["error", "interrupt", "memory"]) if rng.random() < .15 else None})
            a["visits"].sort(key=lambda v: v["at"])
        a = gen_activity(rng)
        visits(a, 0)
        return {"ambient": rng.randrange(1000), "act": a}

    def run(self, plan, ctx):
        def alone(a):
            reset_generators(plan["ambient"])
            return perform(unvisited(a))["own"]

        def expected(a):
            return in_fork(lambda: alone(a)), [expected(v["act"]) for v in a.get("visits", [])]
        want = expected(plan["act"])
        got = perform(plan["act"], ctx)
        self.paid = 0
        self.compare(plan["act"], got, want, "outermost", ctx)
        ctx.step(self.paid)
        ctx.nontrivial = self.paid > 0

    def compare(self, a, got, want, path, ctx):
        own, inner = want
        if isinstance(own, dict) and isinstance(got["own"], dict):
            d = zoo.diff(got["own"], own)
        else:
            d = None if str(got["own"]) == str(own) else f"{zoo.show(got['own'])} / {zoo.show(own)}"
        if d:
            raise Violation("differs", f"{path} ({a['what']}), with visits / alone: {d}")
        for n, r in sorted(got["visits"].items()):
            v = a["visits"][n]
            self.paid += 1
            ctx.state(a["what"], v["door"], v["at"], v["act"]["what"], path)
            self.compare(v["act"], r, inner[n], f"{path} > {v['door']} call {v['at']}", ctx)


CHECK = C24()
