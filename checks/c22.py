"""C22: an error or an interrupt in the middle of a call reaches the caller."""
import copy
import pickle

import numpy as np
import torch as pt

from checks.c14 import Seam
from sim import zoo
from sim.core import Check, Violation
from sim.faults import CallFaults, FaultyModule, INJECTED, attempt, place
from sim.robust import User, gen_user

SCOPES = ("lib", "lib", "op", "op", "draw", "user")
# what tensor operations, draws and solves, and the user's own code can raise
KINDS = {"lib": ("error",), "op": ("error", "runtime", "runtime", "value"), "draw": ("error", "runtime", "value", "arithmetic"),
         "user": ("error", "runtime", "value", "arithmetic", "type", "attribute", "lookup", "os", "assertion")}


def chain(e):
    """The exception and what it was raised from or while handling."""
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


class User_:
    """The calls of the user's model and loss as places of errors."""

    def __init__(self, u, at=None, kind="error"):
        self.u, self.at, self.kind = u, at, kind
        self.count, self.fired, self.spots = 0, None, {}

    def __enter__(self):
        fs = self.fs = (self.u.model_faults, self.u.loss_faults)
        self.start = [f.count for f in fs]
        if self.at is not None:
            fs[self.at % 2].arm(1 + (self.at - 1) // 2, self.kind)
        return self

    def __exit__(self, *e):
        self.count = sum(f.count - s for f, s in zip(self.fs, self.start))
        for f in self.fs:
            if f.fired:
                self.fired = "user's code"
            f.disarm()
            f.fired = False


class C22(Check):
    id = "C22"
    runs = {"quick": 3000, "thorough": 30000}
    rule = "a run is non-trivial when at least one call was struck by an injected error"
    real = ["estimators, robust losses, solves, samplers, constrained optimizers", "torch, numpy, sklearn, cvxpy"]
    stubs = ["user's model and loss (real torch modules behind a call counter that can fail)"]
    state_measure = "distinct (call, place and kind of the error)"
    assumptions = ["errors strike at statements of the library, tensor operations, draws, seeding, convex solves, backward passes, calls of "
                   "the user's model and loss, never inside handlers of other errors or clean-up code",
                   "an ordinary error may be replaced by one raised while handling it; an interrupt may not"]

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 4] if tier == "quick" else [3, 6, 9])):
            k = rng.choice(["fit", "fit", "fit", "ask", "loss", "loss", "loss", "hybrid"])
            o = {"op": k, "scope": rng.choice(SCOPES), "frac": rng.random()}
            if k in ("fit", "ask"):
                o["est"] = zoo.gen_est(rng)
                o["est"]["n_iter"] = rng.choice([[1, 1], [1, 2], [0, 2], 2, [3, 4]])
                if rng.random() < .1:
                    o["est"]["rho"] = 1
                o["data"] = zoo.gen_data(rng, zoo.KIND[o["est"]["est"]], n=rng.choice([5, 6]))
                if o["est"]["solver"] == "dedicated":
                    o["data"]["k"] = 2
                if o["scope"] == "user":
                    o["scope"] = "draw"
                if k == "ask":
                    o["q"] = rng.choice(["predict", "predict", "proba", "score", "score", "params", "copy", "pickle"])
                    o["scope"] = rng.choice(["lib", "lib", "op"])
            elif k == "loss":
                o["loss"] = gen_user(rng, bn=True, adapt=("prodigy", None, "mechanic"))
                o["what"] = rng.choice(["eval", "eval", "grads", "step", "init", "solve", "solve", "build"])
                o["opt"] = zoo.gen_opt(rng)
                o["warm"] = rng.choice([0, 0, 1, 2])
                if o["what"] == "build" and o["scope"] == "user":
                    o["scope"] = "lib"
            else:
                o["rule"] = rng.choice(["mwu", "mwu_simplex", "non_neg", "max", "bound"])
                o["adam"], o["closure"] = rng.random() < .5, rng.random() < .7
                if o["scope"] in ("user", "draw"):
                    o["scope"] = "lib"
            o["kind"] = rng.choice(["interrupt", "interrupt", "memory", *[rng.choice(KINDS[o["scope"]]) for _ in range(3)]])
            ops.append(o)
        return {"ambient": rng.randrange(1000), "ops": ops}

    def call(self, op):
        """The call to make, and the user (if any) whose code it runs."""
        if op["op"] in ("fit", "ask"):
            est = zoo.make_est(op["est"])
            X, y = zoo.make_data(op["data"])
            if op["op"] == "fit":
                return (lambda: zoo.fit_est(est, X, y)), None
            if attempt(lambda: zoo.fit_est(est, X, y) and None)[0] != "ok":
                return None, None
            return {"predict": lambda: est.predict(X), "proba": lambda: est.predict_proba(X),
                    "score": lambda: est.score(X, y) if y is not None else est.score(X), "params": lambda: est.get_params(),
                    "copy": lambda: copy.deepcopy(est), "pickle": lambda: pickle.dumps(est)}[op["q"]], None
        if op["op"] == "loss":
            if op["what"] == "build":
                return (lambda: User(op["loss"])), None
            u = User(op["loss"])
            x, y = u.batch(3, 4)
            for _ in range(op["warm"]):
                attempt(lambda: u.step(x, y))
            return {"eval": lambda: u.evaluate(x, y), "grads": lambda: u.grads(x, y), "step": lambda: u.step(x, y),
                    "init": lambda: u.init(x, y), "solve": lambda: u.solve(x, y, op["opt"])}[op["what"]], u
        from skwdro.solvers import hybrid_opt
        p = pt.nn.Parameter(pt.tensor([.2, .3, .5], dtype=pt.float32))
        o = (hybrid_opt.HybridAdam if op["adam"] else hybrid_opt.HybridSGD)([{"params": [p], op["rule"]: True}], lr=.1)

        def closure():
            o.zero_grad()
            v = (p * p).sum()
            v.backward()
            return v
        if not op["closure"]:
            closure()
        return (lambda: o.step(closure if op["closure"] else None)), None

    def run(self, plan, ctx):
        for n, op in enumerate(plan["ops"]):
            ctx.step()
            twin, u = self.call(op)
            if twin is None:
                continue
            seam = (lambda at=None, kind="error": User_(u, at, kind)) if op["scope"] == "user" else \
                (lambda at=None, kind="error": Seam(op["scope"], at, kind, ctx if at else None))
            with seam() as c:
                st, _ = attempt(lambda: twin() and None)
            fn, u = self.call(op)
            pt.set_grad_enabled(True)
            got = None
            with seam(place(op["frac"], c.count, c.spots.values()), op["kind"]) as c:
                try:
                    fn()
                except BaseException as e:
                    got = e
            pt.set_grad_enabled(True)
            what = op.get("what") or op.get("rule") or f"{op['est']['est']} {op['est']['solver']} {op.get('q', '')}"
            ctx.event(op["op"], str(what), st, str(c.fired), type(got).__name__)
            if c.fired is None:
                if got is not None and isinstance(got, INJECTED):
                    raise RuntimeError("harness: fault not recorded")
                continue
            ctx.nontrivial = True
            ctx.state(op["op"], what, op["kind"], str(c.fired))
            where = f"operation {n} ({op['op']} {what}), {op['kind']} injected at {c.fired}"
            if got is None:
                raise Violation("swallowed", f"{where}: the call returned as if nothing had happened")
            if not any(isinstance(e, INJECTED) for e in chain(got)):
                raise Violation("replaced", f"{where}: the caller gets {type(got).__name__}: {got}")
            if op["kind"] == "interrupt" and not isinstance(got, KeyboardInterrupt):
                raise Violation("interrupt", f"{where}: the interrupt becomes {type(got).__name__}: {got}")


CHECK = C22()
