"""C03: evaluating the robust loss leaves the caller's model and data as found."""
import numpy as np
import torch as pt

from sim import zoo
from sim.core import FAULTS, Check, Violation
from sim.robust import User, gen_fault, gen_user


def same(a, b):
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def snapshot(u, data):
    out = {}
    for k, p in u.model.named_parameters():
        out["value of " + k] = p.detach().clone().numpy()
        out["gradient of " + k] = None if p.grad is None else p.grad.detach().clone().numpy()
        out["trainable flag of " + k] = np.array(p.requires_grad)
        out["identity of " + k] = np.array(id(p))
    for k, m in u.model.named_modules():
        out["mode of model." + k] = np.array(m.training)
        if not m.training:
            for n, b in m.named_buffers(recurse=False):
                out[f"buffer {k}.{n}"] = b.detach().clone().numpy()
    for k in ("rho", "epsilon"):
        p = getattr(u.dual, k)
        out["value of " + k] = p.detach().clone().numpy()
        out["trainable flag of " + k] = np.array(p.requires_grad)
    out["trainable flag of lambda"] = np.array(u.dual.lam.requires_grad)
    for i, t in enumerate(data):
        if t is not None:
            out[f"caller's tensor {i}"] = t.detach().clone().numpy()
            out[f"caller's tensor {i} gradient"] = None if t.grad is None else t.grad.detach().clone().numpy()
            out[f"caller's tensor {i} requires_grad"] = np.array(t.requires_grad)
    return out


class C03(Check):
    id = "C03"
    runs = {"quick": 1200, "thorough": 22000}
    rule = ("a run is non-trivial when at least one evaluation or dual initialisation completed or was interrupted by a "
            "fault that fired, and the model has some frozen parameter, sub-module in evaluation mode, or stored gradient")
    real = ["robustify, dual losses, samplers, importance sampling, optimizers, solve_dual_wdro", "torch"]
    stubs = ["user's model and loss (real torch modules behind a call counter that can fail)"]
    state_measure = "distinct (operation, outcome, fault site, sampling mode, importance sampling, model state class) tuples"
    assumptions = ["faults hit tensor operations that allocate and calls of the user's model and loss",
                   "buffers of sub-modules in training mode may change (batch statistics)",
                   "after a not-a-number or overflowing loss, values of frozen parameters are not compared in the "
                   "pre-sampled mode (torch's LBFGS)"]

    def gen(self, rng, tier):
        s = gen_user(rng, bn=True, dropout=True)
        ops = []
        for _ in range(rng.choice([2, 4, 7] if tier == "quick" else [3, 6, 12])):
            o = {"op": rng.choice(["eval", "eval", "eval", "init", "step", "solve"]),
                 "batch": rng.randrange(1000), "n": rng.choice([2, 3, 5]),
                 "xgrad": rng.random() < .15,
                 "fault": gen_fault(rng, value=True) if rng.random() < .6 else None}
            if o["op"] == "solve":
                o["opt"] = zoo.gen_opt(rng)
            ops.append(o)
        return {"ambient": rng.randrange(1000), "loss": s, "ops": ops}

    def simpler(self, p):
        for i, op in enumerate(p["ops"]):
            if op["fault"]:
                yield {**p, "ops": p["ops"][:i] + [{**op, "fault": None}] + p["ops"][i + 1:]}
        u = p["loss"]["user"]
        for k, v in (("frozen", []), ("eval", "none"), ("grads", False)):
            if u[k] != v:
                yield {**p, "loss": {**p["loss"], "user": {**u, k: v}}}

    def run(self, plan, ctx):
        s = plan["loss"]
        u = User(s, ctx)
        cls = (bool(s["user"]["frozen"]), s["user"]["eval"], s["user"]["grads"])
        frozen = {k for k, p in u.model.named_parameters() if not p.requires_grad}
        poisoned = False
        for op in plan["ops"]:
            x, y = u.batch(op["batch"], op["n"])
            if op["xgrad"] and op["op"] in ("eval", "init"):
                x.requires_grad_(True)
                x.grad = pt.ones_like(x)
            before = snapshot(u, (x, y))
            run = {"eval": lambda: u.evaluate(x, y), "init": lambda: u.init(x, y), "step": lambda: u.step(x, y),
                   "solve": lambda: u.solve(x, y, op["opt"])}[op["op"]]
            (out, _), fired = u.with_fault(op["fault"], run)
            if fired and op["fault"]["kind"] not in FAULTS or not all(
                    bool(p.isfinite().all()) for p in u.dual.parameters() if p.requires_grad):
                poisoned = True
            ctx.step()
            after = snapshot(u, (x, y))
            pure = op["op"] in ("eval", "init")
            for k in before:
                if not pure:
                    # training may change values and gradients of what is trainable
                    name = k.split(" of ")[-1]
                    if k.startswith(("value of ", "gradient of ")) and name not in frozen and name not in ("rho", "epsilon"):
                        continue
                    if k.startswith("gradient of "):
                        continue
                    if k.startswith("value of ") and s["mode"] == "pre" and poisoned:
                        continue  # torch's LBFGS spreads a NaN direction over everything it was given
                if k not in after:
                    if k.startswith("buffer"):  # its module's mode is compared on its own
                        continue
                    raise Violation("gone", f"{k} after {op['op']} ({out})")
                if not same(before[k], after[k]):
                    raise Violation(
                        k.split(" of ")[0].split(" ")[0],
                        f"{k} changed by {op['op']} ({out}{', fault ' + str(op['fault']) if fired else ''}): "
                        f"{zoo.show(before[k])} -> {zoo.show(after[k])}")
            ctx.event(op["op"], out, fired)
            ctx.state(op["op"], out, (op["fault"]["where"], op["fault"]["kind"]) if fired else None, s["mode"],
                      s["imp_samp"], s["kind"], cls)
            ctx.probe(f"{op['op']} {out}")
            if any(cls[::2]) or cls[1] != "none":
                ctx.nontrivial = True


CHECK = C03()
