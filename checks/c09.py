"""C09: a solve keeps to its budget of steps, stops at a not-a-number loss, reports the end."""
import math
import warnings

import numpy as np
import torch as pt

from checks.c06 import Draws, gauss_ratio
from sim import zoo
from sim.core import Check, Violation
from sim.faults import attempt
from sim.objective import objective
from sim.robust import User, gen_fault, gen_user


class Watch:
    """Counts the steps of a solve and keeps the values of the loss."""

    def __init__(self, u, spec, draws):
        self.u, self.spec, self.draws = u, spec, draws
        self.begun, self.values, self.checks, self.inside = 0, [], [], False
        opt = u.dual.optimizer
        step = opt.step

        def counted(*a, **k):
            self.begun += 1
            self.inside = True
            out = step(*a, **k)
            self.inside = False
            return out
        opt.step = counted
        self.undo = lambda: opt.__dict__.pop("step", None)
        self.handle = u.dual.register_forward_hook(self.hook)

    def hook(self, mod, args, out):
        self.values.append((self.begun, float(out.detach().sum())))
        d = mod
        hit = self.u.model_faults.fired or self.u.loss_faults.fired
        if self.robust(self.begun) and not hit and all(bool(p.isfinite().all()) for p in d.parameters()):
            x, y = args[0], args[1] if len(args) > 1 else None
            z, zl = (args[2], args[3] if len(args) > 3 else None) if self.spec["mode"] == "pre" else (self.draws.last or (None, None))
            if z is None and float(d.rho) > 0:
                return
            c = dict(lam=float(d.lam), rho=float(d.rho), eps=float(d.epsilon), reduction=self.spec["reduction"])
            imp = bool(d.imp_samp) and float(d.rho) > 0
            sigma = self.spec.get("sigma", self.spec["rho"] * .5 if self.spec["rho"] > 0 else .5)
            refs = []
            for i, r in ([(True, gauss_ratio(self.spec, False, x, y, sigma)), (True, None), (False, None)] if imp else [(False, None)]):
                refs.append(objective(self.spec, self.u.model.inner, x, y, z, zl, imp_samp=i, ratio=r, **c))
            got = zoo.arr(out).astype(float)
            # (single precision says nothing of a network whose weights went astray)
            far = any(p.numel() and float(p.detach().abs().max()) > 1e4 for p in d.primal_loss.parameters())
            ok = False
            for r in refs:
                tol = 1e-3 * max(r["scale"], 1e-2) + 1e-3 * np.abs(r["value"])
                if not np.all(np.isfinite(r["value"])) or not np.all(np.isfinite(got)) or r.get("far", 0) > 1e4 \
                        or np.abs(got).max() > 1e8 or far or np.all(np.abs(got - r["value"]) <= tol):
                    ok = True
            if not ok:
                self.checks.append(f"robust step {self.begun}: loss {zoo.show(got)} instead of {zoo.show(refs[0]['value'])}")

    def robust(self, begun):
        return begun > self.pre if self.spec["mode"] == "pre" else begun >= self.pre


class C09(Check):
    id = "C09"
    runs = {"quick": 1200, "thorough": 24000}
    rule = "a run is non-trivial when a solve made at least two robust steps or met a fault or a not-a-number loss"
    real = ["solve_dual_wdro and both loops, dual losses, built-in optimizers, stopping conditions, samplers"]
    stubs = ["user's model and loss (real torch modules behind a call counter that can fail or answer nan, inf, huge values)"]
    state_measure = "distinct (settings, budgets, fault, steps made) tuples"
    assumptions = ["the robust objective is recomputed in float64 at every robust step (tolerance 1e-3); with importance sampling any of "
                   "displaced, undisplaced and ratio-free values is accepted here (C06 decides which)"]

    def gen(self, rng, tier):
        s = gen_user(rng)
        s["user"]["frozen"] = []
        if s["reduction"] == "none":
            s["reduction"] = "mean"
        s.pop("f64", None)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = {"n_iter": rng.choice([[0, 1], [1, 1], [2, 4], [3, 2], [0, 5], 3, 4, 7, 10, [5, 0]][:9]),
                 "batch": rng.randrange(1000), "n": rng.choice([2, 3, 5]), "strict": rng.random() < .75,
                 "cond": zoo.gen_opt(rng)}
            if rng.random() < .6:
                f = gen_fault(rng, ops=(1, 40, 150, 400), value=True)
                if f["where"] != "op":
                    f["at"] = rng.choice([1, 2, 3, 5, 8, 12, 20])
                    if rng.random() < .6:
                        f["kind"] = rng.choice(["nan", "nan", "inf", "-inf", "huge"])
                o["fault"] = f
            ops.append(o)
        return {"loss": s, "ops": ops}

    def run(self, plan, ctx):
        s = plan["loss"]
        draws = Draws()
        u = User(s, ctx)
        d = u.dual
        shape, broken = [], False
        for o in plan["ops"]:
            ctx.step()
            n_iter = o["n_iter"]
            d.n_iter = tuple(n_iter) if isinstance(n_iter, list) else n_iter
            pre, n = n_iter if isinstance(n_iter, list) else (int(.3 * n_iter), n_iter)
            if broken or not all(bool(p.isfinite().all()) for p in d.parameters()):
                # what a diverged solve, or one cut inside the third-party update, leaves behind is the caller's to rebuild
                pt.set_grad_enabled(True)  # mechanic, cut short, leaves it off
                u = User(s, ctx)
                d, broken = u.dual, False
                d.n_iter = tuple(n_iter) if isinstance(n_iter, list) else n_iter
            w = Watch(u, s, draws)
            w.pre = pre
            u.model_faults.fired = u.loss_faults.fired = False
            x, y = u.batch(o["batch"], o["n"])
            cond = dict(o["cond"])
            if o["strict"]:
                cond.update(tol_theta=-1., tol_lambda=-1.)
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                (st, res), fired = u.with_fault(o.get("fault"), lambda: u.solve(x, y, cond))
            w.undo()
            w.handle.remove()
            made = w.begun
            raised = fired and o["fault"]["kind"] in ("error", "interrupt", "memory")
            if made > pre + n:
                raise Violation("budget", f"{made} steps for a budget of {pre} + {n}")
            if raised:
                if st == "ok":
                    raise Violation("swallowed", f"a failure in step {made} did not reach the caller")
                broken = w.inside and o["fault"]["where"] == "op"
                shape.append((pre, n, made, o["fault"]["kind"]))
                continue
            if st != "ok":
                if fired or (o["cond"]["metric"] == "grad" and res in ("ValueError", "NoneGradError")):
                    # a poisoned value may be refused by torch; missing gradients by the condition
                    shape.append((pre, n, made, str(res)))
                    continue
                if any(math.isnan(v) or math.isinf(v) for _, v in w.values):
                    continue
                raise Violation("raises", f"solve raised {res}")
            if w.checks:
                raise Violation("objective", w.checks[0])
            # value of each robust step: the last one computed in it
            last = {}
            for b, v in w.values:
                if w.robust(b):
                    last[b if s["mode"] == "pre" else b + 1] = v
            nans = [b for b in sorted(last) if math.isnan(last[b])]
            told = any("NaN" in str(m.message) or "diverged" in str(m.message) for m in ws)
            if nans:
                if made != nans[0]:
                    raise Violation("nan", f"the loss of robust step {nans[0] - pre} is not a number, {made - pre} robust steps were made")
                if not told:
                    raise Violation("silent", f"the solve stopped at a not-a-number loss without a warning")
            else:
                if told:
                    raise Violation("nan", "warned of divergence without a not-a-number loss")
                if o["strict"] and made != pre + n:
                    raise Violation("budget", f"{made} steps for a budget of {pre} + {n}")
                if made < pre + 1:
                    raise Violation("budget", f"stopped after {made} steps in a warm-up of {pre}")
            theta, intercept, lam, value = res
            want = zoo.arr(d.primal_loss.theta).ravel()
            if not zoo.close(zoo.arr(theta).ravel(), want):
                raise Violation("result", f"returned parameters {zoo.show(theta)}, the loss has {zoo.show(want)}")
            have = float(d.lam) if float(d.rho) > 0 else 0.
            if not zoo.close(float(np.ravel(lam)[0]), have):
                raise Violation("result", f"returned multiplier {zoo.show(lam)}, the loss has {have}")
            if last and not zoo.close(float(value), last[max(last)]):
                raise Violation("result", f"reported loss {value}, the last one computed is {last[max(last)]}")
            ctx.event(made, float(value))
            shape.append((pre, n, made, bool(nans)))
        ctx.state(s["mode"], s["adapt"], s["kind"], shape)
        ctx.nontrivial = any(m - p >= 2 or x not in (False,) for p, _, m, x in shape)


CHECK = C09()
