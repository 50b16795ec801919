"""C10: the dual multiplier never becomes negative."""
import copy
import math

import numpy as np
import torch as pt

from sim import zoo
from sim.core import Check, Violation
from sim.faults import attempt
from sim.robust import User, gen_fault, gen_user, presample

SIZES = [0., 1e-30, 1e-6, .1, 1., 10., 1e4, 1e10, -1e-6, -.1, -1., -10., -1e4]
WILD = [math.inf, -math.inf, math.nan, 1e30, -1e30, 3e38]


class C10(Check):
    id = "C10"
    runs = {"quick": 1500, "thorough": 30000}
    rule = "a run is non-trivial when a step was made with a gradient pushing the multiplier below zero"
    real = ["dual losses, CompositeOptimizer, Prodigy, Mechanic, AdamW, LBFGS, get_initial_guess_at_dual, solve_dual_wdro"]
    stubs = ["gradients (written by the plan in a share of the steps)", "user's model and loss (may answer nan, inf, huge values)"]
    state_measure = "distinct (optimizer, mode, history of gradient sizes and operations)"
    assumptions = ["values beyond 1e15 may overflow in float32 and count as not finite"]

    def gen(self, rng, tier):
        s = gen_user(rng, modes=("post", "post", "pre"))
        s["user"]["frozen"] = []
        if s["adapt"] is None or s["mode"] == "pre":
            s["lr"] = rng.choice([None, 1e-3, .05, .5, 5.])
        wild = rng.random() < .35
        ops = []
        for _ in range(rng.choice([4, 8, 14] if tier == "quick" else [8, 20, 40])):
            o = {"op": rng.choice(["grads"] * 5 + ["step", "step", "init", "solve", "lam", "save", "load", "poison", "fail"]),
                 "lg": rng.choice(SIZES + (WILD if wild else [])), "tg": rng.choice(SIZES + (WILD if wild else [])),
                 "batch": rng.randrange(1000), "n": rng.choice([1, 2, 4]), "value": rng.choice([0., 1e-30, 1e-3, 1., 50.]),
                 "loss": rng.choice([0., 1., -5., 1e3] + (WILD if wild else []))}
            if o["op"] == "poison":
                o["fault"] = {"where": rng.choice(["model", "loss"]), "at": rng.choice([1, 1, 2]),
                              "kind": rng.choice(["nan", "inf", "-inf", "huge"]) if wild else "error"}
            if o["op"] == "fail":
                o["fault"] = gen_fault(rng, ops=(1, 10, 30))
                if o["fault"]["where"] == "op":
                    o["fault"]["where"] = "loss"
                    o["fault"]["at"] = 1
            if o["op"] == "solve":
                o["opt"] = zoo.gen_opt(rng)
            ops.append(o)
        return {"loss": s, "ops": ops}

    def run(self, plan, ctx):
        s = plan["loss"]
        u = User(s, ctx)
        d = u.dual
        tainted, pushed, saved, hist = False, False, None, []

        def look(where):
            lam = float(d.lam)
            if lam < 0:
                raise Violation("negative", f"multiplier {lam} after {where}")
            if math.isnan(lam) and not tainted:
                raise Violation("nan", f"multiplier is not a number after {where}, all losses and gradients were finite")

        def wild(v):
            return not math.isfinite(v) or abs(v) > 1e15
        # anything the loss computes that is not finite explains a not-a-number multiplier

        def hook(mod, args, out):
            nonlocal tainted
            tainted = tainted or wild(float(out.detach().abs().max()))
        d.register_forward_hook(hook)
        look("construction")
        for o in plan["ops"]:
            k = o["op"]
            ctx.step()
            hist.append((k, o["lg"] if k == "grads" else None))
            x, y = u.batch(o["batch"], o["n"])

            def after_grads():
                nonlocal tainted
                for p in d.parameters():
                    if p.grad is not None and not tainted:
                        tainted = wild(float(p.grad.abs().max()))
            if k == "grads":
                tainted = tainted or any(map(wild, (o["lg"], o["tg"], o["loss"])))
                if wild(o["lg"]) or wild(o["tg"]):
                    ctx.fault("wild gradient")

                def write():
                    with pt.no_grad():
                        for p in u.model.parameters():
                            p.grad = pt.full_like(p, o["tg"])
                        if zoo.lam_param(d).requires_grad:
                            zoo.lam_param(d).grad = pt.full_like(zoo.lam_param(d), o["lg"])
                    return o["loss"]
                pushed = pushed or o["lg"] > 0
                if s["mode"] == "pre":
                    st, v = attempt(lambda: d.optimizer.step(write))
                else:
                    write()
                    st, v = attempt(lambda: d.optimizer.step())
                if st != "ok":
                    if not tainted:
                        raise Violation("raises", f"step raised {v}")
                    pt.set_grad_enabled(True)
            elif k == "step":
                st, v = attempt(lambda: u.step(x, y))
                after_grads()
                if st != "ok" and not tainted:
                    raise Violation("raises", f"step raised {v}")
                pt.set_grad_enabled(True)
            elif k in ("poison", "fail"):
                (st, v), fired = u.with_fault(o["fault"], lambda: u.step(x, y))
                after_grads()
                pt.set_grad_enabled(True)
            elif k == "init":
                attempt(lambda: u.init(x, y))
                # its gradients are not visible: they may overflow for huge parameters
                tainted = tainted or any(wild(float(p.detach().abs().max()) * 1e6) for p in u.model.parameters())
            elif k == "solve":
                attempt(lambda: u.solve(x, y, o["opt"]))
                after_grads()
                tainted = tainted or any(wild(float(p.detach().abs().max()) * 1e6) for p in u.model.parameters())
            elif k == "lam":
                with pt.no_grad():
                    zoo.lam_param(d).fill_(o["value"] if s["rho"] > 0 else 0.)
            elif k == "save" and s["adapt"] != "mechanic":
                saved = copy.deepcopy((d.state_dict(), d.optimizer.state_dict()))
            elif k == "load" and saved is not None:
                d.load_state_dict(saved[0])
                d.optimizer.load_state_dict(copy.deepcopy(saved[1]))
            tainted = tainted or any(wild(float(p.detach().abs().max())) for p in u.model.parameters())
            look(f"{k} {({a: o[a] for a in ('lg', 'tg', 'loss')}) if k == 'grads' else ''}")
            ctx.event(k, repr(float(d.lam)))
        ctx.state(s["mode"], s["adapt"] if s["mode"] == "post" else "lbfgs", hist)
        ctx.nontrivial = pushed


CHECK = C10()
