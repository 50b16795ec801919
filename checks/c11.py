"""C11: constrained gradient optimizers stay feasible, and their steps are atomic."""
import copy
import io
import math

import numpy as np
import torch as pt

from sim.core import Check, FAULTS, Violation
from sim.faults import OpFaults, attempt
from sim import zoo

RULES = [["mwu"], ["mwu_simplex"], ["non_neg"], ["max"], ["bound"], ["bound", "non_neg"], [], ["sim_pre"], ["sim_post"], ["sim_pre", "sim_post"]]
BOUND = 100.


class Reference:
    """The documented update on float64 arrays."""

    def __init__(self, plan):
        self.plan = plan
        self.p = [[np.array(v, dtype=float) for v in g["values"]] for g in plan["groups"]]
        self.st = [[{} for _ in g["values"]] for g in plan["groups"]]

    def step(self, grads):
        for i, g in enumerate(self.plan["groups"]):
            for j, p in enumerate(self.p[i]):
                d = grads[i][j]
                if d is None:
                    u = None  # torch skips parameters without gradient; the rules apply all the same
                else:
                    d = np.asarray(d, dtype=float)
                    u = self.direction(self.st[i][j], np.clip(d, -BOUND, BOUND) if "bound" in g["rules"] else d, g["lr"])
                u = 0. if u is None else u
                r = g["rules"]
                if "mwu" in r:
                    p = p * np.exp(u)
                elif "mwu_simplex" in r:
                    p = p * np.exp(u)
                    p = p / p.sum()
                elif "max" in r:
                    p = p - u
                else:
                    p = p + u
                    if "non_neg" in r:
                        p = np.maximum(p, 0.)
                    if "sim_pre" in r:
                        # a caller's rule that doubles before, and one that halves after
                        p = p + (p - u)
                    if "sim_post" in r:
                        p = p / 2
                self.p[i][j] = p

    def direction(self, st, g, lr):
        o = self.plan["opt"]
        if o["name"] == "sgd":
            if o["momentum"]:
                st["b"] = g if "b" not in st else o["momentum"] * st["b"] + g
                g = st["b"]
            return -lr * g
        b1, b2 = .9, .999
        st["t"] = st.get("t", 0) + 1
        st["m"] = b1 * st.get("m", 0.) + (1 - b1) * g
        st["v"] = b2 * st.get("v", 0.) + (1 - b2) * g * g
        return -lr * (st["m"] / (1 - b1 ** st["t"])) / (np.sqrt(st["v"] / (1 - b2 ** st["t"])) + 1e-8)


class C11(Check):
    id = "C11"
    runs = {"quick": 1500, "thorough": 40000}
    rule = "a run is non-trivial when at least two steps were compared with the reference update, or a failing one was undone"
    real = ["HybridSGD, HybridAdam, their rules, torch's SGD and Adam"]
    stubs = ["gradients and closures (chosen by the plan)", "two caller's rules, registered with the library's decorators, that may fail"]
    state_measure = "distinct (rules of the groups, optimizer, history)"
    assumptions = ["reference update in float64, rtol 1e-4; runs end before multiplicative updates leave the range of float32"]

    def gen(self, rng, tier):
        groups = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            rules = rng.choice(RULES)
            n = rng.choice([1, 2, 4])
            pos = rules and rules[0] in ("mwu", "mwu_simplex", "non_neg") or "non_neg" in rules
            vals = []
            for _ in range(rng.choice([1, 1, 2])):
                v = [round(rng.uniform(.1, 2.), 3) for _ in range(n)]
                if not pos:
                    v = [x * rng.choice([-1, 1]) for x in v]
                if rules == ["mwu_simplex"]:
                    t = sum(v)
                    v = [x / t for x in v]
                vals.append(v)
            groups.append({"rules": rules, "rows": rng.choice([0, 0, 1, 2]) if n != 1 else rng.choice([0, 1]), "lr": rng.choice([.01, .1, .5, 1.]), "values": vals})
        opt = {"name": rng.choice(["sgd", "adam"]), "momentum": rng.choice([0., 0., .9])}
        wide = rng.random() < .4
        ops = []
        for _ in range(rng.choice([2, 4, 7] if tier == "quick" else [4, 10, 18])):
            pool = [-2., -1., -.5, 0., .3, 1., 2.] + ([-300., 250., 1e3, 40.] if wide else [])
            o = {"op": rng.choice(["step"] * 5 + ["closure"] * 3 + ["fail", "rule", "invalid", "reload", "op"]),
                 "grads": [[None if rng.random() < .05 and "bound" not in g["rules"] else
                            [rng.choice(pool if not (set(g["rules"]) & {"mwu", "mwu_simplex"}) else pool[:7]) for _ in v]
                            for v in g["values"]] for g in groups],
                 "value": rng.choice([0., 1.5, -3.]), "kind": rng.choice(sorted(FAULTS)), "at": rng.choice([1, 2, 3]),
                 "opat": rng.randrange(1, 40), "bad": rng.choice([0., -1., math.nan])}
            ops.append(o)
        return {"groups": groups, "opt": opt, "ops": ops}

    def run(self, plan, ctx):
        from skwdro.solvers import hybrid_opt
        fail = {"at": None, "n": 0, "kind": None}

        def tick():
            fail["n"] += 1
            if fail["at"] is not None and fail["n"] == fail["at"]:
                fail["at"] = None
                ctx.fault(f"{fail['kind']} in a rule")
                raise FAULTS[fail["kind"]]("injected in a rule")

        @hybrid_opt.prerule("sim_pre")
        def sim_pre(p):
            p.mul_(2.)
            tick()

        @hybrid_opt.postrule("sim_post")
        def sim_post(p):
            tick()
            p.div_(2.)

        def shape(g, n):
            return (g["rows"], n // g["rows"]) if g.get("rows") else (n,)

        def build(values):
            ps = [[pt.tensor(np.array(v).reshape(shape(g, len(v))), dtype=pt.float32, requires_grad=True) for v in vs]
                  for g, vs in zip(plan["groups"], values)]
            gs = [dict({"params": p, "lr": g["lr"]}, **{r: True for r in g["rules"]}) for p, g in zip(ps, plan["groups"])]
            o = plan["opt"]
            opt = hybrid_opt.HybridSGD(gs, lr=.1, momentum=o["momentum"]) if o["name"] == "sgd" else hybrid_opt.HybridAdam(gs, lr=.1)
            return ps, opt
        ps, opt = build([g["values"] for g in plan["groups"]])
        ref = Reference(plan)
        flat = [p for vs in ps for p in vs]

        def now():
            return [zoo.arr(p).copy().reshape(-1) for p in flat]

        def put(grads):
            for p, g in zip(flat, [g for gs in grads for g in gs]):
                p.grad = None if g is None else pt.tensor(g, dtype=pt.float32).reshape(p.shape)

        def feasible(where):
            for g, vs in zip(plan["groups"], ps):
                for p in vs:
                    v = zoo.arr(p)
                    bad = ("mwu" in g["rules"] or "mwu_simplex" in g["rules"]) and not (v > 0).all() \
                        or "non_neg" in g["rules"] and not (v >= 0).all() \
                        or "mwu_simplex" in g["rules"] and abs(v.sum() - 1) > 1e-4
                    if bad:
                        raise Violation("infeasible", f"{g['rules']} has {v} after {where}")
        hist, done = [], 0
        for o in plan["ops"]:
            k = o["op"]
            ctx.step()
            hist.append(k)
            before = now()
            if k == "reload":
                f = io.BytesIO()
                pt.save(opt.state_dict(), f)
                f.seek(0)
                ps, opt = build(ref.p)
                flat = [p for vs in ps for p in vs]
                for p, v in zip(flat, before):
                    with pt.no_grad():
                        p.copy_(pt.tensor(v).reshape(p.shape))
                opt.load_state_dict(pt.load(f, weights_only=False))
                continue
            if k == "invalid":
                # the caller leaves a multiplicative group outside its domain: refused, nothing moves
                target = [p for g, vs in zip(plan["groups"], ps) for p in vs if set(g["rules"]) & {"mwu", "mwu_simplex"}]
                if not target:
                    continue
                p = target[-1]
                keep = p.detach().clone()
                with pt.no_grad():
                    p.view(-1)[0] = o["bad"]
                before = now()
                put(o["grads"])
                st, v = attempt(lambda: opt.step())
                if st == "ok":
                    raise Violation("accepted", f"a step was made from {before} with a multiplicative rule")
                self.same(before, now(), "a refused step")
                with pt.no_grad():
                    p.copy_(keep)
                done += 1
                continue
            seen = []
            if k in ("closure", "fail"):
                def closure():
                    seen.append(now())
                    if not pt.is_grad_enabled():
                        raise Violation("grad", "closure evaluated without gradients")
                    put(o["grads"])
                    if k == "fail":
                        ctx.fault(f"{o['kind']} in the closure")
                        raise FAULTS[o["kind"]]("injected in the closure")
                    return pt.tensor(o["value"])
                call = lambda: opt.step(closure)
            else:
                put(o["grads"])
                call = lambda: opt.step()
            if k == "rule":
                fail.update(n=0, at=o["at"], kind=o["kind"])
            if k == "op":
                m = OpFaults(o["opat"], o["kind"], ctx)
                with m:
                    st, v = attempt(call)
            else:
                st, v = attempt(call)
            fail["at"] = None
            if k in ("closure", "fail"):
                if len(seen) != 1:
                    raise Violation("closure", f"the closure was evaluated {len(seen)} times")
                self.same(before, seen[0], "the evaluation of the closure")
            if k == "fail" and st == "ok":
                raise Violation("swallowed", "the error of a closure did not reach the caller")
            if st != "ok":
                if st == "raises":
                    raise Violation("raises", f"step raised {v}")
                self.same(before, now(), f"a step that failed ({k})")
                done += 1
                if k in ("rule", "op"):
                    # the moments of the update may have moved: begin them anew
                    cur = now()
                    ps, opt = build(ref.p)
                    flat = [p for vs in ps for p in vs]
                    with pt.no_grad():
                        for p, c in zip(flat, cur):
                            p.copy_(pt.tensor(c).reshape(p.shape))
                    ref.st = [[{} for _ in g["values"]] for g in plan["groups"]]
                continue
            if k == "closure" and not zoo.close(float(v), o["value"]):
                raise Violation("closure", f"step returned {v} instead of the closure's {o['value']}")
            ref.step(o["grads"])
            want = [np.asarray(p) for vs in ref.p for p in vs]
            small = [np.abs(np.asarray(p)).min() for g, vs in zip(plan["groups"], ref.p) for p in vs
                     if set(g["rules"]) & {"mwu", "mwu_simplex"}]
            if any(np.abs(w).max() > 1e8 for w in want) or any(s < 1e-20 for s in small):
                break
            for a, b, g in zip(now(), want, [g for g, vs in zip(plan["groups"], ps) for _ in vs]):
                if not np.allclose(a, b, rtol=2e-4, atol=2e-5 * max(1., np.abs(b).max())):
                    raise Violation("update", f"{plan['opt']['name']} {g['rules']}: {a} instead of {b}")
            feasible(k)
            # go on from what the library has, rounding apart
            it = iter(now())
            ref.p = [[next(it).astype(float) for _ in vs] for vs in ref.p]
            done += 1
            ctx.event(k, [a.tolist() for a in now()])
        ctx.state([g["rules"] for g in plan["groups"]], plan["opt"], hist)
        ctx.nontrivial = done >= 2

    def same(self, a, b, what):
        for x, y in zip(a, b):
            if not np.array_equal(x, y, equal_nan=True):
                raise Violation("moved", f"parameters moved by {what}: {x} -> {y}")


CHECK = C11()
