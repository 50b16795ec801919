"""C01: a fit depends only on its data, settings and random state."""
import random

import numpy as np
import torch as pt

from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import OpFaults, attempt
from sim.machine import ORDINARY, Machine, gen_machine


def gen_history(rng, n):
    ops = []
    for _ in range(n):
        kind = rng.choice(["fit", "fit", "same", "same", "seed", "draw", "robust", "ask"])
        if kind in ("fit", "same"):
            est = zoo.gen_est(rng)
            op = {"op": kind, "est": est, "data": zoo.gen_data(rng, zoo.KIND[est["est"]]), "fault": None}
            if rng.random() < .4:
                op["fault"] = [rng.choice([1, 5, 20, 60, 150, 400, 800]) + rng.randrange(30),
                               rng.choice(["error", "interrupt", "memory"])]
        elif kind == "robust":
            op = {"op": kind, "loss": zoo.gen_loss(rng), "steps": rng.randrange(1, 4)}
        elif kind == "ask":
            op = {"op": kind}
        else:
            op = {"op": kind, "which": rng.choice(["python", "numpy", "torch", "all"]),
                  "value": rng.choice([0, 1, 7, 42, 1234, 99999])}
        ops.append(op)
    return ops


def disturb(op):
    w, v = op["which"], op["value"]
    if w in ("python", "all"):
        random.seed(v) if op["op"] == "seed" else [random.random() for _ in range(1 + v % 17)]
    if w in ("numpy", "all"):
        np.random.seed(v) if op["op"] == "seed" else np.random.randn(1 + v % 17)
    if w in ("torch", "all"):
        pt.manual_seed(v) if op["op"] == "seed" else pt.randn(1 + v % 17)


def train(spec, steps):
    dual = zoo.make_loss(spec)
    out = []
    for i in range(steps):
        x, y = zoo.make_batch(spec, 100 + i, 4)
        dual.optimizer.zero_grad()
        if spec["mode"] == "pre":
            z, zl = dual.generate_zetas()
            x, y = zoo.make_batch(spec, spec["init"] + 1, 5)
            v = dual(x, y, z, zl)
        else:
            v = dual(x, y)
        v.sum().backward()
        if spec["mode"] == "post":
            dual.optimizer.step()
        out.append(v.detach().numpy())
    return out


def observe(est, name, s, X, y):
    return {"learnt": zoo.learnt(est), "asked": zoo.ask(est, name, s, X, y)}


class C01(Check):
    id = "C01"
    runs = {"quick": 900, "thorough": 16000}
    rule = ("a run is non-trivial when the subject's fit completed, at least one operation of the history "
            "ran before it and at least one compared answer is an array of numbers")
    real = ["all of skwdro", "torch", "scikit-learn", "cvxpy", "python/numpy/torch generators"]
    stubs = ["clocks, system entropy and number of processors (sim/machine.py)",
             "faults enter through torch's function dispatch"]
    state_measure = ("distinct (estimator, solver, cost, stopping metric, kinds of the last three operations of the "
                     "history with the outcome of each) tuples")
    assumptions = ["single caller thread", "integer random_state", "radius tuner excluded (it has no random_state)",
                   "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        est = zoo.gen_est(rng)
        data = zoo.gen_data(rng, zoo.KIND[est["est"]])
        zoo.polyhedron(rng, est, data["d"] + 1, .2)
        n = rng.choice([1, 2, 3, 5] if tier == "quick" else [1, 2, 4, 8])
        return {"ambient": rng.randrange(1000), "est": est, "data": data,
                "shared": rng.random() < .5, "build_first": rng.random() < .5,
                "default_opt": rng.random() < .3, "ops": gen_history(rng, n), "refits": rng.choice([1, 1, 2]),
                "machine": gen_machine(rng)}

    def simpler(self, p):
        for i, op in enumerate(p["ops"]):
            if op.get("fault"):
                yield {**p, "ops": p["ops"][:i] + [{**op, "fault": None}] + p["ops"][i + 1:]}
        if p["refits"] > 1:
            yield {**p, "refits": 1}
        if p["machine"] != ORDINARY:
            yield {**p, "machine": ORDINARY}
        for k in ("shared", "build_first"):
            if p[k]:
                yield {**p, k: False}

    def run(self, plan, ctx):
        s = dict(plan["est"])
        if plan["default_opt"]:
            s.pop("opt", None)
        elif "opt" not in s:
            s["opt"] = {"order": 2, "tol_theta": .3, "tol_lambda": .3, "monitoring": "both", "mode": "rel", "metric": "grad"}
        name = s["est"]
        X, y = zoo.make_data(plan["data"])

        def alone():
            reset_generators(plan["ambient"])
            with Machine(ORDINARY):
                est = zoo.make_est(s)
                st, _ = attempt(lambda: zoo.fit_est(est, X, y))
                return (st, _ if st == "raises" else None, observe(est, name, s, X, y))
        expect = in_fork(alone)
        with Machine(plan["machine"], ctx):
            self.live(plan, ctx, s, X, y, expect)

    def live(self, plan, ctx, s, X, y, expect):
        name = s["est"]
        opt = zoo.make_opt(s["opt"]) if "opt" in s else None
        est = zoo.make_est(s, opt) if plan["build_first"] else None
        params0 = est.get_params() if est is not None else None
        recent = []
        for op in plan["ops"]:
            ctx.step()
            k = op["op"]
            out = None
            if k in ("seed", "draw"):
                disturb(op)
                ctx.probe("generators disturbed")
            elif k == "robust":
                out = attempt(lambda: train(op["loss"], op["steps"]))[0]
            elif k == "ask" and est is not None:
                zoo.ask(est, name, s, X, y)
            elif k in ("fit", "same"):
                o = op["est"]
                if k == "same" and (est is None or o["est"] != name and zoo.KIND[name] != zoo.KIND[o["est"]]):
                    if est is None:
                        est = zoo.make_est(s, opt)
                        params0 = est.get_params()
                    o = s
                    Xo, yo = zoo.make_data(dict(op["data"], kind=zoo.KIND[name]))
                elif k == "same":
                    Xo, yo = zoo.make_data(op["data"])
                else:
                    Xo, yo = zoo.make_data(op["data"])
                other = est if k == "same" else zoo.make_est(o, opt if plan["shared"] else None)
                at, kind = op["fault"] or (None, "error")
                with OpFaults(at, kind, ctx):
                    out = attempt(lambda: zoo.fit_est(other, Xo, yo))[0]
                ctx.probe(f"earlier fit of {'the same' if k == 'same' else 'another'} estimator: {out}")
            recent.append((k, out))
            ctx.event(k, out)
        for i in range(plan["refits"]):
            if est is None:
                est = zoo.make_est(s, opt)
            got_st, e = attempt(lambda: zoo.fit_est(est, X, y))
            ctx.step()
            if got_st != expect[0]:
                raise Violation("outcome", f"fit {got_st} ({e if got_st != 'ok' else ''}) but alone {expect[:2]}")
            if got_st != "ok":
                break
            d = zoo.diff(observe(est, name, s, X, y), expect[2])
            if d:
                raise Violation("differs", f"after the history / alone: {d}")
        ctx.event("end", got_st)
        ctx.state(name, s["solver"], s["cost"], s.get("opt", {}).get("metric"), recent[-3:])
        ctx.nontrivial = got_st == "ok" and bool(plan["ops"])


CHECK = C01()
