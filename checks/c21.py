"""C21: long use does not make the process keep more and more."""
import copy
import functools
import gc
import pickle
import sys
import types

import numpy as np
import torch as pt

from checks.c14 import Seam
from sim import zoo
from sim.core import Check, Violation
from sim.faults import attempt, place
from sim.robust import User, gen_fault, gen_user

SCOPES = ("none", "none", "lib", "lib", "op", "draw")
CONTAINERS = (list, dict, set, frozenset, tuple)


def tables():
    """Entries of the tables the library keeps for the whole process."""
    seen, total = set(), 0

    def walk(v, depth):
        nonlocal total
        if id(v) in seen or depth > 4:
            return
        seen.add(id(v))
        if isinstance(v, functools._lru_cache_wrapper):
            if v.cache_info().maxsize is None:
                total += v.cache_info().currsize
            else:
                v.cache_clear()  # bounded: grows to its limit only
            v = v.__wrapped__
        if isinstance(v, types.FunctionType):
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                walk(x, depth + 1)
            for c in v.__closure__ or ():
                try:
                    walk(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            walk(v.__dict__, depth + 1)
        elif isinstance(v, type):
            if v.__module__.startswith("skwdro"):
                for k, x in vars(v).items():
                    if k not in ("__dict__", "__weakref__", "_abc_impl"):
                        walk(x, depth + 1)
        elif isinstance(v, (staticmethod, classmethod)):
            walk(v.__func__, depth)
        elif isinstance(v, property):
            walk(v.fget, depth)
        elif isinstance(v, CONTAINERS):
            total += len(v)
            for x in list(v.values() if isinstance(v, dict) else v):
                walk(x, depth + 1)
        elif type(v).__module__.startswith("skwdro") and hasattr(v, "__dict__"):
            walk(vars(v), depth + 1)
        elif type(v).__module__ == "collections" and hasattr(v, "__len__"):
            total += len(v)
    for name, m in sorted(sys.modules.items()):
        if m is not None and (name == "skwdro" or name.startswith("skwdro.")):
            for k, v in list(vars(m).items()):
                if not k.startswith("__"):
                    walk(v, 0)
    return total


def measure():
    n = tables()
    gc.collect()
    objs = gc.get_objects()
    ts = [o for o in objs if isinstance(o, pt.Tensor)]
    arrays = [o for o in objs if type(o) is np.ndarray]
    return {"objects": len(objs), "tensors": len(ts), "numbers in tensors": sum(t.numel() for t in ts),
            "numbers in arrays": sum(a.size for a in arrays),
            "entries of containers": sum(len(o) for o in objs if type(o) in CONTAINERS), "entries of the library's tables": n}


class C21(Check):
    id = "C21"
    runs = {"quick": 800, "thorough": 8000}
    rule = "a run is non-trivial when all repetitions were measured and at least one operation of each completed or was interrupted by an injected error"
    real = ["the estimators, robust losses, solves, samplers, stopping conditions, torch, cvxpy"]
    stubs = ["none (errors enter at chosen statements of the library, tensor operations, draws, user's model and loss)"]
    state_measure = "distinct (operations, estimator or loss settings, place and kind of the errors)"
    assumptions = ["counted: objects the garbage collector knows, tensors and arrays and their sizes, entries of containers, entries of "
                   "the library's module, class, default-argument, closure and cache tables; memory held by native code is not seen",
                   "caches with a size limit may fill up to it", "growth in each of the last four repetitions is a violation"]

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(["fit", "fit", "refit", "loss", "loss", "kept", "kept", "hybrid"])
            o = {"op": k, "scope": rng.choice(SCOPES), "frac": rng.random(), "kind": rng.choice(["error", "interrupt", "memory"]),
                 "vary": rng.random() < .6}
            if k in ("fit", "refit"):
                o["est"] = zoo.gen_est(rng)
                o["est"]["n_iter"] = rng.choice([[1, 1], [1, 2], [0, 2], 2])
                o["data"] = zoo.gen_data(rng, zoo.KIND[o["est"]["est"]], n=rng.choice([5, 6]))
                o["bad"] = rng.choice(["nan", "huge", "huge"]) if rng.random() < .2 else None
                o["ask"] = rng.random() < .5
                if o["est"]["solver"] == "dedicated":
                    o["data"]["k"] = 2
            elif k in ("loss", "kept"):
                o["loss"] = gen_user(rng, bn=True, adapt=("prodigy", None))
                o["what"] = [rng.choice(["eval", "grads", "step", "init", "solve", "copy", "pickle", "state"]) for _ in range(rng.choice([1, 2, 3]))]
                if k == "kept" and o["loss"]["mode"] == "pre":  # (LBFGS fills up a long history of its own)
                    o["what"] = [w if w not in ("step", "solve") else "grads" for w in o["what"]]
                o["opt"] = zoo.gen_opt(rng)
                o["fault"] = gen_fault(rng, value=True) if rng.random() < .4 else None
            else:
                o["rule"] = rng.choice(["mwu", "mwu_simplex", "non_neg", "max", "bound"])
                o["adam"] = rng.random() < .5
            ops.append(o)
        return {"ambient": rng.randrange(1000), "ops": ops, "times": rng.choice([7, 7, 9])}

    def make(self, op):
        """What one repetition of the operation does, as a function of its number."""
        if op["op"] in ("fit", "refit"):
            X, y = zoo.make_data(op["data"])
            if op["bad"]:
                X = X * (np.nan if op["bad"] == "nan" else 1e37)  # (the latter only the computations of the fit cannot stand)
            kept = zoo.make_est(op["est"]) if op["op"] == "refit" else None

            def fit(i):
                s = op["est"]
                if op["vary"]:
                    s = {**s, "rho": (s["rho"] or .1) * (1 + i / 7), "random_state": 100 + i}
                est = kept if kept is not None else zoo.make_est(s)
                if kept is not None and op["vary"]:
                    est.set_params(rho=s["rho"])
                zoo.fit_est(est, X, y)
                if op["ask"]:
                    for f in (lambda: est.predict(X), lambda: est.predict_proba(X), lambda: est.score(X, y) if y is not None else est.score(X),
                              lambda: pickle.dumps(est), lambda: repr(est)):
                        try:
                            f()
                        except Exception:
                            continue
            return fit
        if op["op"] in ("loss", "kept"):
            kept = User(op["loss"]) if op["op"] == "kept" else None

            def use(i):
                s = op["loss"]
                if op["vary"]:
                    s = {**s, "rho": s["rho"] * (1 + i / 7), "seed": 100 + i}
                u = kept or User(s)
                x, y = u.batch(3 + i * op["vary"], 4)
                for w in op["what"]:
                    fn = {"eval": lambda: u.evaluate(x, y), "grads": lambda: u.grads(x, y), "step": lambda: u.step(x, y), "init": lambda: u.init(x, y),
                          "solve": lambda: u.solve(x, y, op["opt"]), "copy": lambda: copy.deepcopy(u.dual), "pickle": lambda: pickle.dumps(u.dual),
                          "state": lambda: (u.dual.load_state_dict(u.dual.state_dict()), u.dual.optimizer.load_state_dict(u.dual.optimizer.state_dict()))}[w]
                    if op["fault"]:
                        u.with_fault(op["fault"], fn)
                    else:
                        fn()
                    del fn
            return use
        from skwdro.solvers import hybrid_opt
        p = pt.nn.Parameter(pt.tensor([.2, .3, .5], dtype=pt.float32))
        o = (hybrid_opt.HybridAdam if op["adam"] else hybrid_opt.HybridSGD)([{"params": [p], op["rule"]: True}], lr=.1)

        def step(i):
            def closure():
                o.zero_grad()
                v = (p * p).sum()
                v.backward()
                return v
            o.step(closure)
        return step

    def run(self, plan, ctx):
        fns = [self.make(op) for op in plan["ops"]]
        totals = [0] * len(fns)
        # nothing of the simulation itself may grow while it measures
        rows = [dict.fromkeys(measure(), 0) for _ in range(plan["times"])]
        log = [[""] * len(fns) for _ in rows]
        for i in range(plan["times"]):
            for n, (op, fn) in enumerate(zip(plan["ops"], fns)):
                fired = None
                if op["scope"] == "none":
                    st, out = attempt(lambda: fn(i) and None)
                elif i < 2:  # how many places there are to be interrupted in
                    with Seam(op["scope"]) as c:
                        st, out = attempt(lambda: fn(i) and None)
                    totals[n] = place(op["frac"], c.count, c.spots.values())
                    del c
                else:
                    with Seam(op["scope"], totals[n], op["kind"]) as c:
                        st, out = attempt(lambda: fn(i) and None)
                    fired = c.fired
                    del c
                log[i][n] = f"{op['op']} {op.get('what') or (op['est']['est'] if 'est' in op else op.get('rule'))} {st} {fired}"
            rows[i].update(measure())
        for i, row in enumerate(log):
            ctx.step(len(fns))
            for op, text in zip(plan["ops"], row):
                ctx.event(text, rows[i]["objects"] - rows[0]["objects"])
                ctx.state(text, str((op.get("est") or {}).get("solver")), str((op.get("loss") or {}).get("mode")))
                if not text.endswith("None"):
                    ctx.fault(f"{op['kind']} at a chosen place ({op['scope']})")
                ctx.probe(f"{op['op']} repeated")
        for k in rows[0]:
            grown = [b[k] - a[k] for a, b in zip(rows, rows[1:])]
            if all(g > 0 for g in grown[-4:]):
                raise Violation("grows", f"{k}: {' '.join('%+d' % g for g in grown)} at each repetition of "
                                         f"{[(o['op'], o.get('what') or (o['est']['est'] if 'est' in o else '')) for o in plan['ops']]}")
        ctx.nontrivial = True


CHECK = C21()
