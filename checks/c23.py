"""C23: results handed out keep their values and belong to the caller."""
import numpy as np
import torch as pt

from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import LineFaults, OpFaults, attempt
from sim.robust import User, gen_fault, gen_user

FILL = [0., 7., -1e6, float("nan")]


class Held:
    """A result of the library, with the value it had when it was handed out."""

    def __init__(self, what, obj):
        self.what, self.obj, self.value = what, obj, zoo.arr(obj)
        self.mine = False

    def changed(self):
        now = zoo.arr(self.obj)
        return None if zoo.close(now, self.value, 0., 0.) else f"{zoo.show(self.value)} became {zoo.show(now)}"

    def overwrite(self, v):
        """Whether the caller could write to it."""
        def go(x):
            if isinstance(x, pt.Tensor):
                with pt.no_grad():
                    x.detach().fill_(v if x.dtype.is_floating_point else 0)
            elif isinstance(x, np.ndarray) and x.size:
                x[...] = x.flat[0] if x.dtype.kind in "OUSb" else (v if x.dtype.kind == "f" else 0)
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    if isinstance(y, (float, int)):
                        x[i] = v
                    else:
                        go(y)
            else:
                return False
            return True
        try:
            done = go(self.obj)
        except (ValueError, RuntimeError):  # read-only, or spread over one number
            done = False
        self.value = zoo.arr(self.obj)
        return done


class C23(Check):
    id = "C23"
    runs = {"quick": 1800, "thorough": 30000}
    rule = "a run is non-trivial when results were held over later calls, or overwritten before them"
    real = ["the five estimators with all their solvers, robust losses of both modes with samplers and solves, torch, numpy"]
    stubs = ["none (the caller keeps results over later calls and writes to them; some calls fail)"]
    state_measure = "distinct (estimator or loss, sequence of calls, overwritten results and outcomes)"
    assumptions = ["attributes of the last fit are shared with the estimator and are not overwritten",
                   "the caller writes between calls", "the model's parameters and the multiplier are live objects, not results"]

    def gen(self, rng, tier):
        n = rng.choice([3, 5, 7] if tier == "quick" else [4, 8, 12])
        if rng.random() < .45:
            return self.gen_robust(rng, n)
        s = zoo.gen_est(rng)
        s["n_iter"] = rng.choice([[1, 2], [0, 2], 2])
        ops = [{"op": "fit", "data": 0}]
        for _ in range(n):
            op = {"op": rng.choice(["fit", "ask", "ask", "ask", "settings"]), "data": rng.randrange(3)}
            if op["op"] == "settings":
                op["set"] = rng.choice([{"rho": .2}, {"random_state": 5}, {"n_zeta_samples": 3}, {"solver_reg": .5}])
            if rng.random() < .4:
                op["write"] = [rng.random(), rng.choice(FILL), rng.random() < .3]
            if op["op"] != "settings" and rng.random() < .15:
                op["fault"] = [rng.choice(["op", "line"]), 1 + rng.randrange(rng.choice([20, 200])), rng.choice(["error", "interrupt", "memory"])]
            ops.append(op)
        d = rng.choice([1, 2, 2])
        size = rng.choice([5, 8])
        datas = [zoo.gen_data(rng, zoo.KIND[s["est"]], n=size if rng.random() < .7 else 6, d=d) for _ in range(3)]
        for x in datas:
            x["k"] = 2 if s["solver"] == "dedicated" else datas[0]["k"]
            x["labels"] = datas[0]["labels"]
        return {"est": s, "datas": datas, "ops": ops, "dtype": rng.choice(["float64", "float64", "float32"])}

    def gen_robust(self, rng, n):
        s = gen_user(rng)
        ops = []
        for _ in range(n):
            op = {"op": rng.choice(["evaluate", "evaluate", "step", "init", "solve", "zetas", "zetas", "sample"]), "batch": rng.randrange(4),
                  "n": rng.choice([1, 3, 3]), "k": rng.choice([1, 1, 2, 4])}
            op["no_grad"] = op["op"] == "evaluate" and rng.random() < .5
            op["erm"] = op["op"] == "evaluate" and rng.random() < .3
            if rng.random() < .5:
                op["write"] = [rng.random(), rng.choice(FILL), rng.random() < .3]
            if rng.random() < .15:
                op["fault"] = gen_fault(rng)
            ops.append(op)
        return {"loss": s, "ops": ops, "opt": zoo.gen_opt(rng)}

    def run(self, plan, ctx):
        act = self.loss if "loss" in plan else self.est
        expect = in_fork(lambda: act(plan, None))
        act(plan, ctx, expect)

    def follow(self, n, op, outcome, new, held, log, ctx, expect, own=()):
        """After a call: what it answered, what was held before, what the caller writes."""
        log.append((outcome, {h.what: h.value for h in new}))
        if ctx is None:
            return
        ctx.step()
        ctx.event(n, op["op"], outcome)
        where = f"operation {n} ({op['op']}, {outcome})"
        if n < len(expect):
            if outcome != expect[n][0]:
                raise Violation("outcome", f"{where}: {expect[n][0]} had the caller not written to its results")
            d = zoo.diff(log[-1][1], expect[n][1])
            if d:
                raise Violation("shared", f"{where}: after the caller wrote to / left alone its earlier results: {d}")
        for h in held:
            c = h.changed()
            if c:
                raise Violation("changed", f"{where}: {h.what}, handed out before, {c}")
        if held:
            ctx.probe("results held over a call")
            ctx.nontrivial = True
        held += new
        w = op.get("write")
        if w:
            can = [h for h in held if h not in own]
            for h in (can if w[2] else can[int(w[0] * len(can)):][:1]):
                if h.overwrite(w[1]):
                    ctx.fault("result overwritten by the caller")
                    ctx.nontrivial = True
                    ctx.state("written", h.what.split(" ", 2)[-1])

    def est(self, plan, ctx, expect=None):
        reset_generators(0)
        s, name = plan["est"], plan["est"]["est"]
        datas = [(X.astype(plan["dtype"]), y) for X, y in map(zoo.make_data, plan["datas"])]
        est = zoo.make_est(s)
        held, log, last = [], [], []
        for n, op in enumerate(plan["ops"]):
            X, y = datas[op["data"]]
            new, st, v = [], "ok", None
            X, y = X.copy(), None if y is None else y.copy()

            def put(what, fn):
                new.append(Held(f"{n} {op['op']} {what}", fn()))

            def go():
                if op["op"] == "fit":
                    zoo.fit_est(est, X, y)
                    for k in sorted(vars(est)):
                        if k.endswith("_") and not k.startswith("_") and k not in ("X_", "y_") and \
                                isinstance(getattr(est, k), (np.ndarray, np.generic, pt.Tensor, list, float)):
                            put(k, lambda: getattr(est, k))
                elif op["op"] == "ask":
                    for q in ("predict", "predict_proba", "predict_proba_2Class"):
                        if hasattr(est, q) and not (q.endswith("2Class") and len(est.classes_) > 2):
                            put(q, lambda: getattr(est, q)(X))
                    put("score", lambda: est.score(X, y) if name in ("linreg", "logreg") else est.score(X))
                    if hasattr(est, "eval"):
                        put("eval", lambda: est.eval(X))
                else:
                    est.set_params(**op["set"])
            f = op.get("fault")
            if f is None:
                st, v = attempt(go)
            else:
                with OpFaults(f[1], f[2], ctx) if f[0] == "op" else LineFaults(lambda c: "/skwdro/" in c.co_filename, f[1], f[2], ctx):
                    st, v = attempt(go)
            if op["op"] == "fit" and st == "ok":
                last = new
            self.follow(n, op, st if st == "ok" else f"{st} {v}", new, held, log, ctx, expect, last)
        if ctx is not None:
            ctx.state(name, s["solver"], plan["dtype"], [(o["op"], bool(o.get("write")), bool(o.get("fault")), e[0]) for o, e in zip(plan["ops"], log)])
        return log

    def loss(self, plan, ctx, expect=None):
        reset_generators(0)
        s = plan["loss"]
        u = User(s, ctx)
        held, log = [], []
        for n, op in enumerate(plan["ops"]):
            x, y = u.batch(op["batch"], op["n"])
            new = []

            def put(what, obj):
                if obj is not None:
                    new.append(Held(f"{n} {op['op']} {what}", obj))

            def go():
                k = op["op"]
                if k == "evaluate":
                    try:
                        u.dual.erm_mode = op["erm"]
                        with pt.set_grad_enabled(not op["no_grad"]):
                            put("value", u.evaluate(x, y))
                    finally:
                        u.dual.erm_mode = False
                elif k == "step":
                    put("value", u.step(x, y))
                elif k == "init":
                    u.init(x, y)
                elif k == "solve":
                    r = u.solve(x, y, plan["opt"])
                    for a in ("coef", "intercept", "dual_var", "robust_loss"):
                        put(a, getattr(r, a))
                else:
                    z, zl = u.dual.generate_zetas(op["k"]) if k == "zetas" else u.dual.sampler.sample(op["k"])
                    put("samples", z)
                    put("labels", zl)
            (st, v), fired = u.with_fault(op.get("fault"), go)
            self.follow(n, op, st if st == "ok" else f"{st} {v}", new, held, log, ctx, expect)
        if ctx is not None:
            ctx.state(s["kind"], s["mode"], s["cost"], [(o["op"], bool(o.get("write")), bool(o.get("fault")), e[0]) for o, e in zip(plan["ops"], log)])
        return log


CHECK = C23()
