"""C14: an interrupted fit leaves the estimator as its last completed fit."""
import numpy as np
import torch as pt

from sim import zoo
from sim.core import FAULTS, Check, Violation, in_fork, reset_generators
from sim.faults import LineFaults, OpFaults, attempt, patched, place

ESTIMATORS = ("/skwdro/linear_models/", "/skwdro/operations_research/")


def match(scope):
    if scope == "fit":
        return lambda code: any(p in code.co_filename for p in ESTIMATORS) and code.co_name not in ("predict", "score")
    return lambda code: "/skwdro/" in code.co_filename


class Seam:
    """Counts the places where a fit can be interrupted, or interrupts it in one."""

    def __init__(self, scope, at=None, kind="error", ctx=None):
        self.scope = scope
        if scope in ("fit", "lib"):
            self.t = LineFaults(match(scope), at, kind, ctx)
        elif scope == "op":
            self.t = OpFaults(at, kind, ctx, "fit")
        else:
            self.t = Draws(at, kind, ctx)

    def __enter__(self):
        self.t.__enter__()
        return self.t

    def __exit__(self, *e):
        return self.t.__exit__(*e)


class Draws:
    """The random draws and the convex solves of the library."""

    def __init__(self, at, kind, ctx):
        self.at, self.kind, self.ctx, self.count, self.fired, self.spots = at, kind, ctx, 0, None, {}

    def hit(self, where):
        self.count += 1
        if self.count == self.at and self.fired is None:
            self.fired = where
            if self.ctx is not None:
                self.ctx.fault(f"{self.kind} in {where}")
            raise FAULTS[self.kind](f"injected in {where}")

    def __enter__(self):
        import cvxpy as cp
        self.undo = []
        for owner, name, where in ((pt.distributions.MultivariateNormal, "rsample", "a random draw"),
                                   (pt.distributions.Normal, "rsample", "a random draw"),
                                   (pt.distributions.Distribution, "sample", "a random draw"),
                                   (pt, "manual_seed", "the seeding of a generator"),
                                   (cp.Problem, "solve", "a convex solve"),
                                   (pt.optim.Optimizer, "zero_grad", "an optimizer"),
                                   (pt.Tensor, "backward", "a backward pass")):
            self.undo.append((owner, name, getattr(owner, name)))

            def wrap(*a, _real=getattr(owner, name), _w=where, **k):
                self.hit(_w)
                return _real(*a, **k)
            setattr(owner, name, wrap)

    def __exit__(self, *e):
        for owner, name, real in self.undo:
            setattr(owner, name, real)


def gen_data(rng, name, d):
    return zoo.gen_data(rng, zoo.KIND[name], n=rng.choice([5, 6, 9]), d=d)


def spoil(X, y, how):
    """Data or targets the library refuses."""
    X = np.array(X, dtype=float)
    if how == "nan":
        X[0, 0] = np.nan
    elif how == "flat":
        X = X.ravel()[0]
    elif how == "empty":
        return X[:0], None if y is None else y[:0]
    elif how == "short":
        return X, None if y is None else y[:-1]
    elif how == "one class":
        return X, None if y is None else np.ones(len(y))
    return X, y


class C14(Check):
    id = "C14"
    runs = {"quick": 1200, "thorough": 14000}
    rule = "a run is non-trivial when at least one fit was interrupted and at least one later or earlier fit completed"
    real = ["the five estimators with all their solvers, torch, cvxpy"]
    stubs = ["none (errors enter at chosen statements of the library, tensor operations, draws, solves)"]
    state_measure = "distinct (estimator, solver, fitted before, place and kind of the interruption)"
    assumptions = ["interruptions come between statements of the library or in calls it makes", "integer random_state",
                   "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        s = zoo.gen_est(rng)
        s["n_iter"] = rng.choice([[1, 1], [1, 2], [0, 2], 2])
        d = rng.choice([1, 2, 3])
        datas = [gen_data(rng, s["est"], rng.choice([d, d, 2])) for _ in range(2)]
        zoo.polyhedron(rng, s, datas[0]["d"] + 1, .3)
        if s["solver"] == "dedicated":
            for x in datas:
                x["k"] = 2
        ops = []
        for _ in range(rng.choice([2, 3, 4] if tier == "quick" else [2, 4, 7])):
            r = rng.random()
            op = {"data": rng.randrange(2), "kind": rng.choice(["error", "interrupt", "memory"])}
            if r < .3:
                op["op"] = "fit"
            elif r < .8:
                op.update(op="broken", scope=rng.choice(["fit", "fit", "lib", "lib", "op", "draw"]), frac=rng.random())
            elif r < .9:
                op.update(op="bad", how=rng.choice(["nan", "flat", "empty", "short", "one class"]))
            elif r < .95:
                op.update(op="settings", set=rng.choice([{"rho": "much"}, {"solver": "unknown"}, {"cost": "x-y"}, {"rho": None}]))
            else:
                op.update(op="asked", scope=rng.choice(["lib", "op"]), frac=rng.random())
            ops.append(op)
        return {"est": s, "datas": datas, "ops": ops, "ambient": rng.randrange(100)}

    def simpler(self, p):
        for i, o in enumerate(p["ops"]):
            if o["op"] == "broken" and o["scope"] != "fit":
                yield {**p, "ops": p["ops"][:i] + [{**o, "scope": "fit"}] + p["ops"][i + 1:]}

    def run(self, plan, ctx):
        s, name = plan["est"], plan["est"]["est"]
        datas = [zoo.make_data(d) for d in plan["datas"]]

        def answers(est):
            return {"learnt": zoo.learnt(est), "asked": [zoo.ask(est, name, s, X, y) for X, y in datas],
                    "names": sorted(k for k in vars(est) if k.endswith("_") and not k.startswith("_"))}

        def same(a, b, where, kind="changed"):
            d = zoo.diff(a["learnt"], b["learnt"]) or (None if a["names"] == b["names"] else f"attributes {a['names']} / {b['names']}")
            for x, y in zip(a["asked"], b["asked"]):
                d = d or zoo.diff(x, y)
            if d:
                raise Violation(kind, f"{where}: {d}")

        def fresh(i, scopes):
            def body():
                reset_generators(plan["ambient"])
                est = zoo.make_est(s)
                st, e = attempt(lambda: zoo.fit_est(est, *datas[i]))
                counts = {}
                ans = answers(est)
                for sc in scopes:
                    with Seam(sc) as c:
                        attempt(lambda: zoo.fit_est(zoo.make_est(s), *datas[i]))
                    counts[sc] = c.count, list(c.spots.values())
                asks = {}
                for sc in ("lib", "op"):
                    with Seam(sc) as c:
                        zoo.ask(est, name, s, *datas[i])
                    asks[sc] = c.count, list(c.spots.values())
                return st, e if st != 'ok' else None, ans, counts, asks
            return in_fork(body)
        scopes = [sorted({o["scope"] for o in plan["ops"] if o["op"] == "broken" and o["data"] == i}) for i in (0, 1)]
        expect = [fresh(i, scopes[i]) for i in (0, 1)]

        est = zoo.make_est(s)
        fitted, broken, done = None, 0, 0
        for n, op in enumerate(plan["ops"]):
            ctx.step()
            X, y = datas[op["data"]]
            before, set0 = answers(est), zoo.settings(est)
            where = f"operation {n} ({op['op']})"
            if op["op"] == "fit":
                st, e = attempt(lambda: zoo.fit_est(est, X, y))
                if st != expect[op["data"]][0]:
                    raise Violation("refit", f"{where}: {st} {e if st != 'ok' else ''}, on a fresh estimator {expect[op['data']][:2]}")
                if st == "ok":
                    same(answers(est), expect[op["data"]][2], f"{where}: fitted here / by a fresh estimator", "refit")
                    fitted = op["data"]
                    done += 1
                    ctx.event("fit", st)
                    continue
            elif op["op"] == "broken":
                places = expect[op["data"]][3].get(op["scope"], (0, ()))
                with Seam(op["scope"], place(op["frac"], *places), op["kind"], ctx) as c:
                    st, e = attempt(lambda: zoo.fit_est(est, X, y))
                ctx.event("broken", op["scope"], st, str(c.fired))
                where += f", {op['kind']} at {c.fired} ({op['scope']})"
                ctx.state(name, s["solver"], fitted is None, op["scope"], str(c.fired), op["kind"])
                if st == "ok":
                    # (not reached, or handled by the library: then the fit is a fit)
                    same(answers(est), expect[op["data"]][2], f"{where}: completed here / by a fresh estimator", "refit")
                    fitted = op["data"]
                    done += 1
                    continue
            elif op["op"] == "bad":
                Xb, yb = spoil(X, y, op["how"])
                st, e = attempt(lambda: zoo.fit_est(est, Xb, yb))
                ctx.event("bad", op["how"], st)
                where += f" {op['how']}"
                ctx.fault(f"refused data: {op['how']}" if st != "ok" else "odd data accepted")
                if st == "ok":
                    fitted = None
                    break
            elif op["op"] == "settings":
                old = {k: getattr(est, k) for k in op["set"]}
                est.set_params(**op["set"])
                set1 = zoo.settings(est)
                st, e = attempt(lambda: zoo.fit_est(est, X, y))
                ctx.event("settings", str(op["set"]), st)
                if st == "ok":
                    break
                if zoo.settings(est) != set1:
                    raise Violation("settings", f"{where} {op['set']}: {set1} became {zoo.settings(est)}")
                est.set_params(**old)
                ctx.fault("refused settings")
            else:
                places = expect[op["data"]][4][op["scope"]]
                with Seam(op["scope"], place(op["frac"], *places), op["kind"], ctx) as c:
                    attempt(lambda: zoo.ask(est, name, s, X, y))
                st = "asked"
                where += f" at {c.fired}"
            broken += st != "ok"
            same(answers(est), before, f"{where}: answers after / before")
            if zoo.settings(est) != set0:
                raise Violation("settings", f"{where}: {set0} became {zoo.settings(est)}")
            if fitted is None:
                ctx.probe("interrupted first fit")
                a = answers(est)
                for x in a["asked"]:
                    if any("raises" not in str(v) for v in x.values()):
                        raise Violation("unfitted", f"{where}: answers although never fitted: {x}")
            else:
                ctx.probe("interrupted later fit")
        ctx.nontrivial = broken > 0 and done > 0


CHECK = C14()
