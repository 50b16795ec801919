"""C13: a dedicated solver that fails is never reported as a success."""
import numpy as np

from sim import zoo
from sim.core import FAULTS, Check, Violation, in_fork, reset_generators
from sim.faults import attempt, patched

RAISES = ("raise", "error", "interrupt", "memory")
EMPTY = ("infeasible", "unbounded", "none", "infeasible_inaccurate", "unbounded_inaccurate")
BAD = RAISES + EMPTY + ("nan",)
KINDS = BAD + ("nan_entry", "scaled", "inaccurate", None)


def gen_est(rng):
    name = rng.choice(["linreg", "logreg", "news", "port"])
    return {"est": name, "solver": "dedicated", "rho": rng.choice([1e-3, .01, .1, .5, 1.]), "n_iter": 2, "n_zeta": 2,
            "random_state": 0, "lr": None, "l2": 0., "fit_intercept": rng.random() < .6,
            "cost": rng.choice(["t-NC-1-1", "t-NC-1-2", "t-NC-2-2"]) if name in ("news", "port") else "t-NLC-2-2"}


def gen_data(rng, name):
    d = zoo.gen_data(rng, zoo.KIND[name], n=rng.choice([5, 8, 12]))
    d["k"] = 2
    return d


class Backend:
    """Stands where cvxpy hands a problem to its solvers."""

    def __init__(self, ctx, kind, persists, entry, scale, real):
        self.ctx, self.kind, self.persists, self.entry, self.scale, self.real = ctx, kind, persists, entry, scale, real
        self.calls, self.hit = 0, 0

    def __call__(self, problem, *a, **kw):
        import cvxpy as cp
        self.calls += 1
        kind = self.kind if self.persists or self.calls == 1 else None
        if kind is None:
            return self.real(problem, *a, **kw)
        self.hit += 1
        self.ctx.fault(f"convex solver: {kind}")
        if kind == "raise":
            raise cp.error.SolverError("injected")
        if kind in RAISES:
            raise FAULTS[kind]("injected in the convex solver")
        if kind in EMPTY:
            for v in problem.variables():
                v.save_value(None)
            problem._status = "solver_error" if kind == "none" else kind
            problem._value = {"i": np.inf, "u": -np.inf, "n": None}[kind[0]]
            return problem._value
        out = self.real(problem, *a, **kw)
        if kind == "inaccurate":
            problem._status = "optimal_inaccurate"
            return out
        vs = sorted(problem.variables(), key=lambda v: v.id)
        if kind == "nan":
            for v in vs:
                v.save_value(np.full(v.shape, np.nan))
            problem._value = np.nan
            return np.nan
        if kind == "nan_entry":
            if self.entry % 2:  # one of the first few, which the model is read from
                vs = [vs[self.entry // 2 % min(5, len(vs))]]
            k = self.entry % sum(v.size for v in vs)
            for v in vs:
                if 0 <= k < v.size:
                    x = np.array(v.value, dtype=float)
                    x.reshape(-1)[k] = np.nan
                    v.save_value(x)
                k -= v.size
            return out
        for v in vs:
            v.save_value(self.scale * np.array(v.value, dtype=float))
        return out


def model(est):
    return {k: zoo.arr(getattr(est, k)) for k in ("coef_", "intercept_", "dual_var_", "tau_") if hasattr(est, k)}


def has_nan(m):
    return [k for k, v in m.items() if v is not None and v.dtype != object and np.isnan(np.asarray(v, dtype=float)).any()]


def objective(s, X, y, est):
    """The robust objective documented for the dedicated method, at the fitted values."""
    w = np.asarray(est.coef_, dtype=float).ravel()
    b = float(np.asarray(0. if getattr(est, "intercept_", None) is None else est.intercept_, dtype=float).ravel()[0]) \
        if s["est"] in ("linreg", "logreg") else 0.
    if s["est"] == "linreg":
        return float(np.linalg.norm(X @ w + b - y) / np.sqrt(len(y)) + s["rho"] * np.linalg.norm(w))
    if s["est"] == "logreg":
        lam = float(np.asarray(est.dual_var_).ravel()[0])
        if lam < .9 * np.linalg.norm(w) - .05:
            return np.inf
        m = np.where(y == np.unique(y)[1], 1., -1.) * (X @ w + b)
        return float(lam * s["rho"] + np.mean(np.maximum(np.logaddexp(0, -m), np.logaddexp(0, m) - 1000 * lam)))
    if s["est"] == "port":
        if abs(w.sum() - 1) > 1e-3 or w.min() < -1e-3:
            return np.inf
        return None
    # sample-average newsvendor (what the method solves when it calls the solver)
    z = X.mean(axis=1)
    return float(est.k * w[0] - est.u * np.mean(np.minimum(w[0], z))) if w[0] > -1e-6 else np.inf


class C13(Check):
    id = "C13"
    runs = {"quick": 700, "thorough": 12000}
    rule = "a run is non-trivial when at least one fault of the convex solver was met and at least one other fit succeeded"
    real = ["the dedicated methods of the four estimators, cvxpy and its solvers (successful solves)"]
    stubs = ["cvxpy.Problem.solve: its failures (errors, statuses without values, not-a-number values) are simulated"]
    state_measure = "distinct (estimator, sequences of simulated outcomes of the convex solver and of the fits)"
    assumptions = ["dedicated methods reach their solver through cvxpy.Problem.solve",
                   "a transient failure may be retried by the library; a persisting one must be reported",
                   "objectives compared with relative tolerance 2e-3 (accuracy of the first-order solver)"]

    def gen(self, rng, tier):
        s = gen_est(rng)
        datas = [gen_data(rng, s["est"]) for _ in range(rng.choice([1, 2, 2]))]
        if len({d["d"] for d in datas}) == 1:
            zoo.polyhedron(rng, s, datas[0]["d"] + 1, .5)
        kinds = rng.sample(KINDS, rng.choice([3, 5, len(KINDS)]))
        ops = []
        for _ in range(rng.choice([2, 3, 4] if tier == "quick" else [2, 4, 7])):
            ops.append({"data": rng.randrange(len(datas)), "kind": rng.choice(kinds + [None]), "persists": rng.random() < .8,
                        "entry": rng.randrange(60), "scale": rng.choice([.5, 2., -1., 1e3, 1e-4]), "new": rng.random() < .3,
                        "rho": rng.choice([None, None, None, .02, .7])})
        return {"est": s, "datas": datas, "ops": ops}

    def simpler(self, p):
        for i, o in enumerate(p["ops"]):
            for k in ("new", "rho", "kind"):
                if o[k]:
                    yield {**p, "ops": p["ops"][:i] + [{**o, k: None}] + p["ops"][i + 1:]}

    def run(self, plan, ctx):
        import cvxpy as cp
        s, name = plan["est"], plan["est"]["est"]
        datas = [zoo.make_data(d) for d in plan["datas"]]
        real = cp.Problem.solve

        def alone(op, X, y):
            reset_generators(0)
            o = dict(s, rho=op["rho"] or s["rho"])
            est, val = zoo.make_est(o), []
            def rec(problem, *a, **kw):
                try:
                    v = real(problem, *a, **kw)
                except cp.error.SolverError:
                    val.append("failed")
                    raise
                val.append(float(v) if problem.status in ("optimal", "optimal_inaccurate") else "failed")
                return v
            with patched(cp.Problem, "solve", rec):
                st, e = attempt(lambda: zoo.fit_est(est, X, y))
            if st != "ok":
                return {"st": st, "err": e, "val": val}
            return {"st": "ok", "val": val, "model": model(est), "ask": zoo.ask(est, name, o, X, y), "obj": objective(o, X, y, est)}
        expect = {}
        for op in plan["ops"]:
            k = (op["data"], op["rho"])
            if k not in expect:
                expect[k] = in_fork(lambda: alone(op, *datas[op["data"]]))
                e = expect[k]
                if e["val"] and e["val"][-1] == "failed":
                    ctx.probe("failure of the actual convex solver")
                    if e["st"] == "ok":
                        raise Violation("success", f"the convex solver failed on its own, the fit succeeded: {e['model']}")
                    return
                if e["st"] != "ok":
                    raise Violation("fit", f"fit with a working solver: {e['err']}")
                if has_nan(e["model"]):
                    raise Violation("nan", f"fit with a working solver: {e['model']}")
                if e["val"] and e["obj"] is not None and np.isfinite(e["val"][-1]) and \
                        abs(e["obj"] - e["val"][-1]) > 2e-3 * (1 + abs(e["val"][-1])):
                    raise Violation("values", f"objective at the fitted values {e['obj']}, found by the solver {e['val'][-1]}")

        est, last, hist, good, bad = zoo.make_est(s), None, [], 0, 0
        for i, op in enumerate(plan["ops"]):
            ctx.step()
            X, y = datas[op["data"]]
            if op["new"]:
                est, last = zoo.make_est(s), None
            est.set_params(rho=op["rho"] or s["rho"])
            before = (zoo.ask(est, name, s, X, y), model(est))
            solver = Backend(ctx, op["kind"], op["persists"], op["entry"], op["scale"], real)
            with patched(cp.Problem, "solve", lambda p, *a, **k: solver(p, *a, **k)):
                st, e = attempt(lambda: zoo.fit_est(est, X, y))
            ctx.event(i, op["kind"], st, solver.hit)
            hist.append((op["kind"] if solver.hit else None, st))
            want = expect[op["data"], op["rho"]]
            where = f"fit {i} of {name}, convex solver: {op['kind']}{'' if op['persists'] else ' (once)'}"
            if st == "ok":
                m = model(est)
                if solver.hit:
                    ctx.probe(f"solver {op['kind']}, fit completed")
                    if op["persists"] and op["kind"] in BAD:
                        raise Violation("success", f"{where}: the fit was reported as a success, {m}")
                if has_nan(m):
                    raise Violation("success", f"{where}: the fit was reported as a success, {m}")
                if solver.hit and op["persists"] and op["kind"] == "scaled":
                    ctx.probe("other values returned by the solver")
                    ref = {k: None if v is None else (v if k == "dual_var_" and name == "news" else op["scale"] * v)
                           for k, v in want["model"].items()}
                    d = zoo.diff({k: v for k, v in m.items() if k != "dual_var_" or name != "news"},
                                 {k: v for k, v in ref.items() if k != "dual_var_" or name != "news"},
                                 1e-4, 1e-5 * min(1., abs(op["scale"])))
                    if d:
                        raise Violation("values", f"{where} by {op['scale']}: fitted / returned values: {d}")
                elif solver.hit and op["kind"] == "nan_entry" and op["persists"]:
                    d = zoo.diff(m, want["model"], 1e-4, 1e-5)
                    if d:
                        raise Violation("values", f"{where}: fitted / returned values: {d}")
                elif not (solver.hit and op["kind"] in ("scaled", "nan_entry")):
                    d = zoo.diff(m, want["model"], 1e-3, 1e-4) or zoo.diff(zoo.ask(est, name, s, X, y), want["ask"], 1e-3, 1e-4)
                    if d:
                        raise Violation("values", f"{where}: fitted / fitted with a working solver: {d}")
                good += 1
                last = i
            else:
                if not solver.hit:
                    raise Violation("fit", f"{where} (not reached): {e}")
                if op["kind"] in ("scaled", "inaccurate"):
                    ctx.probe("values of the solver refused")
                bad += 1
                after = (zoo.ask(est, name, s, X, y), model(est))
                if last is None:
                    if "raises" not in str(after[0]["fitted"]) or any("raises" not in str(v) for v in after[0].values()):
                        raise Violation("answers", f"{where}: answers although it was never fitted: {after[0]}")
                    ctx.probe("failed first fit")
                else:
                    d = zoo.diff(after[0], before[0]) or zoo.diff(after[1], before[1])
                    if d:
                        raise Violation("answers", f"{where}: answers after / before the failure: {d}")
                    ctx.probe("failed fit of a fitted estimator")
        ctx.state(name, s["fit_intercept"], hist)
        ctx.nontrivial = bad > 0 and good > 0


CHECK = C13()
