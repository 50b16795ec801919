"""C26: scikit-learn's tools give the same answer however their fits are spread over workers."""
import joblib
import numpy as np

from checks.c01 import observe
from sim import zoo
from sim.cluster import Client, Cluster
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import attempt
from sim.threads import gen_switches

TOOLS = {"linreg": ["score", "validate", "predict", "grid", "random", "bagging", "curve", "importance", "voting", "stacking", "multi"],
         "logreg": ["score", "validate", "predict", "grid", "random", "bagging", "curve", "importance", "ovr", "ovo", "voting"],
         "news": ["score", "validate", "grid"], "port": ["score", "validate", "grid"], "weber": ["validate"]}


def gen_grid(rng, s):
    g = {"rho": rng.sample([1e-3, .05, .3, 1.], 2)}
    k = rng.choice(["n_zeta_samples", "random_state", "solver", "cost", "l2_reg", "learning_rate", None, None])
    if k == "n_zeta_samples":
        g[k] = [2, 3]
    elif k == "random_state":
        g[k] = [0, 5]
    elif k == "solver" and s["est"] in ("linreg", "logreg"):
        g[k] = ["entropic_torch_post", "entropic_torch_pre", "dedicated"][:rng.choice([2, 3])]
    elif k == "cost":
        g[k] = [s["cost"], s["cost"].replace("-2-2", "-1-2")]
    elif k == "l2_reg" and "l2" in s:
        g[k] = [0., .2]
    elif k == "learning_rate":
        g[k] = [None, .1]
    return g


class C26(Check):
    id = "C26"
    runs = {"quick": 600, "thorough": 5000}
    timeout = 200.
    rule = "a run is non-trivial when at least two workers executed tasks and the answer was compared with the sequential one's"
    real = ["all of skwdro", "torch", "scikit-learn's model selection, ensembles, multiclass and multioutput tools", "joblib's dispatching",
            "worker threads, released one at a time"]
    stubs = ["joblib's backend and its workers (sim/cluster.py)"]
    state_measure = "distinct (tool, estimator, number of workers, faults, interleaving as thread switches) tuples"
    assumptions = ["workers are threads of the process, or get copies of their task (always when a task is executed twice at once)",
                   "a lost worker unwinds its task, which is executed again"]

    def gen(self, rng, tier):
        est = zoo.gen_est(rng, names=("linreg", "linreg", "linreg", "logreg", "logreg", "logreg", "news", "port", "weber"))
        est["n_iter"] = rng.choice([[1, 1], [0, 2], [1, 2]])
        est["n_zeta"] = rng.choice([2, 3])
        tool = rng.choice(TOOLS[est["est"]])
        if tool in ("bagging", "ovr", "ovo", "stacking"):
            est["fit_intercept"] = True  # (their votes need probabilities, which need an intercept)
        if est["solver"] == "dedicated" and not est["rho"]:
            est["rho"] = .1
        if rng.random() < .4:
            est.pop("opt", None)
        kind = zoo.KIND[est["est"]]
        data = zoo.gen_data(rng, kind, n=rng.choice([15, 18] if kind == "clf" else [8, 12]))
        if est["solver"] == "dedicated":
            data["k"] = 2
        faults = [{"task": rng.randrange(8), "kind": rng.choice(["lost", "lost", "twice"]), "at": rng.choice([1, 5, 25, 100, 300])}
                  for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
        if rng.random() < .25:
            faults.append({"task": rng.randrange(6), "kind": rng.choice(["error", "interrupt", "memory"]),
                           "at": rng.choice([1, 10, 60, 250, 500, 900]) + rng.randrange(60)})
        # (a task executed twice at once is given to each of its workers as a copy)
        copied = rng.random() < .5 or any(f["kind"] == "twice" for f in faults)
        return {"ambient": rng.randrange(1000), "est": est, "data": data, "tool": tool, "cv": rng.choice([2, 3]),
                "grid": gen_grid(rng, est), "scaled": rng.random() < .3, "fitted": rng.random() < .3, "seed": rng.randrange(100),
                "cluster": {"workers": rng.choice([2, 2, 3, 4]), "batch": rng.choice([1, 1, 2]), "shuffle": rng.random() < .7,
                            "copied": copied, "pick": rng.randrange(10**6), "switches": gen_switches(rng), "faults": faults}}

    def simpler(self, p):
        c = p["cluster"]
        for k, v in (("workers", 2), ("batch", 1), ("shuffle", False)):
            if c[k] != v:
                yield {**p, "cluster": {**c, k: v}}
        for k in ("scaled", "fitted"):
            if p[k]:
                yield {**p, k: False}

    def use(self, p, n_jobs):
        """The answer of the tool, as plain arrays."""
        from sklearn import ensemble, inspection, model_selection as ms, multiclass, multioutput
        from sklearn.pipeline import make_pipeline
        from sklearn.preprocessing import StandardScaler
        name, k = p["est"]["est"], p["cv"]
        X, y = zoo.make_data(p["data"], np.float32 if name == "port" else np.float64)
        est = zoo.make_est(p["est"])
        before = zoo.settings(est)
        if p["fitted"]:  # (clones must not know)
            attempt(lambda: zoo.fit_est(est, X[::-1], None if y is None else y[::-1]))
            before = zoo.settings(est)
        known = zoo.learnt(est)
        whole = est
        if p["scaled"] and name in ("linreg", "logreg"):
            whole = make_pipeline(StandardScaler(), est)
        grid = {k if whole is est else f"{type(est).__name__.lower()}__{k}": v for k, v in p["grid"].items()}
        j, t = {"n_jobs": n_jobs}, p["tool"]
        if t == "score":
            out = {"scores": zoo.arr(ms.cross_val_score(whole, X, y, cv=k, error_score="raise", **j))}
        elif t == "validate":
            r = ms.cross_validate(whole, X, y, cv=k, error_score="raise", return_estimator=True,
                                  scoring=None if name != "weber" else lambda e, *a: 0., **j)
            out = {"scores": zoo.arr(r["test_score"]), **{str(i): zoo.learnt(e if whole is est else e[-1]) for i, e in enumerate(r["estimator"])}}
        elif t == "predict":
            out = {"predictions": zoo.arr(ms.cross_val_predict(whole, X, y, cv=k, **j))}
        elif t in ("grid", "random"):
            s = ms.GridSearchCV(whole, grid, cv=k, error_score="raise", return_train_score=True, **j) if t == "grid" else \
                ms.RandomizedSearchCV(whole, grid, n_iter=3, cv=k, error_score="raise", random_state=p["seed"], **j)
            s.fit(X, y)
            best = s.best_estimator_ if whole is est else s.best_estimator_[-1]
            out = {"params": str(s.best_params_), "learnt": zoo.learnt(best), "answers": s.predict(X) if name in ("linreg", "logreg") else None,
                   **{c: zoo.arr(v) for c, v in s.cv_results_.items() if "score" in c and "time" not in c}}
        elif t == "bagging":
            b = (ensemble.BaggingRegressor if name == "linreg" else ensemble.BaggingClassifier)(whole, n_estimators=4, random_state=p["seed"], **j)
            out = {"predictions": b.fit(X, y).predict(X)}
        elif t == "curve":
            r = ms.learning_curve(whole, X, y, cv=k, train_sizes=[.7, 1.], shuffle=True, random_state=p["seed"], error_score="raise", **j)
            out = {"curve": [zoo.arr(v) for v in r[:3]]}
        elif t == "importance":
            whole.fit(X, y)
            r = inspection.permutation_importance(whole, X, y, n_repeats=2, random_state=p["seed"], **j)
            return {"importances": zoo.arr(r["importances"])}
        elif t in ("ovr", "ovo"):
            m = (multiclass.OneVsRestClassifier if t == "ovr" else multiclass.OneVsOneClassifier)(whole, **j).fit(X, y)
            out = {"predictions": m.predict(X), **{str(i): zoo.learnt(e if whole is est else e[-1]) for i, e in enumerate(m.estimators_)}}
        elif t in ("voting", "stacking"):
            other = zoo.make_est({**p["est"], "random_state": 3, "rho": .2})
            both = [("a", whole), ("b", other)]
            m = ensemble.StackingRegressor(both, final_estimator=zoo.make_est(p["est"]), cv=k, **j) if t == "stacking" else \
                (ensemble.VotingRegressor if name == "linreg" else ensemble.VotingClassifier)(both, **j)
            out = {"predictions": m.fit(X, y).predict(X)}
        else:
            m = multioutput.MultiOutputRegressor(whole, **j).fit(X, np.stack([y, y[::-1], -y], axis=1))
            out = {"predictions": m.predict(X)}
        # the estimator given to the tool is not fitted by it
        if zoo.settings(est) != before or zoo.diff(zoo.learnt(est), known):
            raise Violation("estimator changed", f"{t} changed the estimator it was given")
        return out

    def run(self, plan, ctx):
        def alone():
            reset_generators(plan["ambient"])
            return attempt(lambda: self.use({**plan, "fitted": False}, 1))
        expect = in_fork(alone)
        c = plan["cluster"]
        deadly = [f["kind"] for f in c["faults"] if f["kind"] not in ("lost", "twice")]
        reset_generators(plan["ambient"])
        with Cluster(c, ctx) as cl, Client(), joblib.parallel_config(backend="dask"):
            got = attempt(lambda: self.use(plan, -1))
        ctx.event(plan["tool"], got[0], cl.tasks)
        if got[0] == "injected":
            if not deadly:
                raise Violation("outcome", f"{plan['tool']} ended by {got[1]} though the lost tasks could be executed again")
        elif got[0] == "ok" and cl.failed:
            raise Violation("failure hidden", f"{plan['tool']} returned though {cl.failed[0]} ended one of its fits")
        elif got[0] != expect[0]:
            raise Violation("outcome", f"{plan['tool']} on {c['workers']} workers: {zoo.show(got)}, sequential: {zoo.show(expect)}")
        elif got[0] == "ok":
            d = zoo.diff(got[1], expect[1])
            if d:
                raise Violation("differs", f"{plan['tool']} of {plan['est']['est']} on {c['workers']} workers / sequential: {d}")
        else:
            ctx.probe(f"{plan['tool']} raised {got[1]}")
        ctx.probe("tool " + plan["tool"])
        ctx.probe("switches inside library code", len(cl.signature))
        ctx.state(plan["tool"], plan["est"]["est"], c["workers"], [(f["kind"], f["task"]) for f in c["faults"]], [x[:3] for x in cl.signature])
        ctx.nontrivial = cl.tasks > 1 and got[0] == "ok"


CHECK = C26()
