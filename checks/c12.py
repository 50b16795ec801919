"""C12: radius tuning does not depend on how its workers are scheduled."""
import joblib

from checks.c01 import observe
from sim import zoo
from sim.cluster import Cluster
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import LineFaults, attempt
from sim.machine import ORDINARY, Machine, gen_machine
from sim.threads import gen_switches

LIB = "/repo/skwdro/"


def gen_search(rng):
    est = zoo.gen_est(rng, names=("linreg", "linreg", "logreg", "logreg", "news"))
    est["n_iter"] = rng.choice([[1, 1], [0, 2], [1, 2]])
    est["n_zeta"] = rng.choice([2, 3])
    if rng.random() < .6:
        est.pop("opt", None)
    kind = zoo.KIND[est["est"]]
    hi = rng.choice([0, 1, 2, 3])
    return {"est": est, "min_power": hi - rng.choice([1, 2, 2, 3]), "max_power": hi,
            "data": zoo.gen_data(rng, kind, n=rng.choice([20, 23, 40] if kind == "clf" else [10, 13, 24])),
            "spoilt": rng.random() < .06}


def sequential(s, X, y):
    """The search the tuner is documented to make, one fit after the other."""
    from sklearn.model_selection import HalvingGridSearchCV, KFold
    grid = {"rho": [10**(-i) for i in range(s["max_power"], s["min_power"], -1)]}
    search = HalvingGridSearchCV(zoo.make_est(s["est"]), grid, cv=KFold(5), refit=True, n_jobs=1,
                                 min_resources="smallest", error_score="raise")
    search.fit(X, y)
    return search.best_estimator_


class C12(Check):
    id = "C12"
    runs = {"quick": 600, "thorough": 5000}
    timeout = 200.
    rule = ("a run is non-trivial when at least two workers existed, cross-validation tasks were executed and either "
            "the tuned model was compared with the sequential search's, or an injected failure ended the search")
    real = ["RhoTunedEstimator", "all of skwdro", "torch", "scikit-learn's halving search", "joblib's dispatching",
            "worker threads, released one at a time"]
    stubs = ["dask's client, scheduler and workers (sim/cluster.py)", "joblib's dask backend (same file)",
             "clocks, system entropy and number of processors (sim/machine.py)"]
    state_measure = "distinct (number of workers, batch, faults, interleaving as thread switches) tuples"
    assumptions = ["workers are threads of the process, or get copies of their task, as with Client(processes=False)",
                   "a lost worker unwinds its task (finally blocks run), the task is executed again",
                   "numpy's ambient generator, which halving uses to subsample, starts alike in both searches"]

    def gen(self, rng, tier):
        s = gen_search(rng)
        faults = []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2, 5])):
                faults.append({"task": rng.randrange(25), "kind": rng.choice(["lost", "lost", "lost", "twice", "twice"]),
                               "at": rng.choice([1, 5, 25, 100, 300, 900])})
        if rng.random() < .25:
            faults.append({"task": rng.randrange(18), "kind": rng.choice(["error", "interrupt", "memory", "value", "runtime"]),
                           "at": rng.choice([1, 10, 60, 250])})
        cl = {"workers": rng.choice([1, 2, 2, 3, 4, 8]), "batch": rng.choice([1, 1, 1, 2, 3]),
              "shuffle": rng.random() < .7, "copied": rng.random() < .6, "pick": rng.randrange(10**6),
              "switches": gen_switches(rng), "faults": faults}
        if rng.random() < .05:
            cl["no_start"] = True
        if rng.random() < .07:
            cl["interrupt_wait"] = rng.randrange(1, 12)
        plan = {"ambient": rng.randrange(1000), "search": s, "cluster": cl, "main_fault": None,
                "again": rng.random() < .15, "machine": gen_machine(rng)}
        if rng.random() < .12:
            plan["main_fault"] = [rng.choice([1, 4, 8, 12, 15, 40, 120]), rng.choice(["error", "interrupt", "memory"])]
        return plan

    def simpler(self, p):
        c = p["cluster"]
        for k, v in (("workers", 2), ("batch", 1), ("shuffle", False), ("copied", False)):
            if c[k] != v:
                yield {**p, "cluster": {**c, k: v}}
        for k in ("no_start", "interrupt_wait"):
            if k in c:
                yield {**p, "cluster": {a: b for a, b in c.items() if a != k}}
        if p["main_fault"]:
            yield {**p, "main_fault": None}
        if p["machine"] != ORDINARY:
            yield {**p, "machine": ORDINARY}
        if p["again"]:
            yield {**p, "again": False}

    def run(self, plan, ctx):
        from skwdro.base.rho_tuners import RhoTunedEstimator
        s = plan["search"]
        name = s["est"]["est"]
        X, y = zoo.make_data(s["data"])
        if s["spoilt"]:
            X[3] = float("nan")

        def alone():
            reset_generators(plan["ambient"])
            with Machine(ORDINARY):
                st, best = attempt(lambda: sequential(s, X, y))
            if st != "ok":
                return st, best, None
            return st, best.rho, observe(best, name, s["est"], X, y)
        expect = in_fork(alone)

        est = zoo.make_est(s["est"])
        before = zoo.settings(est)
        tuner = RhoTunedEstimator(est, min_power=s["min_power"], max_power=s["max_power"])
        outside = type(joblib.parallel.get_active_backend()[0]).__name__
        c = plan["cluster"]
        deadly = c.get("no_start") or c.get("interrupt_wait") or plan["main_fault"] \
            or any(f["kind"] not in ("lost", "twice") for f in c["faults"])
        for attempt_no in range(2 if plan["again"] else 1):
            if attempt_no:  # a second search with the same tuner, undisturbed
                c = {**c, "faults": [], "no_start": False, "interrupt_wait": None}
                deadly = False
            reset_generators(plan["ambient"])
            at, kind = plan["main_fault"] if plan["main_fault"] and not attempt_no else (None, "error")
            with Machine(plan["machine"], ctx), Cluster(c, ctx) as cl:
                # (not in the tuner itself: no "with" is safe from an error at its own statement)
                with LineFaults(lambda code: code.co_filename.startswith(LIB) and "tuner" not in code.co_filename,
                                at, kind, ctx):
                    st, err = attempt(lambda: tuner.fit(X, y))
                ctx.event("fit", st, cl.tasks)
                if cl.running():
                    raise Violation("workers left", f"{len(cl.running())} client(s) open after tuning ended ({st})")
            now = type(joblib.parallel.get_active_backend()[0]).__name__
            if now != outside:
                raise Violation("backend left", f"parallel backend {now} still active after tuning ended ({st})")
            if zoo.settings(est) != before or zoo.learnt(est):
                raise Violation("estimator changed", f"the estimator given to the tuner was changed: {zoo.settings(est)} / {before}")
            if st == "injected" or (st == "raises" and c.get("no_start")):
                if not deadly:
                    raise Violation("outcome", f"tuning ended by {err} though the lost tasks could be executed again")
                continue
            if st == "ok" and cl.failed:
                raise Violation("failure hidden", f"tuning returned though {cl.failed[0]} ended one of its fits")
            if st != expect[0]:
                raise Violation("outcome", f"tuning {st} {err if st != 'ok' else ''}, sequential search {expect[0]} {expect[1]}")
            if st != "ok":
                continue
            best = tuner.best_estimator_
            if best.rho != expect[1]:
                raise Violation("radius", f"radius {best.rho} selected, {expect[1]} by the sequential search")
            d = zoo.diff(observe(best, name, s["est"], X, y), expect[2])
            if d:
                raise Violation("model", f"tuned / by the sequential search: {d}")
            ctx.probe("tuned model compared")
            ctx.probe("switches inside library code", len(cl.signature))
            ctx.state(c["workers"], c["batch"], [(f["kind"], f["task"]) for f in c["faults"]], [x[:3] for x in cl.signature])
        ctx.nontrivial = c["workers"] > 1 and (cl.tasks > 0 or bool(deadly)) and st in ("ok", "injected")


CHECK = C12()
