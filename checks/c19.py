"""C19: a fitted estimator can be asked by several threads at once."""
import copy
import pickle

import numpy as np
from sklearn.base import clone

from checks.c02 import do_task, gen_task
from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import OpFaults, attempt
from sim.threads import Scheduler, gen_switches

QUESTIONS = ("score", "score", "score", "params", "repr", "clone", "pickle", "copy", "fitted")
OF = {"linreg": ("predict",) * 4, "logreg": ("predict", "predict", "predict", "proba", "proba", "proba2")}


def gen_ask(rng, name):
    q = {"est": name, "q": rng.choice(QUESTIONS + OF.get(name, ())), "data": rng.randrange(3), "f32": name not in OF or rng.random() < .3,
         "rows": rng.choice([1, 2, 4, 50]), "bad": rng.choice([None] * 24 + ["nan", "wide", "flat"])}
    q["fault"] = [rng.randrange(1, 12), rng.choice(["error", "interrupt", "memory"])] if rng.random() < .1 else None
    return q


def answer(est, q, datas):
    """One question; the answer in plain values."""
    X, y = datas[q["data"]]
    X, y = X[:q["rows"]], None if y is None else y[:q["rows"]]
    if q["f32"]:
        X = X.astype(np.float32)
    if q["bad"] == "nan":
        X = X * np.nan
    elif q["bad"] == "wide":
        X = np.hstack([X, X])
    elif q["bad"] == "flat":
        X = X[0]
    k = q["q"]

    def values(e):
        if hasattr(e, "predict"):
            return zoo.arr(e.predict(X))
        if q["est"] == "weber":
            return zoo.arr(e.coef_)
        return zoo.arr(e.score(X))
    if k == "predict":
        return values(est)
    if k == "proba":
        return zoo.arr(est.predict_proba(X))
    if k == "proba2":
        return zoo.arr(est.predict_proba_2Class(X))
    if k == "score":
        return zoo.arr(est.score(X, y) if y is not None else est.score(X))
    if k == "params":
        return repr(sorted(zoo.settings(est).items(), key=str))
    if k == "repr":
        return repr(est).split(" at 0x")[0]
    if k == "clone":
        return repr(sorted(zoo.settings(clone(est)).items(), key=str))
    if k == "pickle":
        return values(pickle.loads(pickle.dumps(est)))
    if k == "copy":
        return values(copy.deepcopy(est))
    return bool(getattr(est, "is_fitted_", False))


def ask(est, q, datas, ctx=None):
    at, kind = q["fault"] or (None, "error")
    with OpFaults(at, kind, ctx, q["q"]):
        return attempt(lambda: answer(est, q, datas))


class C19(Check):
    id = "C19"
    runs = {"quick": 700, "thorough": 9000}
    timeout = 90.
    rule = ("a run is non-trivial when at least two threads asked the same estimator, at least one switch happened inside "
            "library code and at least two answers were numbers")
    real = ["the estimators and everything they call, torch, sklearn", "threads of the operating system, one released at a time"]
    stubs = ["locks created by skwdro (scheduler-controlled, same semantics)"]
    state_measure = "distinct interleavings, as sequences of (thread, switch position, next thread)"
    assumptions = ["switch points are the statements of skwdro and operations on its locks",
                   "the estimator is not fitted again while it is asked", "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        est = zoo.gen_est(rng, names=("linreg", "logreg", "logreg", "weber", "news", "port"))
        est["n_iter"] = rng.choice([[1, 2], [0, 3], [1, 1]])
        est.pop("opt", None)
        d = rng.choice([1, 2, 3])
        datas = [zoo.gen_data(rng, zoo.KIND[est["est"]], n=rng.choice([6, 9]), d=d) for _ in range(3)]
        k, lab = (2 if est["solver"] == "dedicated" else rng.choice([2, 3])), rng.randrange(4)
        for x in datas:
            x.update(k=k, labels=lab)
        threads = [{"tasks": [gen_ask(rng, est["est"]) for _ in range(rng.choice([1, 2, 3, 5]))]} for _ in range(rng.choice([2, 2, 3, 4]))]
        if rng.random() < .3:
            threads.append({"fit": gen_task(rng), "tasks": [{}]})
        p = {"ambient": rng.randrange(1000), "est": est, "datas": datas, "threads": threads, "pick": rng.randrange(10**6),
             "focus": [rng.choice([4, 12]), rng.randrange(1000)] if rng.random() < .3 else None, "hot": rng.choice([0., .5, 1.])}
        p["switches"] = gen_switches(rng, rng.choice([3, 20, 80]), (1, 1, 2, 4, 15))
        return p

    def valid(self, p):
        return all(t["tasks"] for t in p["threads"]) and len(p["threads"]) > 0

    def run(self, plan, ctx):
        s = plan["est"]
        datas = [zoo.make_data(d) for d in plan["datas"]]

        def fitted():
            reset_generators(plan["ambient"])
            est = zoo.make_est(s)
            zoo.fit_est(est, *datas[0])
            return est

        def alone(i):
            t = plan["threads"][i]
            if "fit" in t:
                reset_generators(plan["ambient"])
                return [do_task(t["fit"])]
            est = fitted()
            return [ask(est, q, datas) for q in t["tasks"]]
        expect = [in_fork(lambda: alone(i)) for i in range(len(plan["threads"]))]
        est = fitted()
        before = {"learnt": zoo.learnt(est), "names": sorted(vars(est))}
        sched = Scheduler(ctx, plan["switches"], plan["pick"], focus=plan["focus"], hot=plan["hot"])
        for t in plan["threads"]:
            if "fit" in t:
                sched.spawn(lambda t=t: [do_task(t["fit"], ctx)])
            else:
                sched.spawn(lambda t=t: [ask(est, q, datas, ctx) for q in t["tasks"]])
        done = 0
        for i, (t, e) in enumerate(zip(sched.run(), expect)):
            if t.exc is not None:
                raise RuntimeError(f"thread {i} ended by {t.exc!r}")
            for j, (got, want) in enumerate(zip(t.result, e)):
                what = plan["threads"][i]["tasks"][j].get("q", "a fit of its own")
                d = zoo.diff({"outcome": list(got)} if not isinstance(got[1], dict) else {"outcome": got[0], **got[1]},
                             {"outcome": list(want)} if not isinstance(want[1], dict) else {"outcome": want[0], **want[1]})
                if d:
                    raise Violation("differs", f"thread {i}, {what}: among {len(expect)} threads / alone: {d}")
                done += got[0] == "ok"
                ctx.probe(f"{what}: {got[0]}")
        after = {"learnt": zoo.learnt(est), "names": sorted(vars(est))}
        d = zoo.diff(before, after)
        if d:
            raise Violation("changed", f"the estimator before / after being asked: {d}")
        ctx.state([x[:3] for x in sched.signature])
        ctx.probe("switches inside library code", len(sched.signature))
        ctx.nontrivial = sum("fit" not in t for t in plan["threads"]) > 1 and bool(sched.signature) and done > 1


CHECK = C19()
