"""C15: a fitted estimator restored from disk answers as before the crash."""
import copy
import io
import pickle

from sim import zoo
from sim.core import FAULTS, Check, Later, Violation, in_fork, reset_generators
from sim.faults import OpFaults, attempt


class Disk(io.BytesIO):
    """A file whose n-th write fails."""

    def __init__(self, at, kind, ctx=None):
        super().__init__()
        self.at, self.kind, self.ctx, self.n = at, kind, ctx, 0

    def write(self, b):
        self.n += 1
        if self.n == self.at:
            if self.kind == "full":
                raise OSError(28, "no space left (injected)")
            raise FAULTS[self.kind]("injected in a write")
        return super().write(b)


def dump(est, how, f):
    if how == "joblib":
        import joblib
        joblib.dump(est, f)
    elif how == "cloudpickle":
        import cloudpickle
        cloudpickle.dump(est, f)
    else:
        pickle.dump(est, f, protocol=how)


def load(data, how):
    if how == "joblib":
        import joblib
        return joblib.load(io.BytesIO(data))
    return pickle.loads(data)


HOW = [2, 3, 4, 5, 5, "joblib", "cloudpickle"]


class C15(Check):
    id = "C15"
    runs = {"quick": 700, "thorough": 14000}
    rule = "a run is non-trivial when an estimator fitted before a crash answered at least one question in the restarted process"
    real = ["the five estimators, pickle, joblib, cloudpickle, the restarted processes (forks of the pristine image)"]
    stubs = ["the disk (bytes handed to the restarted process, writes may fail)"]
    state_measure = "distinct (estimator, solver, sequence of operations and forms of serialisation)"
    assumptions = ["the restarted process has the same version of the library", "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        s = zoo.gen_est(rng)
        s["n_iter"] = rng.choice([[1, 2], [2, 3], [0, 2], 2])
        datas = [zoo.gen_data(rng, zoo.KIND[s["est"]], n=rng.choice([5, 8]), d=2) for _ in range(2)]
        zoo.polyhedron(rng, s, 3)
        if s["solver"] == "dedicated":
            for x in datas:
                x["k"] = 2
        ops = []
        for _ in range(rng.choice([2, 3, 5] if tier == "quick" else [3, 5, 9])):
            k = rng.choice(["fit", "fit", "crash", "crash", "save", "copy", "clone", "set", "broken"])
            op = {"op": k, "data": rng.randrange(2)}
            if k in ("crash", "save"):
                op["how"] = rng.choice(HOW)
            if k == "save" and rng.random() < .6:
                op["fault"] = [1 + rng.randrange(6), rng.choice(["full", "error", "interrupt", "memory"])]
            if k == "broken":
                op.update(at=1 + rng.randrange(300), kind=rng.choice(["error", "interrupt", "memory"]))
            if k == "set":
                op["set"] = rng.choice([{"rho": .3}, {"n_zeta_samples": 3}, {"random_state": 5}, {"learning_rate": .1}])
            ops.append(op)
        if not any(o["op"] == "fit" for o in ops):
            ops.insert(0, {"op": "fit", "data": 0})
        if not any(o["op"] == "crash" for o in ops):
            ops.append({"op": "crash", "data": 0, "how": rng.choice(HOW)})
        return {"est": s, "datas": datas, "ops": ops, "ambient": rng.randrange(100)}

    def simpler(self, p):
        for i, o in enumerate(p["ops"]):
            for c in ({**o, "how": 5}, {k: v for k, v in o.items() if k != "fault"}):
                if c != o:
                    yield {**p, "ops": p["ops"][:i] + [c] + p["ops"][i + 1:]}

    def run(self, plan, ctx):
        from sklearn.base import clone
        s, name = plan["est"], plan["est"]["est"]
        datas = [zoo.make_data(d) for d in plan["datas"]]

        def answers(est):
            a = {"learnt": zoo.learnt(est), "settings": {k: str(v) for k, v in zoo.settings(est).items()}}
            for i, (X, y) in enumerate(datas):
                a[f"asked{i}"] = zoo.ask(est, name, s, X, y)
            return a

        def act(est, op, crashes):
            """One operation, with what can be seen after it."""
            X, y = datas[op["data"]]
            out = {}
            if op["op"] == "fit":
                out["outcome"] = attempt(lambda: zoo.fit_est(est, X, y) and None)
            elif op["op"] == "broken":
                with OpFaults(op["at"], op["kind"]):
                    st = attempt(lambda: zoo.fit_est(est, X, y) and None)
                out["outcome"] = st
            elif op["op"] == "set":
                est.set_params(**op["set"])
            elif op["op"] == "clone":
                c = clone(est)
                out["outcome"] = attempt(lambda: zoo.fit_est(c, X, y) and None)
                out["clone"] = answers(c)
            elif op["op"] == "copy" and crashes:
                st, c = attempt(lambda: copy.deepcopy(est))
                if st != "ok":
                    raise Violation("copy", f"copying the estimator: {st} {c}")
                out["copy"] = answers(c)
                attempt(lambda: zoo.fit_est(c, X, y))  # leaves the original alone
            elif op["op"] == "copy":
                out["copy"] = answers(est)
            elif op["op"] == "save" and crashes:
                at, kind = op.get("fault") or (None, None)
                st, e = attempt(lambda: dump(est, op["how"], Disk(at, kind)))
                if st != "ok" and at is None:
                    raise Violation("save", f"serialising ({op['how']}): {st} {e}")
            out["after"] = answers(est)
            if "outcome" in out:
                out["outcome"] = str(out["outcome"])
            return out

        def uninterrupted():
            reset_generators(plan["ambient"])
            est = zoo.make_est(s)
            return [act(est, op, False) for op in plan["ops"]]
        expect = in_fork(uninterrupted)

        cuts = [i for i, o in enumerate(plan["ops"]) if o["op"] == "crash"]
        bounds = list(zip([0] + [c + 1 for c in cuts], cuts + [len(plan["ops"])]))

        def live(payload):
            a = pickle.loads(payload)
            reset_generators(a["ambient"])
            out = []
            if a["data"] is None:
                est = zoo.make_est(s)
            else:
                st, est = attempt(lambda: load(a["data"], a["how"]))
                if st != "ok":
                    raise Violation("load", f"restoring ({a['how']}): {st} {est}")
                out.append((a["start"] - 1, {"after": answers(est)}))
            for i in range(a["start"], a["upto"]):
                out.append((i, act(est, plan["ops"][i], True)))
            data = None
            if a["upto"] < len(plan["ops"]):
                f = io.BytesIO()
                st, e = attempt(lambda: dump(est, plan["ops"][a["upto"]]["how"], f))
                if st != "ok":
                    raise Violation("save", f"serialising ({plan['ops'][a['upto']]['how']}): {st} {e}")
                data = f.getvalue()
                out.append((a["upto"], {"after": answers(est)}))
            return data, out

        procs = [Later(live) for _ in bounds]
        data, how, answered = None, None, 0
        try:
            for life, (start, upto) in enumerate(bounds):
                data, out = procs[life](pickle.dumps({"start": start, "upto": upto, "data": data, "how": how,
                                                      "ambient": plan["ambient"] + 7 * life}))
                if upto < len(plan["ops"]):
                    how = plan["ops"][upto]["how"]
                    ctx.fault("crash and restoration")
                for i, got in out:
                    ctx.step()
                    want = {k: expect[i][k] for k in got}
                    d = zoo.diff(got, want)
                    ctx.event(life, i, plan["ops"][i]["op"], got.get("outcome"))
                    if d:
                        raise Violation("differs", f"life {life}, operation {i} ({plan['ops'][i]['op']}): "
                                        f"restored / never interrupted: {d}")
                    if life and i == start - 1 and got["after"]["asked0"]["fitted"] is not None and "raises" not in str(got["after"]["asked0"]["fitted"]):
                        answered += 1
                for i in range(start, upto):
                    if plan["ops"][i].get("fault"):
                        ctx.fault(f"{plan['ops'][i]['fault'][1]} while serialising")
                    elif plan["ops"][i]["op"] == "broken":
                        ctx.fault(f"{plan['ops'][i]['kind']} while fitting")
        finally:
            for p in procs:
                p.close()
        ctx.state(name, s["solver"], [(o["op"], o.get("how")) for o in plan["ops"]])
        if not answered:
            ctx.probe("nothing fitted before the last crash")
        ctx.nontrivial = answered > 0


CHECK = C15()
