"""C16: data given to the library is never modified, nor watched afterwards."""
import numpy as np
import torch as pt

from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.faults import LineFaults, OpFaults, attempt
from sim.robust import User, gen_fault, gen_user

FORMS = ["plain", "fortran", "strided", "window", "subclass", "list"]


class Tagged(np.ndarray):
    """The caller's own kind of array."""


class Given:
    """An array of the caller with a record of all the memory behind it."""

    def __init__(self, a, form, readonly):
        a = np.array(a)
        self.pristine = a.copy()
        if form == "list":
            self.base, self.view = None, a.tolist()
            self.before = repr(self.view)
            return
        if form == "fortran":
            base = np.asfortranarray(a)
            view = base
        elif form == "strided":
            base = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
            base[::2] = a
            view = base[::2]
        elif form == "window":
            base = np.zeros(a.shape[:-1] + (a.shape[-1] + 2,), a.dtype) if a.ndim > 1 else np.zeros(a.shape[0] + 2, a.dtype)
            base[..., 1:-1] = a
            view = base[..., 1:-1]
        else:
            base = a.copy()
            view = base.view(Tagged) if form == "subclass" else base
        self.base, self.view = base, view
        self.before = base.tobytes()
        if readonly:
            base.flags.writeable = False
            view.flags.writeable = False

    def changed(self):
        if self.base is None:
            return repr(self.view) != self.before
        return self.base.tobytes() != self.before

    def overwrite(self, value):
        if self.base is None:
            def fill(l):
                for i, x in enumerate(l):
                    if isinstance(x, list):
                        fill(x)
                    else:
                        l[i] = value
            fill(self.view)
            self.before = repr(self.view)
            return
        ro = not self.base.flags.writeable
        self.base.flags.writeable = True
        self.base[...] = np.asarray(value).astype(self.base.dtype)
        self.base.flags.writeable = not ro
        self.before = self.base.tobytes()


def skip_raw(a):
    """What the estimator learnt, without the training data some estimators keep."""
    return {k: v for k, v in a.items() if k not in ("X_", "y_")}


class C16(Check):
    id = "C16"
    runs = {"quick": 900, "thorough": 16000}
    rule = ("a run is non-trivial when at least one call completed on data of a form other than a plain array, or that was "
            "read-only or overwritten after the call")
    real = ["the five estimators with all their solvers, robust losses of both modes, torch, numpy"]
    stubs = ["none (the caller's arrays are read-only, windows of larger memory, overwritten after calls)"]
    state_measure = "distinct (estimator or loss, form and type of the data, operations, interruptions)"
    assumptions = ["the caller overwrites its arrays between calls, not during them", "numbers compared with rtol 1e-5, atol 1e-8",
                   "copies of the training data kept as attributes X_ and y_ are not answers"]

    def gen(self, rng, tier):
        if rng.random() < .3:
            return self.gen_robust(rng, tier)
        s = zoo.gen_est(rng)
        s["n_iter"] = rng.choice([[1, 2], [0, 2], 2])
        ops = []
        for _ in range(rng.choice([2, 3, 4] if tier == "quick" else [3, 5, 8])):
            op = {"op": rng.choice(["fit", "ask", "ask"]), "data": rng.randrange(2), "form": rng.choice(FORMS),
                  "yform": rng.choice(FORMS), "readonly": rng.random() < .6,
                  "overwrite": rng.choice([None, None, 0., 1e6, -3., float("nan")])}
            if rng.random() < .35:
                op["fault"] = [rng.choice(["op", "line"]), 1 + rng.randrange(rng.choice([20, 200])), rng.choice(["error", "interrupt", "memory"])]
            ops.append(op)
        ops.insert(0, {"op": "fit", "data": 0, "form": rng.choice(FORMS), "yform": rng.choice(FORMS),
                       "readonly": rng.random() < .6, "overwrite": rng.choice([None, 0., 1e6, -3.])})
        datas = [zoo.gen_data(rng, zoo.KIND[s["est"]], n=rng.choice([5, 8]), d=2) for _ in range(2)]
        zoo.polyhedron(rng, s, 3)
        for d in datas:
            d["k"] = 2 if s["solver"] == "dedicated" else d["k"]
        return {"est": s, "datas": datas, "ops": ops, "dtype": rng.choice(["float64", "float64", "float32", "int64"]),
                "scale": rng.choice([1., 1., 1., 1e4, 1e-4])}

    def gen_robust(self, rng, tier):
        s = gen_user(rng)
        ops = []
        for _ in range(rng.choice([2, 3, 4])):
            op = {"op": rng.choice(["evaluate", "grads", "step", "init", "solve"]), "batch": rng.randrange(1000),
                  "n": rng.choice([1, 3, 4]), "overwrite": rng.random() < .5, "shared": rng.random() < .5}
            if rng.random() < .35:
                op["fault"] = gen_fault(rng)
            ops.append(op)
        return {"loss": s, "ops": ops}

    def run(self, plan, ctx):
        (self.run_loss if "loss" in plan else self.run_est)(plan, ctx)

    # ------------------------------------------------------------- estimators
    def run_est(self, plan, ctx):
        s, name = plan["est"], plan["est"]["est"]
        datas = []
        for d in plan["datas"]:
            X, y = zoo.make_data(d)
            if plan["dtype"] == "int64":
                X = np.round(4 * X).astype("int64") + (1 if name == "news" else 0)
            else:
                X = X.astype(plan["dtype"])
                if plan["scale"] != 1.:
                    X = X * np.asarray(plan["scale"], X.dtype)
            if plan["scale"] != 1. and y is not None and y.dtype.kind == "f":
                y = y * plan["scale"]
            datas.append((X, y))

        def expected():
            reset_generators(0)
            est = zoo.make_est(s)
            out = []
            for op in plan["ops"]:
                X, y = datas[op["data"]]
                # of the same form, as sums depend on the layout, but writable and left alone
                a = self.act(est, op, Given(X, op["form"], False).view, None if y is None else Given(y, op["yform"], False).view, s, None)
                out.append((a, self.answers(est, s, datas)))
            return out
        expect = in_fork(expected)

        est = zoo.make_est(s)
        held, same = [], True
        given = repr(zoo.settings(est).get("C")), repr(zoo.settings(est).get("d"))
        for n, op in enumerate(plan["ops"]):
            ctx.step()
            X, y = datas[op["data"]]
            gx = Given(X, op["form"], op["readonly"])
            gy = None if y is None else Given(y, op["yform"], op["readonly"])
            a = self.act(est, op, gx.view, None if gy is None else gy.view, s, ctx)
            where = (f"operation {n} ({op['op']}), {plan['dtype']} data given as {op['form']}/{op['yform']}"
                     f"{', read-only' if op['readonly'] else ''}, {a['outcome']}")
            held += [g for g in (gx, gy) if g is not None]
            ctx.event(n, op["op"], a["outcome"])
            for g in held:
                if g.changed():
                    raise Violation("modified", f"{where}: data of the caller were modified")
            if given != (repr(zoo.settings(est).get("C")), repr(zoo.settings(est).get("d"))):
                raise Violation("modified", f"{where}: the constraints given by the caller were modified")
            got = self.answers(est, s, datas)
            if op["op"] == "fit":
                # an interruption may come at another place, or not at all, with other data
                same = not op.get("fault")
            if same and not op.get("fault"):
                d = zoo.diff(a, expect[n][0]) or zoo.diff(got, expect[n][1])
                if d:
                    raise Violation("answers", f"{where}: with these data / with private copies: {d}")
            if op["overwrite"] is not None:
                v = op["overwrite"]
                if plan["dtype"] == "int64" and v != v:
                    v = 7.
                for g in (gx, gy):
                    if g is not None:
                        g.overwrite(int(v) if v == v and g.pristine.dtype.kind == "i" else (v if g.pristine.dtype.kind == "f" else 0))
                ctx.fault("data overwritten after a call")
                d = zoo.diff(self.answers(est, s, datas), got)
                if d:
                    raise Violation("watched", f"{where}: after / before its data were overwritten: {d}")
            if op["readonly"]:
                ctx.probe("read-only data")
            if a["outcome"] == "ok" and (op["form"] != "plain" or op["readonly"] or op["overwrite"] is not None):
                ctx.nontrivial = True
            ctx.state(name, s["solver"], plan["dtype"], op["op"], op["form"], op["yform"], op["readonly"], a["outcome"])

    def answers(self, est, s, datas):
        out = {"learnt": skip_raw(zoo.learnt(est))}
        for i, (X, y) in enumerate(datas):
            out[f"asked{i}"] = zoo.ask(est, s["est"], s, X.copy(), None if y is None else y.copy())
        return out

    def act(self, est, op, X, y, s, ctx):
        def go():
            if op["op"] == "fit":
                zoo.fit_est(est, X, y)
                return {}
            out = {}
            for q in ("predict", "predict_proba"):
                if hasattr(est, q):
                    st, v = attempt(lambda: zoo.arr(getattr(est, q)(X)))
                    out[q] = v if st == "ok" else f"{st} {v}"
            for q in ("score", "eval"):
                if hasattr(est, q):
                    args = (X, y) if y is not None and q == "score" else (X,)
                    st, v = attempt(lambda: zoo.arr(getattr(est, q)(*args)))
                    out[q] = v if st == "ok" else f"{st} {v}"
            return out
        f = op.get("fault")
        if f is None:
            st, v = attempt(go)
        elif f[0] == "op":
            with OpFaults(f[1], f[2], ctx):
                st, v = attempt(go)
        else:
            with LineFaults(lambda code: "/skwdro/" in code.co_filename, f[1], f[2], ctx):
                st, v = attempt(go)
        return dict(v if st == "ok" else {}, outcome=st if st == "ok" else f"{st} {v}")

    # ---------------------------------------------------------------- losses
    def run_loss(self, plan, ctx):
        s = plan["loss"]
        u = User(s, ctx)
        held = []
        for n, op in enumerate(plan["ops"]):
            ctx.step()
            x, y = u.batch(op["batch"], op["n"])
            if op["shared"]:
                x = pt.from_numpy(x.numpy().copy())
                y = None if y is None else pt.from_numpy(y.numpy().copy())
            mine = [t for t in (x, y) if t is not None]
            held += [(t, t.detach().clone(), t._version) for t in mine]
            op_ = {"evaluate": lambda: u.evaluate(x, y).detach(), "grads": lambda: u.grads(x, y), "step": lambda: u.step(x, y),
                   "init": lambda: u.init(x, y),
                   "solve": lambda: u.solve(x, y, {"order": 2, "tol_theta": 1e-8, "tol_lambda": 1e-8})}[op["op"]]
            (st, v), fired = u.with_fault(op.get("fault"), op_)
            ctx.event(n, op["op"], st, fired)
            for t, c, ver in held:
                if t._version != ver or not pt.equal(pt.nan_to_num(t), pt.nan_to_num(c)):
                    raise Violation("modified", f"operation {n} ({op['op']}, {st}): a tensor of the caller was written to")
                if t.requires_grad or t.grad is not None:
                    raise Violation("modified", f"operation {n} ({op['op']}, {st}): a tensor of the caller now requires gradients")
            ctx.state(s["kind"], s["mode"], op["op"], st, op["shared"])
            ctx.nontrivial = ctx.nontrivial or st == "ok"


CHECK = C16()
