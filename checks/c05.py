"""C05: robust trainings interleaved in one process do not affect each other."""
import torch as pt

from checks.c01 import disturb
from sim import zoo
from sim.core import Check, Violation, in_fork, reset_generators
from sim.robust import User, gen_fault, gen_user


def gen_one(rng):
    s = gen_user(rng, bn=True, dropout=True)
    if s["mode"] == "pre":
        s["net"].pop("dropout", None)  # draws of the model itself are not seeded there
    return s


def act(u, op, opt=None):
    x, y = u.batch(op["batch"], op["n"])
    k = op["op"]
    if k == "eval":
        return {"value": zoo.arr(u.evaluate(x, y))}
    if k == "step":
        v = u.step(x, y)
        return {"value": zoo.arr(v), "state": u.state()}
    if k == "grads":
        v = u.grads(x, y)
        return {"value": zoo.arr(v), "grads": u.grad_state()}
    if k == "apply":  # of the gradients left by earlier calls
        if u.spec["mode"] == "pre" or u.spec["adapt"] == "mechanic":  # (mechanic itself cannot step without gradient)
            return {"grads": u.grad_state()}
        return zoo.attempt_dict(lambda: u.dual.optimizer.step() or {"grads": u.grad_state(), "state": u.state()})
    if k == "forget":
        u.dual.zero_grad()
        return {}
    if k == "reset":
        if u.spec["adapt"] == "prodigy" and hasattr(u.dual.optimizer, "reset_lbd_state"):
            u.dual.optimizer.reset_lbd_state()
        return {}
    if k == "init":
        u.init(x, y)
        return {"lam": zoo.arr(u.dual.lam)}
    if k == "rho":
        with pt.no_grad():
            u.dual.rho.fill_(op["value"])
        return {}
    if k == "solve":
        return zoo.attempt_dict(lambda: {"result": [zoo.arr(v) for v in u.solve(x, y, opt or op["opt"])], "state": u.state()})
    if k == "zetas":
        pt.manual_seed(op["batch"])
        return {"drawn": zoo.arr(list(u.dual.generate_zetas(op["n"])))}
    if k == "move":
        u.dual.sampler.reset_mean(*zoo.make_batch(u.spec, op["batch"], 5))
        return {"drawn": zoo.arr(list(u.dual.generate_zetas(1)))}
    if k == "tune":
        return zoo.attempt_dict(lambda: tune(u, op["batch"]))
    raise ValueError(k)


def tune(u, seed):
    """One of the things a user may set on a loss between two calls."""
    d = u.dual
    with pt.no_grad():
        if seed % 5 == 0:
            d.n_samples = 1 + seed % 4
        elif seed % 5 == 1:
            d.epsilon.fill_(.05 + .1 * (seed % 7))
        elif seed % 5 == 2:
            next(p for p in d.primal_loss.parameters() if p.requires_grad).mul_(.9)
        elif seed % 5 == 3:
            d.imp_samp = False
        else:
            d.train(not d.training)
    return {"state": u.state()}


class C05(Check):
    id = "C05"
    runs = {"quick": 900, "thorough": 16000}
    rule = ("a run is non-trivial when at least two trainings both made progress and at least one operation of another "
            "training or a foreign draw came between two operations of one training")
    real = ["robustify, dual losses, samplers, optimizers, solve_dual_wdro, stopping conditions", "torch and its generators"]
    stubs = ["user's model and loss (real torch modules behind a call counter that can fail)"]
    state_measure = "distinct interleavings of (training, operation) with the sharing options"
    assumptions = ["sequential interleaving at the granularity of whole calls (C02 covers finer ones)",
                   "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3])
        specs = [gen_one(rng) for _ in range(n)]
        if rng.random() < .4:
            specs = [dict(specs[0]) for _ in range(n)]
        share_rho = rng.random() < .6
        if share_rho:
            for s in specs:
                s["rho"] = specs[0]["rho"]
                s.pop("f64", None)
                if s["rho"] == 0. and s["adapt"] == "mechanic":
                    s["adapt"] = "prodigy"
        history = []
        for _ in range(rng.choice([4, 8, 12] if tier == "quick" else [6, 14, 24])):
            if rng.random() < .15:
                history.append({"who": -1, "op": rng.choice(["seed", "draw"]), "which": rng.choice(["python", "numpy", "torch", "all"]),
                                "value": rng.choice([0, 3, 42, 99, 1234])})
                continue
            who = rng.randrange(n)
            o = {"who": who, "op": rng.choice(["step", "step", "step", "step", "eval", "eval", "init", "rho", "solve", "solve", "fail", "zetas", "move", "tune", "grads", "apply", "reset"]),
                 "batch": rng.randrange(1000), "n": rng.choice([2, 3, 5])}
            if o["op"] == "rho":
                o["value"] = rng.choice([.1, .7, 1.5])
                if specs[who]["rho"] == 0.:
                    o["op"] = "eval"
            if o["op"] == "solve":
                o["opt"] = zoo.gen_opt(rng)
            if o["op"] == "fail":
                o["fault"] = gen_fault(rng)
            history.append(o)
        return {"ambient": rng.randrange(1000), "users": specs, "share_rho": share_rho, "opt": zoo.gen_opt(rng),
                "share_opt": rng.random() < .5, "history": history, "build_late": rng.random() < .3}

    def run(self, plan, ctx):
        specs, hist = plan["users"], plan["history"]
        used = [i for i in range(len(specs)) if any(h["who"] == i for h in hist)]

        def do(u, h, opt=None):
            if h["op"] == "fail":
                x, y = u.batch(h["batch"], h["n"])
                (out, _), _ = u.with_fault(h["fault"], lambda: u.evaluate(x, y))
                return {"outcome": out}
            return act(u, dict(h, opt=plan["opt"] if plan["share_opt"] else h["opt"]) if h["op"] == "solve" else h, opt)

        def alone(i):
            reset_generators(plan["ambient"])
            u = User(specs[i])
            return [do(u, h) for h in hist if h["who"] == i]
        expect = {i: iter(in_fork(lambda: alone(i))) for i in used}

        rhos = pt.tensor(specs[0]["rho"], dtype=pt.float32) if plan["share_rho"] else None
        opt = zoo.make_opt(plan["opt"]) if plan["share_opt"] else None
        users = {}
        if not plan["build_late"]:
            for i in used:
                users[i] = User(specs[i], ctx, rho=rhos)
        order = []
        for h in hist:
            ctx.step()
            if h["who"] < 0:
                disturb(h)
                order.append(h["op"])
                continue
            i = h["who"]
            if i not in users:
                users[i] = User(specs[i], ctx, rho=rhos)
            got = do(users[i], h, opt if h["op"] == "solve" else None)
            d = zoo.diff(got, next(expect[i]))
            if d:
                raise Violation("differs", f"training {i}, {h['op']}: interleaved / alone: {d}")
            order.append((i, h["op"]))
            ctx.event(i, h["op"])
        ctx.state(order, plan["share_rho"], plan["share_opt"], plan["build_late"])
        ctx.nontrivial = len(used) > 1 and len(order) > 2


CHECK = C05()
