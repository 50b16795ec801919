"""C07: a training resumed from a checkpoint continues as if never interrupted."""
import io
import pickle

import torch as pt

from sim import zoo
from sim.core import Check, Later, Violation, in_fork, reset_generators
from sim.robust import User, gen_user



def save(u):
    f = io.BytesIO()
    pt.save({"loss": u.dual.state_dict(), "optimizer": u.dual.optimizer.state_dict()}, f)
    return f.getvalue()


def load(u, data, order):
    s = pt.load(io.BytesIO(data), weights_only=False)
    if order:
        u.dual.load_state_dict(s["loss"])
    u.dual.optimizer.load_state_dict(s["optimizer"])
    if not order:
        u.dual.load_state_dict(s["loss"])


def step(u, b):
    if "rho" in b:
        with pt.no_grad():
            u.dual.rho.fill_(b["rho"])  # hyperparameters are part of the state
        return {"state": u.state()}
    if "epsilon" in b:
        with pt.no_grad():
            u.dual.epsilon.fill_(b["epsilon"])
        return {"state": u.state()}
    if "lam" in b:
        with pt.no_grad():
            zoo.lam_param(u.dual).fill_(b["lam"])
        return {"state": u.state()}
    x, y = u.batch(b["batch"], b["n"])
    if b.get("eval"):
        return {"value": zoo.arr(u.evaluate(x, y))}
    v = u.step(x, y)
    if not all(bool(p.isfinite().all()) for p in u.dual.parameters()):
        return {"diverged": True}
    return {"value": zoo.arr(v), "state": u.state(), "bound": float(zoo.lam_param(u.dual)) == 0.}


def fresh(spec, ambient):
    """Built anew: only the settings are shared with the lost process."""
    reset_generators(ambient)
    return User(dict(spec, init=spec["init"] + (1 if spec["mode"] == "post" else 0)))


class C07(Check):
    id = "C07"
    runs = {"quick": 700, "thorough": 14000}
    rule = "a run is non-trivial when a restarted process made at least two steps from a checkpoint taken after at least one step"
    real = ["dual losses and their state dictionaries, CompositeOptimizer, Prodigy, AdamW, LBFGS, schedules", "torch.save and torch.load",
            "the restarted processes (forks of the pristine image)"]
    stubs = ["the disk (checkpoints are bytes handed to the restarted process)"]
    state_measure = "distinct (settings, places of checkpoints, crashes and come-backs)"
    assumptions = ["mechanic cannot be checkpointed (third party keeps no state dictionary) and is left out",
                   "numbers compared with rtol 1e-5, atol 1e-8; diverged trainings end the run"]

    def gen(self, rng, tier):
        s = gen_user(rng, adapt=("prodigy", "prodigy", None))
        total = rng.choice([4, 7, 10] if tier == "quick" else [6, 12, 20])
        steps = [{"batch": rng.randrange(1000), "n": rng.choice([1, 2, 3, 5]), "eval": rng.random() < .12} for _ in range(total)]
        if s["rho"] > 0. and rng.random() < .3:
            steps[rng.randrange(total)] = {"rho": rng.choice([.05, .4, 1.5])} if rng.random() < .5 else {"epsilon": rng.choice([.02, .3])}
        if s["rho"] > 0. and rng.random() < .3:  # the multiplier at its bound
            k = rng.randrange(total - 2)
            steps[k:k + 2] = [{"rho": rng.choice([.01, 2., 50.])}, {"lam": rng.choice([0., 0., 1e-4, .01])}]
        lives = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            at = [i + 1 for i, b in enumerate(steps) if "lam" in b and i + 1 < total]
            lives.append({"from": at[0] if at and rng.random() < .5 else rng.randrange(1, total), "upto": rng.randrange(1, total + 1), "ambient": rng.randrange(1000),
                          "order": rng.random() < .7, "same": rng.random() < .3,
                          "rollback": rng.random() < .25})
        return {"loss": s, "steps": steps, "ops": lives}

    def run(self, plan, ctx):
        s, steps = plan["loss"], plan["steps"]

        def uninterrupted():
            reset_generators(1)
            u = User(s)
            return [step(u, b) for b in steps]
        expect = in_fork(uninterrupted)

        def compare(k, got, life):
            if "diverged" in expect[k] or "diverged" in got:
                if expect[k].keys() != got.keys():
                    raise Violation("differs", f"step {k}: diverged only in one of the trainings")
                return True
            d = zoo.diff(got, expect[k])
            if d:
                raise Violation("differs", f"step {k}, life {life}: resumed / uninterrupted: {d}")

        # every life runs in its own process and hands checkpoints over as bytes
        def live(payload):
            a = pickle.loads(payload)
            reset_generators(a["ambient"])
            u = User(s) if a["data"] is None else fresh(s, a["ambient"])
            if a["data"] is not None:
                load(u, a["data"], a["order"])
            saves, out = {a["start"]: save(u)}, []
            for k in range(a["start"], a["upto"]):
                out.append((k, step(u, steps[k])))
                if "diverged" in out[-1][1]:
                    break
                saves[k + 1] = save(u)
            if a["rollback"] and len(saves) > 2:
                # come back to an older checkpoint without leaving the process
                back = sorted(saves)[len(saves) // 2]
                load(u, saves[back], a["order"])
                for k in range(back, max(saves)):
                    out.append((k, step(u, steps[k])))
            return saves, out

        total = len(steps)
        lives = [{"start": 0, "upto": total, "data": None, "ambient": 3, "order": True, "rollback": any(o["rollback"] for o in plan["ops"])}]
        procs = [Later(live) for _ in range(len(plan["ops"]) + 1)]
        disk, where, made = {}, [], 0
        for n, o in enumerate([None] + plan["ops"]):
            if o is None:
                a = lives[0]
                a["upto"] = max(1, plan["ops"][0]["upto"] if plan["ops"] else total)
            else:
                have = [k for k in disk if 0 < k < total] or [0]
                start = min(have, key=lambda k: (abs(k - o["from"]), k))
                a = {"start": start, "upto": total if n == len(plan["ops"]) else max(start + 1, o["upto"]), "data": disk[start],
                     "ambient": o["ambient"], "order": o["order"], "rollback": o["rollback"]}
                where.append((a["start"], a["upto"], o["order"]))
                ctx.fault("crash")
            saves, out = procs[n](pickle.dumps(a))
            ctx.step(len(out))
            for k, got in out:
                ctx.event(n, k)
                if got.get("bound"):
                    ctx.probe("multiplier at zero")
                if compare(k, got, n):
                    break
            made += len(out) if o is not None and a["start"] > 0 else 0
            disk.update(saves)
        ctx.state(str(sorted((k, str(v)) for k, v in s.items() if k in ("kind", "mode", "adapt", "rho", "reduction"))), where)
        ctx.nontrivial = made >= 2

    def valid(self, plan):
        return bool(plan["ops"])


CHECK = C07()
