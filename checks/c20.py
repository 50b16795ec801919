"""C20: a copied or serialised robust loss trains as the original would."""
import copy
import io
import pickle

import cloudpickle
import torch as pt

from checks.c01 import disturb
from checks.c05 import act
from sim import zoo
from sim.core import Check, Later, Violation, in_fork, reset_generators
from sim.faults import OpFaults, attempt
from sim.robust import User, gen_user

FORGET = {"op": "forget", "batch": 0, "n": 2}
HOW = ("deepcopy", "pickle", "cloudpickle", "torch")


def dump(dual, how):
    if how == "torch":
        b = io.BytesIO()
        pt.save(dual, b)
        return b.getvalue()
    return {"pickle": pickle, "cloudpickle": cloudpickle}[how].dumps(dual)


def load(data, how):
    if how == "torch":
        return pt.load(io.BytesIO(data), weights_only=False)
    return pickle.loads(data)


def user_of(spec, dual):
    """The user of a loss that came from elsewhere (gradients are not part of it)."""
    dual.zero_grad()
    u = User.__new__(User)
    u.spec, u.ctx, u.n0, u.dual = spec, None, 5, dual
    return u


class C20(Check):
    id = "C20"
    runs = {"quick": 800, "thorough": 12000}
    rule = ("a run is non-trivial when a loss that had been used was copied and both, or the restored one, were "
            "trained afterwards")
    real = ["robustify, dual losses, samplers, optimizers, solve_dual_wdro", "torch, pickle, cloudpickle"]
    stubs = ["the process that restores (forked before the loss was made; it gets the bytes only)"]
    state_measure = "distinct (way of copying, optimizer, sampling mode, operations of original and copy)"
    assumptions = ["model and loss of the user can be copied themselves", "step by step training or solves between copies",
                   "without the mechanic optimizer, which cannot be serialised", "numbers compared with rtol 1e-5, atol 1e-8"]

    def gen(self, rng, tier):
        s = gen_user(rng, bn=True, adapt=("prodigy", None))
        s["user"]["grads"] = False
        ops, made = [], 1
        for _ in range(rng.choice([4, 7, 10] if tier == "quick" else [6, 12, 20])):
            r = rng.random()
            if r < .1:
                ops.append({"op": rng.choice(["seed", "draw"]), "which": rng.choice(["python", "numpy", "torch", "all"]),
                            "value": rng.choice([0, 3, 42, 99])})
            elif r < .35 and made < 4:
                ops.append({"op": "copy", "who": rng.randrange(made), "how": rng.choice(HOW)})
                made += 1
            elif r < .4:
                ops.append({"op": "failed copy", "who": rng.randrange(made), "how": rng.choice(HOW), "at": rng.randrange(1, 15)})
            elif r < .45:
                ops.append({"op": "drop", "who": rng.randrange(made)})
            else:
                k = rng.choice(["step"] * 5 + ["eval", "eval", "init", "rho", "solve", "solve", "zetas", "move", "tune", "grads", "apply", "reset"])
                o = {"op": k, "who": rng.randrange(made), "batch": rng.randrange(1000), "n": rng.choice([2, 3, 5])}
                if k == "rho":
                    o["value"] = rng.choice([.1, .7, 1.5])
                    if s["rho"] == 0.:
                        o["op"] = "eval"
                if k == "solve":
                    o["opt"] = zoo.gen_opt(rng)
                ops.append(o)
        elsewhere = None
        if rng.random() < .5:
            elsewhere = {"who": rng.randrange(made), "how": rng.choice(HOW[1:]), "ops": [
                {"op": rng.choice(["step", "step", "eval", "solve", "apply"]), "batch": rng.randrange(1000), "n": 3, "opt": zoo.gen_opt(rng)}
                for _ in range(rng.choice([1, 3]))]}
        return {"ambient": rng.randrange(1000), "loss": s, "ops": ops, "elsewhere": elsewhere}

    def simpler(self, p):
        if p["elsewhere"]:
            yield {**p, "elsewhere": None}
        for i, o in enumerate(p["ops"]):
            if o["op"] == "copy" and o["how"] != "deepcopy":
                yield {**p, "ops": p["ops"][:i] + [{**o, "how": "deepcopy"}] + p["ops"][i + 1:]}

    def lineages(self, plan):
        """For every loss of the run, the operations that led to it."""
        lines, out = [[]], []
        for o in plan["ops"]:
            who = o.get("who")
            if who is None or who >= len(lines) or lines[who] is None:
                out.append(None)
                continue
            out.append(who)
            if o["op"] == "copy":
                lines.append(lines[who] + [FORGET])
            elif o["op"] == "drop":
                if sum(x is not None for x in lines) > 1:
                    lines[who] = None
                else:
                    out[-1] = None
            elif o["op"] != "failed copy":
                lines[who] = lines[who] + [o]
        return lines, out

    def run(self, plan, ctx):
        s = plan["loss"]
        lines, whos = self.lineages(plan)
        away = plan["elsewhere"]
        if away and (away["who"] >= len(lines) or lines[away["who"]] is None):
            away = None

        def alone(ops):
            reset_generators(plan["ambient"])
            u = User(s, plain=True)
            return [act(u, o) for o in ops]
        # every prefix that is ever reached, each computed once
        expect = {}
        todo, seen = [[]], []
        for o, who in zip(plan["ops"], whos):
            seen.append(None)
            if who is None:
                continue
            if o["op"] == "copy":
                todo.append(todo[who] + [FORGET])
            elif o["op"] not in ("drop", "failed copy"):
                todo[who] = todo[who] + [o]
                seen[-1] = repr(todo[who])
        finals = [t for t in todo] + ([todo[away["who"]] + [FORGET] + away["ops"]] if away else [])
        for t in finals:
            vals = in_fork(lambda: alone(t))
            for i in range(len(t)):
                expect[repr(t[:i + 1])] = vals[i]

        def restored(data):
            reset_generators(plan["ambient"] + 1)
            u = user_of(s, load(data, away["how"]))
            return [act(u, o) for o in away["ops"]]
        later = Later(restored) if away else None
        users = [User(s, plain=True)]
        order, copies, trained = [], 0, set()
        for n, (o, who) in enumerate(zip(plan["ops"], whos)):
            ctx.step()
            if o["op"] in ("seed", "draw"):
                disturb(o)
                continue
            if who is None:
                continue
            u = users[who]
            if o["op"] == "copy":
                d = copy.deepcopy(u.dual) if o["how"] == "deepcopy" else load(dump(u.dual, o["how"]), o["how"])
                users.append(user_of(s, d))
                copies += 1
            elif o["op"] == "failed copy":
                with OpFaults(o["at"], "error", ctx, "copy"):
                    attempt(lambda: copy.deepcopy(u.dual) if o["how"] == "deepcopy" else dump(u.dual, o["how"]))
            elif o["op"] == "drop":
                users[who] = None
            else:
                d = zoo.diff(act(u, o), expect[seen[n]])
                if d:
                    raise Violation("differs", f"operation {n} ({o['op']} by loss {who}, {copies} copies made): here / never copied: {d}")
                if copies:
                    trained.add(who)
            order.append((o["op"], who, o.get("how")))
            ctx.event(o["op"], who)
        if away:
            t = todo[away["who"]] + [FORGET]
            got = later(dump(users[away["who"]].dual, away["how"]))
            for i, (o, v) in enumerate(zip(away["ops"], got)):
                t = t + [o]
                d = zoo.diff(v, expect[repr(t)])
                if d:
                    raise Violation("elsewhere", f"{o['op']} {i} in a fresh process ({away['how']}): restored / never copied: {d}")
            ctx.fault("process lost after serialisation")
        ctx.state(order, s["adapt"], s["mode"], bool(away))
        ctx.nontrivial = bool(trained) or bool(away)


CHECK = C20()
