"""C08: the stopping rule is the documented one, and knows one solve only."""
import math

import numpy as np
import torch as pt

from sim import zoo
from sim.core import Check, Violation
from sim.faults import attempt
from sim.robust import User, gen_fault

BOTH, ONE = {"both", "theta_and_lambda", "t&l", "lambda_and_theta", "l&t"}, {"one", "theta_or_lambda", "tUl", "lambda_or_theta", "lUt"}
T, L = {"theta", "t"}, {"lambda", "l"}


class Rule:
    """Documented rule, on plain numbers. Answers True, False or None when
    rounding decides."""

    def __init__(self, o):
        self.o = o
        self.first = {}
        self.prev, self.delta = {}, {}

    def norm(self, v):
        v = np.abs(np.asarray(v, dtype=np.float64).ravel())
        k = self.o["order"]
        if not np.all(np.isfinite(v)):
            return math.nan if np.isnan(v).any() else math.inf
        if k in ("inf", math.inf):
            return float(v.max())
        return float(v.sum()) if k == 1 else float(np.sqrt((v * v).sum()))

    def exact(self, name):
        return name == "l" or self.o["order"] != 2

    def part(self, name, value, grad, tol):
        o = self.o
        if tol <= 0.:
            return False
        size = self.norm if name == "t" else (lambda v: float(abs(np.asarray(v, dtype=np.float64).ravel()[0])))
        if o["metric"] == "grad":
            u = size(grad)
            if name not in self.first:
                self.first[name] = u
                return False
            ref = self.first[name]
        else:
            v = np.asarray(value, dtype=np.float64).ravel().copy()
            if name not in self.prev:
                self.prev[name] = v
                return False
            with np.errstate(invalid="ignore"):
                u = size(v - self.prev[name])
            self.prev[name] = v
            if name not in self.delta:
                self.delta[name] = u
                return False
            ref = self.delta[name]
        bound = tol * ref if o["mode"] == "rel" else tol
        if math.isnan(u) or math.isnan(bound):
            return False
        if math.isfinite(u) and math.isfinite(bound) and u != bound and abs(u - bound) <= 1e-5 * max(abs(u), abs(bound)):
            return None
        if u == bound and not self.exact(name):
            return None
        return u < bound

    def __call__(self, theta, tgrad, lam, lgrad):
        o = self.o
        m = o["monitoring"]
        l = self.part("l", lam, lgrad, o["tol_lambda"]) if m not in T else None
        t = self.part("t", theta, tgrad, o["tol_theta"]) if m not in L else None
        if m in T:
            return t
        if m in L:
            return l
        vals = (l, t)
        if m in BOTH:
            return False if False in vals else (None if None in vals else True)
        return True if True in vals else (None if None in vals else False)


def gen_cond(rng):
    return {"order": rng.choice([1, 2, "inf"]), "tol_theta": rng.choice([.5, 1., 2., .125, 0., -1., 1e-8]),
            "tol_lambda": rng.choice([.5, 1., 2., .125, 0., 1e-8]),
            "monitoring": rng.choice(sorted(BOTH | ONE | T | L)), "mode": rng.choice(["rel", "abs"]),
            "metric": rng.choice(["grad", "param"])}


def gen_script(rng, n, size, wild=False):
    """Dyadic values, so that norms and comparisons are exact."""
    pool = [0., .25, .5, 1., 2., 3., 4., 8., -.5, -1., -4.]
    out = []
    for k in range(n):
        style = rng.random()
        if out and style < .25:
            e = dict(out[rng.randrange(len(out))])
        elif out and style < .5:
            f = rng.choice([.5, .25, 0., 1.])
            e = {a: [f * x for x in v] if isinstance(v, list) else f * v for a, v in out[-1].items()}
        else:
            e = {"t": [rng.choice(pool) for _ in range(size)], "tg": [rng.choice(pool) for _ in range(size)],
                 "l": abs(rng.choice(pool)), "lg": rng.choice(pool)}
        if wild and rng.random() < .1:
            e = dict(e)
            e[rng.choice(["tg", "lg"])] = None
            for a in ("tg", "lg"):
                if e[a] is None:
                    bad = rng.choice([math.inf, math.nan])
                    e[a] = bad if a == "lg" else [bad] + [1.] * (size - 1)
        out.append(e)
    return out


def put(dual, e):
    """Give the loss the scripted parameters and gradients."""
    flat, grad = iter(e["t"] * 8), iter(e["tg"] * 8)
    with pt.no_grad():
        for p in dual.primal_loss.parameters():
            n = p.numel()
            p.copy_(pt.tensor([next(flat) for _ in range(n)], dtype=p.dtype).view_as(p))
            p.grad = pt.tensor([next(grad) for _ in range(n)], dtype=p.dtype).view_as(p)
        zoo.lam_param(dual).fill_(e["l"])
        zoo.lam_param(dual).grad = pt.full_like(zoo.lam_param(dual), e["lg"])


def seen(dual):
    ps = list(dual.primal_loss.parameters())
    f = lambda ts: np.concatenate([t.detach().numpy().ravel().astype(float) for t in ts])
    return (f(ps), f([p.grad for p in ps]) if all(p.grad is not None for p in ps) else [0.],
            [float(dual.lam)], [0. if zoo.lam_param(dual).grad is None else float(zoo.lam_param(dual).grad)])


class Scripted(pt.optim.Optimizer):
    def __init__(self, dual, script, at=None):
        super().__init__(list(dual.parameters()), {})
        self.dual, self.script, self.k, self.trace, self.at = [dual], script, 0, [], at or {}

    def step(self, closure=None):
        v = closure() if closure is not None else None
        e = self.script[self.k]
        put(self.dual[0], e)
        self.trace.append(seen(self.dual[0]))
        self.k += 1
        if self.k in self.at:
            self.at[self.k]()
        return v


class C08(Check):
    id = "C08"
    runs = {"quick": 1200, "thorough": 24000}
    rule = "a run is non-trivial when at least three decisions were compared with the reference rule"
    real = ["OptCondTorch, solve_dual_wdro, dual losses, samplers"]
    stubs = ["the optimizer (a caller's optimizer whose iterates and gradients the plan chooses)"]
    state_measure = "distinct (condition, shape of the history, iterations at which solves stopped)"
    assumptions = ["values are dyadic so that 1- and max-norms are exact; a 2-norm within 1e-5 of the bound may go either way"]

    def gen(self, rng, tier):
        size = rng.choice([1, 2, 3])
        s = {"kind": "mse", "d": size, "mode": "post", "rho": rng.choice([.1, 1.]), "n_samples": 2, "seed": 0, "adapt": None,
             "reduction": None, "imp_samp": rng.random() < .3, "l2": None, "init": 1, "n_iter": 5, "cost": None,
             "net": {"hidden": 0, "bias": rng.random() < .5}}
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            n = rng.choice([3, 5, 8] if tier == "quick" else [5, 9, 16])
            k = rng.choice(["calls", "solve", "solve", "real"])
            o = {"op": k, "n": n, "which": rng.randrange(2), "rho": s["rho"]}
            o["script"] = gen_script(rng, 2 * n + 4, size + 1, wild=k == "calls")
            o["pre"] = rng.choice([0, 1, 3])
            o["tuple"] = rng.random() < .6
            o["mode"] = rng.choice(["post", "post", "pre"])
            o["reset"] = rng.random() < .5
            o["start"] = rng.choice([0, 0, 2])
            if k == "solve":
                o["inside"] = rng.choice([0, 0, 1, 2])
                o["error"] = rng.choice([0, 0, 0, 2])
            ops.append(o)
        return {"loss": s, "conds": [gen_cond(rng), gen_cond(rng)], "ops": ops}

    def run(self, plan, ctx):
        conds = [zoo.make_opt(c) for c in plan["conds"]]
        kept = {}  # duals and rules of conditions called by hand
        shape, compared = [], 0
        base = plan["loss"]

        def build(o):
            n = o["n"]
            u = User(dict(base, mode=o["mode"], n_iter=[o["pre"], n] if o["tuple"] else n, n_samples=2))
            pre = o["pre"] if o["tuple"] else int(.3 * n)
            return u, pre, n

        def solve(o, cond, rule, depth=0):
            """Steps made by one solve and what the rule says."""
            u, pre, n = build(o)
            at = {}
            if depth == 0 and o.get("inside"):
                # another solve with the same condition in the middle of this one
                at[pre + o["inside"]] = lambda: solve(dict(o, script=o["script"][::-1], inside=0, error=0), cond, Rule(rule.o), 1)
            if o.get("error"):
                def fail():
                    raise RuntimeError("injected")
                at[pre + o["error"]] = fail
            u.dual.optimizer = opt = Scripted(u.dual, o["script"], at)
            x, y = u.batch(1, 3)
            st, v = attempt(lambda: u.solve(x, y, cond))
            made = opt.k
            if st != "ok":
                if o.get("error") and made == pre + o["error"] and v == "RuntimeError":
                    ctx.fault("error")
                    expected = None
                else:
                    raise Violation("raises", f"solve raised {v} after {made} steps")
            want = None
            for i in range(n):
                if pre + i >= made:
                    break
                d = rule(*opt.trace[pre + i])
                if d is None:
                    return made  # rounding decides
                if d:
                    want = pre + i + 1
                    break
            if st != "ok":
                if want is not None and want < made:
                    raise Violation("late", f"the rule is met after robust step {want - pre}, the solve went on")
                return made
            want = pre + n if want is None else want
            if made != want:
                raise Violation("stop", f"the solve made {made - pre} robust steps instead of {want - pre} "
                                        f"({rule.o}, {pre} warm-up steps, {'nested' if depth else 'outer'})")
            return made

        for o in plan["ops"]:
            c, spec = conds[o["which"]], plan["conds"][o["which"]]
            ctx.step()
            if o["op"] == "solve" and not (o["mode"] == "pre" and spec["metric"] == "grad"):
                made = solve(o, c, Rule(spec))
                compared += made
                shape.append(("solve", made, o["which"], o.get("inside"), o.get("error")))
                continue
            if o["op"] in ("real", "solve"):
                # built-in optimizer; the condition's observations are recorded where it is called
                compared += self.observed(o, spec, build, ctx, shape)
                continue
            key = o["which"]
            if key not in kept or o["reset"]:
                c.reset()
                kept[key] = (User(dict(base, n_iter=o["n"])), Rule(spec))
            u, rule = kept[key]
            u.dual.n_iter = o["n"] if not o["tuple"] else (o["pre"], o["n"])
            for i, e in enumerate(o["script"][:o["n"] + 2]):
                put(u.dual, e)
                it = o["start"] + i
                st, got = attempt(lambda: bool(c(u.dual, it)))
                if st != "ok":
                    raise Violation("raises", f"the condition raised {got}")
                want = rule(*seen(u.dual))
                limit = o["n"] > 0 and it >= o["n"]
                if want is None and not limit:
                    continue
                want = bool(want) or limit
                compared += 1
                if got != want:
                    raise Violation("decision", f"call {i} (iteration {it}): {got} instead of {want} ({spec}, limit {o['n']})")
                ctx.event("call", got)
            shape.append(("calls", o["which"], o["reset"]))
        ctx.state(str(plan["conds"]), shape)
        ctx.nontrivial = compared >= 3

    def observed(self, o, spec, build, ctx, shape):
        from skwdro.solvers.optim_cond import OptCondTorch
        u, pre, n = build(dict(o, mode=o["mode"]))
        log = []

        class Recorder(OptCondTorch):
            def __call__(self, dual_loss, it_number):
                s = seen(dual_loss)
                r = super().__call__(dual_loss, it_number)
                log.append((s, bool(r)))
                return r
        kw = dict(spec)
        cond = Recorder(kw.pop("order"), **kw)
        x, y = u.batch(1, 3)
        st, v = attempt(lambda: u.solve(x, y, cond))
        if st != "ok":
            raise Violation("raises", f"solve raised {v}")
        if any(not np.all(np.isfinite(a)) for s, _ in log for a in s):
            return 0
        rule, want = Rule(spec), None
        for i, (s, got) in enumerate(log):
            d = rule(*s)
            if d is None:
                return i
            if d != got and i < n:
                raise Violation("decision", f"robust step {i + 1}: {got} instead of {d} ({spec})")
            if d:
                want = i + 1
                break
        want = n if want is None else want
        if len(log) != want and not (want == n and len(log) == n - 1):
            raise Violation("stop", f"the solve consulted its condition {len(log)} times instead of {want}")
        shape.append(("real", want))
        ctx.event("real", want)
        return len(log)


CHECK = C08()
