"""A user of the torch interface: a model, a loss that may fail, batches, and
the robust loss built from them."""
import numpy as np
import torch as pt

from sim import zoo
from sim.core import in_fork
from sim.faults import CallFaults, FaultyModule, LineFaults, OpFaults, attempt, place, poison


def gen_user(rng, **kw):
    """Loss spec plus the state the user's model is in."""
    s = zoo.gen_loss(rng, **kw)
    s["user"] = {"frozen": [rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 2]))],
                 "eval": rng.choice(["none", "none", "all", "some"]), "mode_bits": rng.randrange(256),
                 "grads": rng.random() < .4, "stale": rng.random() < .5}
    return s


def gen_fault(rng, ops=(1, 5, 20, 60, 120), value=False, lines=True):
    """Where and how a call will fail."""
    where = rng.choice(["op", "op", "line", "line", "model", "loss"] if lines else ["op", "op", "model", "loss"])
    kind = rng.choice(["error", "interrupt", "memory"])
    if value and where != "op" and rng.random() < .5:
        kind = rng.choice(["nan", "inf", "-inf", "huge"])
    at = rng.choice(ops) + rng.randrange(25) if where == "op" else rng.choice([1, 1, 2, 3])
    f = {"where": where, "at": at, "kind": kind}
    if lines and where in ("op", "line"):
        f["frac"] = rng.random()  # (of the places counted in a fault-free execution)
    return f


def counted(where, fn):
    """The outcome of fn and the places at which it could have failed."""
    with seam_of(where, None, "error", None) as c:
        out = fn()
    return out, (c.count, list(c.spots.values()))


def seam_of(where, at, kind, ctx):
    if where == "op":
        return OpFaults(at, kind, ctx)
    return LineFaults(lambda code: "/skwdro/" in code.co_filename, at, kind, ctx)


class User:
    def __init__(self, spec, ctx=None, rho=None, n0=5, freeze=True, plain=False):
        self.spec, self.ctx, self.n0 = spec, ctx, n0
        self.model_faults, self.loss_faults = CallFaults(ctx), CallFaults(ctx)
        inner, loss = zoo.make_model(spec)
        self.model = inner if plain else FaultyModule(inner, self.model_faults, "model")
        if plain:
            self.loss = loss
        elif spec["kind"] == "fun":
            def f(*a, **k):
                kind = self.loss_faults.hit("loss")
                return poison(loss(*a, **k), kind)
            self.loss = f
        else:
            self.loss = FaultyModule(loss, self.loss_faults, "loss")
            self.loss.reduction = "none"
        u = spec.get("user")
        if u:
            ps = list(self.model.parameters())
            if freeze:
                for i in u["frozen"]:
                    ps[i % len(ps)].requires_grad_(False)
                if not any(p.requires_grad for p in ps):
                    ps[0].requires_grad_(True)
        self.dual = zoo.make_loss(spec, self.model, self.loss, n0=n0, rho=rho)
        if u:
            mods = list(self.model.modules())
            if u["eval"] == "all":
                self.model.eval()
            elif u["eval"] == "some":
                for i, m in enumerate(mods):
                    m.training = bool(u["mode_bits"] >> (i % 8) & 1)
            if u["grads"]:
                g = np.random.RandomState(5)
                for p in ps:
                    if p.requires_grad or u.get("stale"):  # (frozen since)
                        p.grad = pt.tensor(g.randn(*p.shape), dtype=p.dtype)

    def eval_mode(self):
        """No part of the model depends on anything but its parameters."""
        self.model.eval()
        return self

    def batch(self, seed, n):
        """A batch of the caller; in pre-sampled mode the one the sampler is centred on."""
        if self.spec["mode"] == "pre":
            return zoo.make_batch(self.spec, self.spec["init"] + 1, self.n0)
        return zoo.make_batch(self.spec, seed, n)

    # -------------------------------------------------------------- operations
    def evaluate(self, x, y):
        if self.spec["mode"] == "pre":
            z, zl = presample(self.spec, x, y)
            return self.dual(x, y, z, zl)
        return self.dual(x, y)

    def grads(self, x, y):
        self.dual.optimizer.zero_grad()
        v = self.evaluate(x, y)
        v.sum().backward()
        return v.detach().clone()

    def step(self, x, y):
        """One training step; returns the loss value before it."""
        d = self.dual
        if self.spec["mode"] == "pre":
            z, zl = presample(self.spec, x, y)
            seen = []

            def closure():
                d.optimizer.zero_grad()
                v = d(x, y, z, zl)
                v.sum().backward()
                seen.append(v.detach().clone())
                return v.sum()
            d.optimizer.step(closure)
            return seen[0]
        v = self.grads(x, y)
        d.optimizer.step()
        return v

    def init(self, x, y):
        return self.dual.get_initial_guess_at_dual(x, y)

    def solve(self, x, y, opt):
        from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
        return solve_dual_wdro(self.dual, empirical(x, y), zoo.make_opt(opt) if isinstance(opt, dict) else opt)

    def with_fault(self, fault, fn, places=None):
        """Run fn with a fault armed; returns attempt()'s outcome and whether it fired."""
        if fault is None:
            return attempt(fn), False
        if fault["where"] in ("op", "line"):
            at = fault["at"]
            if "frac" in fault:
                if places is None:
                    places = in_fork(lambda: counted(fault["where"], lambda: attempt(lambda: fn() is None) and None)[1])
                at = place(fault["frac"], *places)
            m = seam_of(fault["where"], at, fault["kind"], self.ctx)
            with m:
                out = attempt(fn)
            return out, m.fired is not None
        f = self.model_faults if fault["where"] == "model" else self.loss_faults
        f.arm(fault["at"], fault["kind"])
        try:
            out = attempt(fn)
        finally:
            f.disarm()
        return out, f.fired

    def state(self):
        return {k: v.detach().clone().numpy() for k, v in self.dual.state_dict().items()}

    def grad_state(self):
        return {k: None if p.grad is None else p.grad.detach().clone().numpy() for k, p in self.dual.named_parameters()}


def presample(spec, x, y):
    """Adversarial samples chosen by the plan (pre-sampled mode: the caller draws)."""
    g = np.random.RandomState(spec["init"] + 77)
    z = x.detach().unsqueeze(0) + .3 * pt.tensor(g.randn(spec["n_samples"], *x.shape), dtype=x.dtype)
    zl = None if y is None else y.detach().unsqueeze(0).expand(spec["n_samples"], *y.shape).clone()
    return z, zl


def empirical(x, y):
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    if y is None:
        return EmpiricalDistributionWithoutLabels(m=len(x), samples=x.numpy())
    return EmpiricalDistributionWithLabels(m=len(x), samples_x=x.numpy(), samples_y=y.numpy())
