"""C06: the value of the robust loss is the dual objective of the batch just given."""
import math

import numpy as np
import torch as pt

from checks.c01 import disturb
from sim import zoo
from sim.core import Check, Violation
from sim.objective import objective
from sim.robust import User, gen_fault, gen_user


def make_sampler(user, ctx, seed):
    """A sampler of the caller: draws chosen by the plan, densities known."""
    from skwdro.base.samplers.torch.base_samplers import BaseSampler

    class Simulated(BaseSampler):
        def __init__(self, x, y):
            super().__init__(None)
            self.rng, self.sd = np.random.RandomState(seed), .3
            self.reset_mean(x, y)

        def reset_mean(self, xi, xi_labels):
            self.x, self.y = xi.detach().clone(), None if xi_labels is None else xi_labels.detach().clone()

        @property
        def produces_labels(self):
            return self.y is not None

        def draw(self, n, c):
            return c.unsqueeze(0) + self.sd * pt.tensor(self.rng.randn(n, *c.shape), dtype=c.dtype)

        def sample(self, n_samples):
            return self.draw(n_samples, self.x), None if self.y is None else self.draw(n_samples, self.y)

        def lp(self, x, y, z, zl):
            v = -((z - x) ** 2).sum(-1, keepdim=True) / (2 * self.sd ** 2)
            return v if y is None else v - ((zl - y) ** 2).sum(-1, keepdim=True) / (2 * self.sd ** 2)

        def log_prob(self, zeta, zeta_labels):
            return self.lp(self.x, self.y, zeta, zeta_labels)

        def log_prob_recentered(self, xi, xi_labels, zeta, zeta_labels):
            return self.lp(xi, xi_labels, zeta, zeta_labels)
    return Simulated(*user.batch(user.spec["init"] + 1, user.n0))


class Draws:
    """Records what the samplers draw."""

    def __init__(self):
        from skwdro.base.samplers.torch import base_samplers as b
        self.last, self.count = None, 0
        for c in (b.NoLabelsSampler, b.LabeledSampler):
            c.sample = self.wrap(c.sample)

    def wrap(self, fn):
        def sample(s, *a, **k):
            out = fn(s, *a, **k)
            self.note(out)
            return out
        return sample

    def note(self, out):
        self.last = tuple(None if t is None else t.detach().clone() for t in out)
        self.count += 1


def gauss_ratio(spec, sim, x, y, sigma):
    """log p(z | x) - log p(z | x*) of the library's and of the simulated samplers."""
    from sim.objective import decode
    kind, _, _, kappa = decode(spec["cost"], y is not None)
    dirac = y is not None and not sim and (kind == "NC" or math.isinf(kappa))
    sx = .3 if sim else sigma
    x = x.double()
    y = None if y is None else y.double()

    def ratio(z, zl, xs, ys):
        v = (((z - xs) ** 2).sum(-1) - ((z - x) ** 2).sum(-1)) / (2 * sx ** 2)
        if y is not None and not dirac:
            v = v + (((zl - ys) ** 2).sum(-1) - ((zl - y) ** 2).sum(-1)) / (2 * sx ** 2)
        return v
    return ratio


class C06(Check):
    id = "C06"
    runs = {"quick": 1800, "thorough": 40000}
    rule = ("a run is non-trivial when at least two evaluations with different batches, parameters or settings were compared "
            "with the reference objective")
    real = ["robustify, dual losses, costs, wrappers, samplers, optimizers", "torch"]
    stubs = ["user's model and loss (real torch modules behind a call counter that can fail)",
             "in half of the runs the sampler (a caller's sampler whose draws the plan chooses and whose density is known)"]
    state_measure = "distinct (loss settings, history of operations) pairs"
    assumptions = ["reference in float64 on the recorded draws; tolerance 2e-5 of the largest term (float32 rounding)",
                   "gradients compared only where the exponents stay below 1e3",
                   "the library's labelled samplers leave the density ratio out: known finding, both values accepted there only"]

    def gen(self, rng, tier):
        s = gen_user(rng)
        s["l2"] = rng.choice([None, .2, 1.])
        if s["rho"] == .01 and rng.random() < .7:
            s["epsilon"] = rng.choice([.05, .3, 1.])
        if s["kind"] not in ("bce", "ce", "free") and rng.random() < .15:
            s["cost"] = rng.choice(["t-NC-2-2", "t-NLC-1-inf-2.0", "t-NLC-2-2-0.0" if s["mode"] == "pre" else "t-NLC-2-2-2.0"])
        if s["kind"] == "free" and rng.random() < .2:
            s["cost"] = "t-NC-1-inf"
        s["sim_sampler"] = rng.random() < .5
        ops = []
        for _ in range(rng.choice([2, 4, 6] if tier == "quick" else [4, 8, 14])):
            o = {"op": rng.choice(["eval"] * 6 + ["step", "step", "rho", "epsilon", "n_samples", "lam", "mode", "init", "fail",
                                                  "seed", "imp", "theta", "solve", "flag"]),
                 "batch": rng.randrange(1000), "n": rng.choice([1, 2, 3, 5, 8]), "value": rng.choice([.05, .3, 1., 2.5]),
                 "pick": rng.randrange(1000)}
            o["stored"] = rng.random() < .35
            o["buffer"] = rng.random() < .25
            o["recentre"] = rng.random() < .85
            if o["op"] == "fail":
                o["fault"] = gen_fault(rng)
            if o["op"] == "solve":
                o["opt"] = zoo.gen_opt(rng)
            if o["op"] == "seed":
                o.update(which=rng.choice(["torch", "all"]))
            ops.append(o)
        return {"loss": s, "ops": ops, "sampler_seed": rng.randrange(10**6)}

    def run(self, plan, ctx):
        s = plan["loss"]
        draws = Draws()
        u = User(s, ctx)
        d = u.dual
        pre = s["mode"] == "pre"
        if s["sim_sampler"]:
            smp = make_sampler(u, ctx, plan["sampler_seed"])
            smp.sample = (lambda fn: lambda n: (lambda o: (draws.note(o), o)[1])(fn(n)))(smp.sample)
            d.sampler = smp
        sigma = s.get("sigma", s["rho"] * .5 if s["rho"] > 0 else .5)
        last, compared, hist = None, set(), []
        centre = zoo.make_batch(s, s["init"] + 1, u.n0)
        stored = None
        inner = u.model.inner
        buffers = {}

        def settings():
            return {"radius": float(d.rho), "epsilon": float(d.epsilon), "reduction": d.reduction, "importance sampling": bool(d.imp_samp),
                    "number of samples": d.n_samples, "plain-risk mode": bool(d.erm_mode), "steps": str(d.n_iter)}

        def kept(before, what, *but):
            for name, v in settings().items():
                if v != before[name] and name not in but:
                    raise Violation("setting", f"{what} changed the {name} from {before[name]} to {v}")
        for o in plan["ops"] + [{"op": "eval", "batch": 1, "n": 3, "stored": False, "recentre": True, "pick": 0}]:
            ctx.step()
            k = o["op"]
            hist.append(k)
            if k in ("rho", "epsilon", "lam"):
                with pt.no_grad():
                    if k == "rho" and s["rho"] == 0.:
                        continue
                    if k == "lam":
                        zoo.lam_param(d).fill_(0. if o["pick"] % 5 == 0 else o["value"])
                    else:
                        # switching the radius off in the middle of a history
                        getattr(d, k).fill_(0. if k == "rho" and o["pick"] % 4 == 0 and not pre else o["value"])
                continue
            if k == "n_samples":
                d.n_samples = 1 + o["pick"] % 6
                continue
            if k == "mode":
                (d.eval if o["pick"] % 3 == 0 else d.train)()
                continue
            if k == "flag":
                d.erm_mode = o["pick"] % 2 == 0
                continue
            if k == "imp":
                d.imp_samp = s["imp_samp"] and o["pick"] % 2 == 0 and s["cost"] in (
                    None, "t-NLC-2-2", "t-NLC-2-2-5.0", "t-NLC-2-2-inf", "t-NC-2-2")
                continue
            if k == "seed":
                disturb({"op": "seed", "which": o["which"], "value": o["pick"]})
                continue
            if k == "theta":
                with pt.no_grad():
                    for i, p in enumerate(u.model.parameters()):
                        p.add_(.3 * math.sin(o["pick"] + i))
                continue
            free = pre and not d.imp_samp
            had = settings()
            x, y = zoo.make_batch(s, o["batch"], o["n"]) if free else u.batch(o["batch"], o["n"])
            if o.get("buffer") and not pre:
                # the caller's loader writes every batch of a size to the same memory
                x = self.loaded(buffers, ("x", len(x)), x)
                y = self.loaded(buffers, ("y", len(x)), y)
            if k == "fail":
                u.with_fault(o["fault"], lambda: u.evaluate(x, y))
                last = stored = None
                if not pre:
                    centre = None
                kept(had, "a failed evaluation")
                continue
            if k == "solve":
                xs, ys = u.batch(o["batch"], o["n"])
                zoo.attempt_dict(lambda: u.solve(xs, ys, o["opt"]) and {})
                last = stored = centre = None
                kept(had, "a solve", "plain-risk mode", *(["radius", "epsilon"] if pre else []))
                continue
            if k == "init":
                if d.rho > 0:
                    zoo.attempt_dict(lambda: {"a": u.init(x, y)})
                kept(had, "an initialisation")
                continue
            if not all(bool(p.isfinite().all()) for p in d.parameters()):
                return
            if k == "step":
                zoo.attempt_dict(lambda: {"a": u.step(x, y)})
                last, centre = (x, y), (x, y)
                stored = None
                kept(had, "a step", *(["radius", "epsilon"] if pre else []))
                continue
            # ------------------------------------------------- evaluation
            kw = {}
            if pre:
                if o["stored"] and stored is not None:
                    x, y, z, zl = stored
                    call = lambda: d(x, y)
                else:
                    g = np.random.RandomState(o["pick"])
                    n = 1 + o["pick"] % 5
                    z = x.unsqueeze(0) + .4 * pt.tensor(g.randn(n, *x.shape), dtype=x.dtype)
                    zl = None if y is None else y.unsqueeze(0) + (0. if s["cost"] is None or d.imp_samp and not s["sim_sampler"] else
                                                                  .2) * pt.tensor(g.randn(n, *y.shape), dtype=y.dtype)
                    call = lambda: d(x, y, z, zl)
                    stored = (x, y, z, zl)
            else:
                if o["stored"] and last is not None:
                    x, y = last  # the same batch again (if the loader has not replaced it)
                if not o["recentre"] and not d.imp_samp and centre is not None and len(centre[0]) == len(x):
                    kw["reset_sampler"] = False
                call = lambda: d(x, y, **kw)
                before = draws.count
            d.optimizer.zero_grad()
            for p in d.parameters():
                p.grad = None
            try:
                v = call()
                v.sum().backward()
            except Exception as e:
                raise Violation("raises", f"evaluation raises {type(e).__name__}: {e}")
            kept(had, "an evaluation")
            rho, eps, lam = float(d.rho), float(d.epsilon), float(d.lam)
            erm = bool(d.erm_mode)
            if not pre:
                if rho > 0 and not erm:
                    if draws.count == before:
                        raise Violation("no-draw", f"evaluation without drawing samples for its batch (sampler centred elsewhere)")
                    z, zl = draws.last
                    n = d.n_samples
                    if tuple(z.shape) != (n, *x.shape):
                        raise Violation("stale", f"samples of shape {tuple(z.shape)} for a batch {tuple(x.shape)} and n_samples={n}")
                else:
                    z = zl = None
                if "reset_sampler" not in kw:
                    centre = (x, y)
            # the draws must belong to the batch: they are a few deviations away from it
            if not pre and z is not None and "reset_sampler" not in kw and s["cost"] not in ("t-NLC-1-1-1.0", "t-NC-1-1"):
                sd = .3 if s["sim_sampler"] else sigma
                if float((z - x).abs().max()) > 12 * sd:
                    raise Violation("stale", f"samples {float((z - x).abs().max()):.3g} away from their batch (deviation {sd})")
                chi = float((((z - x) / sd) ** 2).sum())
                if not d.imp_samp and chi > z.numel() + 10 * math.sqrt(2 * z.numel()) + 40:
                    raise Violation("stale", f"samples not around their batch (deviation {sd}): squared distance {chi:.3g} of {z.numel()} draws")
            compared.add((o["batch"], o["n"], round(lam, 6), rho))
            imp = bool(d.imp_samp) and rho > 0 and not erm
            args = dict(lam=lam, rho=rho, eps=eps, erm=erm, reduction=s["reduction"], grads=True)
            known = imp and y is not None and not s["sim_sampler"]
            ratio = gauss_ratio(s, s["sim_sampler"], x, y, sigma)
            alts = [("", imp, ratio)]
            if known:
                alts.append(("known", imp, None))
            first = None
            for name, i, r in alts:
                ref = objective(s, inner, x, y, z, zl, imp_samp=i, ratio=r, **args)
                msg = self.compare(s, u, v, ref)
                if msg and ref["degenerate"]:
                    msg = self.compare(s, u, v, objective(s, inner, x, y, z, zl, imp_samp=False, **args))
                if msg is None:
                    if name:
                        ctx.known_finding("labelled-ratio", "importance sampling with labels leaves the density ratio out")
                    break
                first = first or msg
            else:
                raise Violation("value", f"{k} (radius {rho:.4g}, multiplier {lam:.4g}, epsilon {eps:.4g}, erm {erm}, "
                                         f"importance sampling {imp}): {first}")
            if not pre:
                last = (x, y)
            ctx.event("value", zoo.arr(v).tolist())
        ctx.state(str(sorted((k, str(v)) for k, v in s.items() if k not in ("init", "seed"))), hist)
        ctx.nontrivial = len(compared) >= 2

    def loaded(self, buffers, key, t):
        if t is None:
            return None
        b = buffers.setdefault(key, t.clone())
        b.copy_(t)
        return b

    def compare(self, s, u, v, ref):
        got = zoo.arr(v).astype(float)
        want = ref["value"]
        if got.shape != want.shape and got.size == want.size == 1:
            got = got.reshape(want.shape)
        if got.shape != want.shape:
            return f"shape {got.shape} instead of {want.shape}"
        tol = 2e-5 * max(ref["scale"], 1e-2) + 1e-5 * np.abs(want)
        if ref.get("far", 0) > 1e4:
            tol = tol * 20
        if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e30:
            return None
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            return f"value {zoo.show(got)} instead of {zoo.show(want)}"
        if ref["big"] < 1e3 and ref.get("far", 0) < 1e3:
            names = [zoo.lam_param(u.dual)] + list(u.model.inner.parameters())
            for i, (p, g) in enumerate(zip(names, ref["grads"])):
                if not p.requires_grad or g is None:
                    continue
                q = np.zeros_like(g) if p.grad is None else zoo.arr(p.grad).astype(float)
                q = q.reshape(g.shape)
                t = 2e-3 * max(float(np.abs(g).max()), 1e-2) + 1e-4 * ref["scale"]
                if not np.all(np.abs(q - g) <= t):
                    return f"gradient {'of the multiplier' if i == 0 else 'of a parameter'} {zoo.show(q)} instead of {zoo.show(g)}"
        return None


CHECK = C06()
