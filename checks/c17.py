"""C17: a re-centred sampler behaves as one newly built at the new centre."""
import math

import numpy as np
import torch as pt

from sim import zoo
from sim.core import Check, Violation
from sim.faults import LineFaults, OpFaults, attempt

COSTS = {"free": ["t-NC-2-2", "t-NC-1-2", "t-NC-1-1", "t-NC-1-inf"],
         "labelled": ["t-NLC-2-2", "t-NLC-2-2-5.0", "t-NLC-1-2-2.0", "t-NLC-1-1-1.0", "t-NLC-1-1-3.0", "t-NLC-2-2-inf", "t-NC-2-2"]}
KINDS = ["free", "free", "labelled", "labelled", "news", "port", "laplace", "normal_normal", "normal_id", "normal_flip"]


def gen_centre(rng, s, n=None):
    c = {"seed": rng.randrange(10**6), "n": n or rng.choice([1, 2, 3, 6]), "scale": rng.choice([1., 1., 30., 0.])}
    if rng.random() < .1:
        c["spread"] = True
    r = rng.random()
    if r < .15:
        c["near"] = rng.choice([1e-3, 1e-2])
    elif r < .3:
        c["buffer"] = True
    return c


def make_centre(s, c):
    g = np.random.RandomState(c["seed"])
    dt = pt.float64 if s["f64"] else pt.float32
    x = pt.tensor(c["scale"] * g.randn(c["n"], s["d"]), dtype=dt)
    if c.get("spread"):
        x = x[:1].expand(c["n"], s["d"])
    if s["kind"] in ("free", "news", "port", "laplace"):
        return x, None
    y = g.randn(c["n"], s["dl"])
    if s["kind"] in ("normal_id", "normal_flip"):
        y = np.where(y < 0., -1., 1.)
    return x, pt.tensor(y, dtype=dt)


def covariance(s, d, seed):
    g = np.random.RandomState(seed)
    L = np.tril(.3 * g.randn(d, d)) + np.diag(.5 + g.rand(d))
    return L


def make(s, x, y):
    import skwdro.base.samplers.torch as sm
    from skwdro.base.cost_decoder import cost_from_str
    dt = pt.float64 if s["f64"] else pt.float32
    k = s["kind"]
    sigma = pt.tensor(s["sigma"], dtype=dt) if s["sigma_tensor"] else s["sigma"]
    if k == "free":
        return sm.NoLabelsCostSampler(cost_from_str(s["cost"]), x, sigma, s["seed"])
    if k == "labelled":
        return sm.LabeledCostSampler(cost_from_str(s["cost"]), x, y, sigma, s["seed"])

    def covar(prefix, d, how, seed):
        if how == "sigma":
            # (the identity the library builds is of the default type)
            return {prefix + "sigma": sigma}
        L = pt.tensor(covariance(s, d, seed), dtype=dt)
        return {prefix + how: {"tril": L, "cov": L @ L.T, "prec": pt.linalg.inv(L @ L.T)}[how]}
    kw = covar("", s["d"], s["how"], 3)
    if k in ("news", "port", "laplace"):
        return {"news": sm.NewsVendorNormalSampler, "port": sm.PortfolioNormalSampler,
                "laplace": sm.PortfolioLaplaceSampler}[k](x, seed=s["seed"], **kw)
    if k == "normal_normal":
        kw.update(covar("l_", s["dl"], s["lhow"], 4))
        return sm.ClassificationNormalNormalSampler(x, y, seed=s["seed"], **kw)
    if k == "normal_id":
        return sm.ClassificationNormalIdSampler(x, y, seed=s["seed"], **kw)
    return sm.ClassificationNormalBernouilliSampler(s["p"], x, y, seed=s["seed"], **kw)


def log_density(s, x, y, z, zl):
    """Log-density of the noise described by the settings, in float64; None when
    the labels carry no density."""
    x, z = x.double().numpy(), z.double().numpy()
    sig = s["sigma"]

    def part(c, v, how, cost, seed, sig):
        u = v - c
        if how == "laplace":
            return (-np.abs(u) / sig - math.log(2 * sig)).sum(-1, keepdims=True)
        L = sig * np.eye(c.shape[-1]) if how in ("sigma", "normal") else covariance(s, c.shape[-1], seed)
        w = np.linalg.solve(L, u.reshape(-1, c.shape[-1]).T).T.reshape(u.shape)
        return (-.5 * (w * w).sum(-1, keepdims=True) - np.log(np.diag(L)).sum() - .5 * c.shape[-1] * math.log(2 * math.pi))

    k = s["kind"]
    if k in ("free", "labelled"):
        f = s["cost"].split("-")
        how = "laplace" if f[2:4] == ["1", "1"] else "normal"
        out = part(x, z, how, f, 0, sig)
        if k == "labelled":
            kappa = float(f[4]) if len(f) > 4 else None
            if f[1] == "NC" or kappa == math.inf or kappa is None:
                return None
            out = out + part(y.double().numpy(), zl.double().numpy(), how, f, 0, sig / kappa if f[2] == "1" else sig)
        return out
    out = part(x, z, s["how"], None, 3, sig)
    if k == "normal_normal":
        return out + part(y.double().numpy(), zl.double().numpy(), s["lhow"], None, 4, sig)
    return out if k in ("news", "port", "laplace") else None


class C17(Check):
    id = "C17"
    runs = {"quick": 1800, "thorough": 30000}
    rule = "a run is non-trivial when draws or densities were compared after at least one re-centring"
    real = ["all the samplers of the library, the transport costs that describe them, torch.distributions, torch's generator"]
    stubs = ["none (errors enter at statements of the samplers, in tensor operations and as centres that are refused)"]
    state_measure = "distinct (sampler, cost or covariance, sequence of operations and outcomes, batch sizes)"
    assumptions = ["a sampler is not used between an interrupted re-centring and the next complete one",
                   "densities of labels without density (point masses, flips) are compared with new samplers only",
                   "numbers compared with rtol 1e-3, atol 1e-4 (single precision)"]

    def gen(self, rng, tier):
        s = {"kind": rng.choice(KINDS), "d": rng.choice([1, 2, 3]), "dl": rng.choice([1, 1, 2]), "seed": rng.choice([0, 3, 42, 42, None]),
             "sigma": rng.choice([.05, .5, 1., 2.]), "sigma_tensor": rng.random() < .3, "how": rng.choice(["sigma", "sigma", "tril", "cov", "prec"]),
             "lhow": rng.choice(["sigma", "tril", "cov", "prec"]), "p": rng.choice([.1, .5, .9]), "f64": rng.random() < .2}
        if s["f64"] and s["kind"] not in ("free", "labelled"):
            s["how"] = s["lhow"] = "tril"
        if s["kind"] in COSTS:
            s["cost"] = rng.choice(COSTS[s["kind"]])
        ops = []
        for _ in range(rng.choice([3, 5, 7] if tier == "quick" else [4, 8, 14])):
            k = rng.choice(["move"] * 6 + ["draw"] * 5 + ["density"] * 4 + ["around"] * 3 + ["noise", "bad"])
            op = {"op": k, "centre": gen_centre(rng, s), "n": rng.choice([1, 2, 5]), "ambient": rng.randrange(10**6)}
            if k in ("move", "draw", "density", "around") and rng.random() < .25:
                op["fault"] = [rng.choice(["op", "line"]), 1 + rng.randrange(14), rng.choice(["error", "interrupt", "memory"])]
            if k == "bad":
                op["how"] = rng.choice(["nan", "type", "shape", "none"])
            if k == "draw" and rng.random() < .2:
                op["next"] = True
            ops.append(op)
        return {"sampler": s, "centre": gen_centre(rng, s), "ops": ops}

    def run(self, plan, ctx):
        s = plan["sampler"]
        centre = make_centre(s, plan["centre"])
        pt.manual_seed(1)
        live = make(s, *centre)
        drawn = 0             # draws since the last re-centring, in order
        moves = compared = 0
        hist = []
        usable = True
        buffers = {}
        for n, op in enumerate(plan["ops"]):
            ctx.step()
            k = op["op"]
            if not usable and k not in ("move", "bad", "noise"):
                continue
            if k == "noise":
                pt.randn(1 + op["n"])
                drawn = None  # (the stream was disturbed: seeded draws follow the next re-centring)
                continue
            c2 = make_centre(s, op["centre"])
            if k == "move" and "near" in op["centre"] and usable:
                # a little further than the last one
                e = op["centre"]["near"]
                c2 = (centre[0] + e, centre[1] if centre[1] is None or s["kind"] in ("normal_id", "normal_flip") else centre[1] + e)
            elif k == "move" and op["centre"].get("buffer") and not op["centre"].get("spread"):
                # the caller writes centres of a size to the same memory
                c2 = tuple(None if t is None else buffers.setdefault((i, len(t)), t.clone()).copy_(t) for i, t in enumerate(c2))
            where = f"operation {n} ({k})"
            if k == "bad":
                x, y = c2
                x = {"nan": x * math.nan, "type": "here", "shape": pt.zeros(2, s["d"] + 1), "none": None}[op["how"]]
                st, e = attempt(lambda: live.reset_mean(x, y))
                ctx.event(n, k, st)
                hist.append((k, st))
                usable = False
                ctx.fault(f"centre refused: {op['how']}" if st != "ok" else "odd centre accepted")
                continue
            if k == "move":
                go = lambda: live.reset_mean(*c2)
            elif k == "draw":
                pt_state = None
                if drawn is None or s["seed"] is None:
                    pt.manual_seed(op["ambient"])
                    pt_state = op["ambient"]
                go = (lambda: next(live)) if op.get("next") else (lambda: live.sample(op["n"]))
            else:
                g = np.random.RandomState(op["ambient"] % 2**32)
                z, zl = self.points(s, centre, op, g)
                if k == "density":
                    go = lambda: live.log_prob(z, zl)
                else:
                    c2 = make_centre(s, dict(op["centre"], n=len(centre[0])))
                    if s["kind"] not in ("free", "news", "port", "laplace") and op["ambient"] % 2:
                        c2 = (c2[0], centre[1])
                    go = lambda: live.log_prob_recentered(c2[0], c2[1], z, zl)
            f = op.get("fault")
            if f is None:
                st, v = attempt(go)
            else:
                seam = OpFaults(f[1], f[2], ctx) if f[0] == "op" else \
                    LineFaults(lambda code: "/samplers/" in code.co_filename, f[1], f[2], ctx)
                with seam:
                    st, v = attempt(go)
            ctx.event(n, k, st)
            hist.append((k, st, op["centre"]["n"] if k == "move" else None))
            if st == "injected":
                if k == "move":
                    usable = False
                elif k == "draw":
                    drawn = None
                continue
            if k == "move":
                if st != "ok":
                    raise Violation("move", f"{where}: {st} {v}")
                centre, usable, drawn = c2, True, 0
                moves += 1
                if live.seed != s["seed"]:
                    raise Violation("seed", f"{where}: the seed became {live.seed}")
                continue
            # what a new sampler does at the last centre
            keep = pt.random.get_rng_state()
            if k == "draw":
                amount = 1 if op.get("next") else op["n"]
                new = make(s, *centre)
                if pt_state is not None:
                    pt.manual_seed(pt_state)
                else:
                    for m in ([] if not drawn else drawn):
                        new.sample(m)
                st2, w = attempt(lambda: new.sample(amount))
                if drawn is not None and pt_state is None:
                    drawn = (drawn or []) + [amount]
                else:
                    drawn = None
                self.compare(where, st, v, st2, w)
                if st == "ok":
                    self.noise(where, s, centre, v, amount, pt_state, [] if pt_state is not None else drawn[:-1])
                    if v[0].shape != (amount,) + tuple(centre[0].shape) or (v[1] is None) != (centre[1] is None) or \
                            v[1] is not None and v[1].shape != (amount,) + tuple(centre[1].shape):
                        raise Violation("shape", f"{where}: shapes {v[0].shape}, {None if v[1] is None else v[1].shape}")
            elif k == "density":
                st2, w = attempt(lambda: make(s, *centre).log_prob(z, zl))
                self.compare(where, st, v, st2, w)
                if st == "ok":
                    ref = log_density(s, *centre, z, zl)
                    self.against(where, v, ref)
            else:
                moved = make(s, *c2)
                st2, w = attempt(lambda: moved.log_prob(z, zl))
                try:
                    self.compare(where + " around another centre", st, v, st2, w)
                    if st == "ok":
                        self.against(where, v, log_density(s, *c2, z, zl))
                except Violation:
                    if s["kind"] in ("free", "news", "port", "laplace"):
                        raise
                    st3, w3 = attempt(lambda: make(s, *centre).log_prob(z, zl))
                    self.compare(where + " around another centre (labelled)", st, v, st3, w3)
                    ctx.known_finding("labelled-recentred-density", "log_prob_recentered of labelled samplers ignores the given centre")
            pt.random.set_rng_state(keep)
            compared += moves > 0
        ctx.state(s["kind"], s.get("cost"), s["how"], s["seed"] is None, hist)
        ctx.nontrivial = compared > 0

    def points(self, s, centre, op, g):
        """Points whose density is asked."""
        x, y = centre
        z = x.unsqueeze(0) + pt.tensor(s["sigma"] * g.randn(op["n"], *x.shape), dtype=x.dtype)
        if y is None:
            return z, None
        zl = y.unsqueeze(0).expand(op["n"], *y.shape).clone()
        dirac = s["kind"] == "normal_id" or s["kind"] == "labelled" and (s["cost"].endswith("inf") or s["cost"].startswith("t-NC") or s["cost"] == "t-NLC-2-2")
        if s["kind"] == "normal_flip":
            zl = zl * pt.tensor(np.where(g.rand(*zl.shape) < .5, -1., 1.), dtype=zl.dtype)
        elif not dirac or g.rand() < .3:
            zl = zl + pt.tensor(s["sigma"] * g.randn(*zl.shape), dtype=zl.dtype)
        return z, zl

    def compare(self, where, st, v, st2, w):
        def plain(x):
            return [None if t is None else t.detach().numpy() for t in (x if isinstance(x, tuple) else (x,))]
        if st != st2 or st != "ok" and v != w:
            raise Violation("outcome", f"{where}: {st} {zoo.show(v)}, of a new sampler {st2} {zoo.show(w)}")
        if st == "ok" and not zoo.close(plain(v), plain(w), 1e-3, 1e-4):
            raise Violation("differs", f"{where}: {zoo.show(plain(v))} / of a new sampler {zoo.show(plain(w))}")

    def against(self, where, v, ref):
        if ref is not None and not np.allclose(np.broadcast_to(v.detach().double().numpy(), ref.shape), ref, rtol=2e-3, atol=2e-3):
            raise Violation("density", f"{where}: {zoo.show(v.detach().numpy())} / by the formula {zoo.show(ref)}")

    def noise(self, where, s, centre, v, amount, ambient, earlier):
        """The displacements do not depend on the centre."""
        x0, y0 = pt.zeros_like(centre[0]), centre[1]
        new = make(s, x0, y0)
        if ambient is not None:
            pt.manual_seed(ambient)
        else:
            for m in earlier:
                new.sample(m)
        z = new.sample(amount)[0]
        if not zoo.close((v[0] - centre[0]).detach().numpy(), z.detach().numpy(), 1e-3, 1e-4 * (1 + float(centre[0].abs().max()))):
            raise Violation("noise", f"{where}: displacements {zoo.show((v[0] - centre[0]).detach().numpy())} / "
                            f"around zero {zoo.show(z.detach().numpy())}")


CHECK = C17()
