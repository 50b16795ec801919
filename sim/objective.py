"""Reference dual objective, in float64, written from its definition."""
import copy
import math

import numpy as np
import torch as pt

from sim import zoo


def primal(spec, model, loss_l2, x, y):
    """Loss of every sample, l2 penalty included; x (..., d)."""
    shape = x.shape[:-1]
    f = model(x.reshape(-1, x.shape[-1]))
    t = None if y is None else y.reshape(-1, y.shape[-1])
    k = spec["kind"]
    if k == "mse":
        v = ((f - t) ** 2).mean(-1)
    elif k == "fun":
        v = (f - t).abs().mean(-1)
    elif k == "bce":
        v = pt.nn.functional.softplus(-t * f).mean(-1)
    elif k == "ce":
        v = -(t * pt.log_softmax(f, -1)).sum(-1)
    elif k == "free":
        v = (pt.nn.functional.softplus(f) + .1 * f * f).mean(-1)
    else:
        raise ValueError(k)
    if loss_l2:
        v = v + .5 * loss_l2 * sum((p * p).sum() for p in model.parameters())
    return v.reshape(shape)


def norm(v, t):
    if t == 2:
        return (v * v).sum(-1).sqrt()
    if t == 1:
        return v.abs().sum(-1)
    if t == math.inf:
        return v.abs().amax(-1)
    raise ValueError(t)


def decode(cost, labels):
    if cost is None:
        return ("NLC" if labels else "NC"), 2., 2., 1e8
    p = cost.split("-")
    return p[1], float(p[2]), float(p[3]), float(p[4]) if len(p) > 4 else 1e8


def ground_cost(cost, labels, x, y, z, zl):
    kind, power, t, kappa = decode(cost, labels)
    if kind == "NC":
        return norm(x - z, t) ** power
    if math.isinf(kappa):
        return norm(y - zl, t) ** power
    if kappa == 0.:
        return norm(x - z, t) ** power
    return ((norm(x - z, t) + kappa * norm(y - zl, t)) / (1. + kappa)) ** power


def double(model):
    m = copy.deepcopy(model).double().eval()
    for p in m.parameters():
        p.grad = None
        p.requires_grad_(True)
    return m


def objective(spec, inner, x, y, z, zl, lam, rho, eps, imp_samp, ratio=None, erm=False, reduction=None, grads=False):
    """Value (and gradients) of the dual objective, with the scale of its
    largest term and whether the displacement was degenerate.

    ``ratio(z, zl, x*, y*)`` is the log density ratio of displaced samples."""
    m = double(inner)
    f8 = lambda t: None if t is None else t.detach().double()
    x, y, z, zl = map(f8, (x, y, z, zl))
    red = {None: lambda v: v.mean(), "mean": lambda v: v.mean(), "sum": lambda v: v.sum(), "none": lambda v: v}[reduction]
    L = pt.tensor(float(lam), dtype=pt.float64, requires_grad=True)
    info = {"degenerate": False, "displaced": False, "big": 0.}
    if rho == 0. or erm:
        r = primal(spec, m, spec["l2"], x, y)
        v = rho * L + red(r)
        info["scale"] = float(r.detach().abs().max()) * (len(x) if reduction == "sum" else 1)
    else:
        kind, power, t, kappa = decode(spec["cost"], y is not None)
        corr = 0.
        if imp_samp:
            xs, ys = x.clone().requires_grad_(True), None if y is None else y.clone().requires_grad_(True)
            g = pt.autograd.grad(primal(spec, m, spec["l2"], xs, ys).sum(), [xs] + ([] if ys is None else [ys]))
            nrm = [u.norm(dim=-1) for u in g]
            # null gradients have no direction: the library may or may not displace then
            info["degenerate"] = any(bool((n < 1e-9).any()) for n in nrm) and lam != 0.
            with np.errstate(all="ignore"):
                d = [u / lam if lam != 0. else u * math.inf for u in g]
            if all(bool(u.isfinite().all()) for u in d) and float(max(u.abs().max() for u in d)) < 1e38:
                info["displaced"] = True
                info["far"] = max(float(u.abs().max()) for u in d)
                dx = .5 * d[0]
                dy = 0. if y is None or kind == "NC" else .5 * d[1] / kappa
                z, xs = z + dx, x + dx
                if y is not None:
                    zl, ys = zl + dy, y + dy
                if ratio is not None:
                    corr = ratio(z, zl, xs, ys).detach()
        l = primal(spec, m, spec["l2"], z, zl)
        c = ground_cost(spec["cost"], y is not None, x, y, z, zl)
        e = (l - L * c) / eps + corr
        n = z.shape[0]
        inner_ = pt.logsumexp(e, 0) - math.log(n)
        v = L * rho ** power + eps * red(inner_)
        big = max(float(l.detach().abs().max()) / eps, float((L * c).detach().abs().max()) / eps,
                  float(corr.abs().max()) if isinstance(corr, pt.Tensor) else 0.)
        info["big"] = big
        info["scale"] = eps * big * (len(x) if reduction == "sum" else 1) + abs(float(lam)) * rho ** power
    info["value"] = v.detach().numpy()
    if grads:
        ps = list(m.parameters())
        gs = pt.autograd.grad(v.sum(), [L] + ps, allow_unused=True)
        info["grads"] = [None if g is None else g.numpy() for g in gs]
    return info
