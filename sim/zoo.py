"""Estimators, data, models and robust losses described by JSON specs."""
import warnings

import numpy as np
import torch as pt
import torch.nn as nn

RTOL, ATOL = 1e-5, 1e-8


# ------------------------------------------------------------------------ data
def gen_data(rng, kind, n=None, d=None):
    return {"kind": kind, "seed": rng.randrange(10**6),
            "n": n or rng.choice([6, 9, 14, 20]), "d": d or rng.choice([1, 2, 3]),
            "k": rng.choice([2, 2, 2, 3]), "labels": rng.randrange(5)}


def make_data(s, dtype=np.float64):
    r = np.random.RandomState(s["seed"])
    n, d = s["n"], s["d"]
    X = r.randn(n, d).astype(dtype)
    kind = s["kind"]
    if kind == "reg":
        return X, (X @ r.randn(d) + .3 * r.randn(n)).astype(dtype)
    if kind == "clf":
        k = s.get("k", 2)
        c = np.arange(n) % k
        X = (X + 1.5 * (c[:, None] == np.arange(k)[None, :]) @ r.randn(k, d)).astype(dtype)
        names = [[-1, 1, 2], [0, 1, 2], [3, 7, 11], ["no", "yes", "maybe"], [2., 5., 9.]][s.get("labels", 0)]
        return X, np.array([names[i] for i in c])
    if kind == "weber":
        return X, (np.abs(r.randn(n)) + .1).astype(dtype)
    if kind == "news":
        return np.abs(r.randn(n, 1) * 3 + 5).astype(dtype), None
    if kind == "port":
        return (r.randn(n, d + 1) * .1 + .05).astype(dtype), None
    raise ValueError(kind)


KIND = {"linreg": "reg", "logreg": "clf", "weber": "weber", "news": "news", "port": "port"}


# ------------------------------------------------------------------ estimators
def gen_est(rng, names=("linreg", "logreg", "weber", "news", "port"), dedicated=True, small=True):
    name = rng.choice(list(names))
    solvers = {"linreg": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre"],
               "logreg": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre"],
               "weber": ["entropic_torch", "entropic_torch_post", "entropic_torch_pre"],
               "news": ["entropic_torch_post", "entropic_torch_pre"],
               "port": ["entropic_torch_post", "entropic_torch_pre"]}[name]
    if dedicated and name != "weber" and rng.random() < .15:
        solvers = ["dedicated"]
    s = {"est": name, "solver": rng.choice(solvers),
         "rho": rng.choice([1e-3, .05, .1, .5, 1.]),
         "n_iter": rng.choice([[1, 2], [2, 4], [0, 3], [3, 1], 4, [2, 7]]),
         "n_zeta": rng.choice([2, 4, 7]),
         "random_state": rng.choice([0, 1, 7, 42, 1234]),
         "lr": rng.choice([None, None, .05, .3])}
    if rng.random() < .08 and s["solver"] != "dedicated":
        s["rho"] = 0.
    if name in ("linreg", "logreg", "weber"):
        s["cost"] = rng.choice(["t-NLC-2-2", "t-NLC-2-2", "t-NLC-1-2", "t-NLC-1-1", "t-NLC-2-2-10.0", "t-NC-2-2"][:5])
        s["l2"] = rng.choice([0., 0., .1])
    elif name == "port":
        s["cost"] = rng.choice(["t-NC-1-1", "t-NC-1-2", "t-NC-2-2"])
    else:
        s["cost"] = rng.choice(["t-NC-1-2", "t-NC-2-2", "t-NC-1-1"])
    if name in ("linreg", "logreg"):
        s["fit_intercept"] = rng.random() < .7
    if rng.random() < .3:
        s["solver_reg"] = rng.choice([.01, .1, 1.])
    if name in ("linreg", "logreg", "weber") and rng.random() < .3:
        s["sampler_reg"] = rng.choice([.01, .2])
    if rng.random() < .35:
        s["opt"] = gen_opt(rng)
    if rng.random() < .1 and s["solver"] != "dedicated" and (name == "weber" or "pre" in s["solver"] and name != "port"):
        s["n_iter"] = None  # the default numbers of steps, where they are small
    if name == "news" and rng.random() < .5:
        s["problem"] = {"k": rng.choice([1., 2., 5.]), "u": rng.choice([6., 9.])}
    elif name == "port" and rng.random() < .5:
        s["problem"] = {"eta": rng.choice([0., .5, 2.]), "alpha": rng.choice([.5, .9])}
    return s


def polyhedron(rng, s, cols, p=.4):
    """Support constraints of a portfolio, for data with that many columns."""
    if s["est"] == "port" and rng.random() < p:
        rows = rng.choice([1, 1, 2])
        s.setdefault("problem", {}).update(C=[[rng.choice([0., 1., -1., 2.]) for _ in range(cols)] for _ in range(rows)],
                                           d=[rng.choice([3., 5.]) for _ in range(rows)])


def gen_opt(rng):
    return {"order": rng.choice([1, 2, "inf"]), "tol_theta": rng.choice([1e-8, 1e-3, .5, 1.5]),
            "tol_lambda": rng.choice([1e-8, 1e-3, .5, 1.5]),
            "monitoring": rng.choice(["theta", "lambda", "both", "one", "t&l", "tUl"]),
            "mode": rng.choice(["rel", "abs"]), "metric": rng.choice(["grad", "param"])}


def make_opt(o):
    from skwdro.solvers.optim_cond import OptCondTorch
    o = dict(o)
    return OptCondTorch(o.pop("order"), **o)


def make_est(s, opt=None):
    from skwdro.linear_models import LinearRegression, LogisticRegression
    from skwdro.operations_research import NewsVendor, Portfolio, Weber
    n_iter = s["n_iter"]
    kw = dict(rho=s["rho"], cost=s["cost"], solver=s["solver"],
              n_zeta_samples=s["n_zeta"], random_state=s["random_state"],
              n_iter=tuple(n_iter) if isinstance(n_iter, list) else n_iter)
    if opt is not None:
        kw["opt_cond"] = opt
    elif "opt" in s:
        kw["opt_cond"] = make_opt(s["opt"])
    if s.get("solver_reg") is not None:
        kw["solver_reg"] = s["solver_reg"]
    kw.update({k: np.array(v) if isinstance(v, list) else v for k, v in s.get("problem", {}).items()})
    kw["learning_rate"] = s["lr"]
    if s["est"] in ("linreg", "logreg"):
        kw["fit_intercept"] = s["fit_intercept"]
    if s["est"] in ("linreg", "logreg", "weber"):
        kw["l2_reg"] = s["l2"]
        if s.get("sampler_reg") is not None:
            kw["sampler_reg"] = s["sampler_reg"]
    cls = {"linreg": LinearRegression, "logreg": LogisticRegression, "weber": Weber,
           "news": NewsVendor, "port": Portfolio}[s["est"]]
    return cls(**kw)


def fit_est(est, X, y):
    return est.fit(X, y) if y is not None else est.fit(X)


def arr(x):
    if x is None:
        return None
    if isinstance(x, pt.Tensor):
        x = x.detach().cpu().numpy()
    if isinstance(x, (list, tuple)):
        return [arr(v) for v in x]
    return np.array(x)


def ask(est, name, s, X, y):
    """What the estimator answers now, as plain arrays (errors included)."""
    out = {}

    def q(key, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out[key] = arr(fn())
            except Exception as e:
                out[key] = "raises " + type(e).__name__
    from sklearn.utils.validation import check_is_fitted
    q("fitted", lambda: check_is_fitted(est) is None)
    if name == "linreg":
        q("predict", lambda: est.predict(X))
        q("score", lambda: est.score(X, y))
    elif name == "logreg":
        q("predict", lambda: est.predict(X))
        q("proba", lambda: est.predict_proba(X))
        q("score", lambda: est.score(X, y))
    else:
        q("score", lambda: est.score(X))
        q("score32", lambda: est.score(np.asarray(X, dtype=np.float32)))
    return out


def learnt(est):
    """Fitted attributes that users read."""
    out = {}
    for k, v in vars(est).items():
        if k.endswith("_") and not k.startswith("_") and isinstance(
                v, (np.ndarray, np.generic, pt.Tensor, float, int, bool, str, list, tuple, type(None))):
            try:
                out[k] = arr(v)
            except Exception:
                continue
    return out


def settings(est):
    return {k: (v if isinstance(v, (int, float, str, tuple, bool, type(None))) else
                (type(v).__name__, v.shape, v.tolist()) if isinstance(v, np.ndarray) else
                (type(v).__name__, {a: b for a, b in sorted(vars(v).items())
                                    if isinstance(b, (int, float, str, bool))}))
            for k, v in est.get_params(deep=False).items()}


# ------------------------------------------------------------------ comparison
def close(a, b, rtol=RTOL, atol=ATOL):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OUSb" or b.dtype.kind in "OUSb":
        return bool(np.all(a == b))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def diff(a, b, rtol=RTOL, atol=ATOL):
    """First difference between two answer dictionaries, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return f"{k}: {'missing' if k not in a else show(a[k])} / {'missing' if k not in b else show(b[k])}"
        if isinstance(a[k], dict) and isinstance(b[k], dict):
            d = diff(a[k], b[k], rtol, atol)
            if d:
                return f"{k}.{d}"
        elif not close(a[k], b[k], rtol, atol):
            return f"{k}: {show(a[k])} / {show(b[k])}"
    return None


def show(x):
    return str(x).replace("\n", " ")[:160]


# ---------------------------------------------------------------- robust losses
class Net(nn.Module):
    """Model of the user, with optional batch norm, dropout, frozen parts."""

    def __init__(self, d, out, spec):
        super().__init__()
        layers = []
        h = d
        for i in range(spec.get("hidden", 0)):
            layers.append(nn.Linear(h, 3))
            h = 3
            if spec.get("bn"):
                layers.append(nn.BatchNorm1d(h))
            layers.append(nn.Tanh())
            if spec.get("dropout"):
                layers.append(nn.Dropout(.3))
        layers.append(nn.Linear(h, out, bias=spec.get("bias", True)))
        self.seq = nn.Sequential(*layers)

    def forward(self, x):
        return self.seq(x)


def gen_loss(rng, bn=False, dropout=False, adapt=("prodigy", "mechanic", None), kinds=("mse", "bce", "ce", "fun", "free"),
             modes=("post", "post", "pre"), rho0=True):
    kind = rng.choice(list(kinds))
    has_labels = kind != "free"
    s = {"kind": kind, "d": rng.choice([1, 2, 3]), "mode": rng.choice(list(modes)),
         "rho": rng.choice([1e-2, .1, .5, 1., 2.]), "n_samples": rng.choice([1, 2, 5, 8]),
         "seed": rng.choice([0, 3, 42, 99]), "adapt": rng.choice(list(adapt)),
         "reduction": rng.choice([None, "mean", "sum", "none"]),
         "imp_samp": rng.random() < .6, "l2": rng.choice([None, None, .2]),
         "init": rng.randrange(1000), "n_iter": rng.choice([[2, 4], [1, 3], 5, [0, 6]]),
         "net": {"hidden": rng.choice([0, 0, 1, 2]), "bias": rng.random() < .8}}
    if bn and s["net"]["hidden"] and rng.random() < .5:
        s["net"]["bn"] = True
    if dropout and s["net"]["hidden"] and rng.random() < .5:
        s["net"]["dropout"] = True
    if has_labels:
        s["cost"] = rng.choice([None, "t-NLC-2-2", "t-NLC-2-2-5.0", "t-NLC-1-2-2.0", "t-NLC-1-1-1.0", "t-NLC-2-2-inf"])
        if kind in ("bce", "ce"):
            s["cost"] = rng.choice([None, "t-NLC-2-2-inf", "t-NLC-2-2"])
    else:
        s["cost"] = rng.choice([None, "t-NC-2-2", "t-NC-1-2", "t-NC-1-1"])
    if rng.random() < .4:
        s["epsilon"] = rng.choice([.05, .3, 1.])
    if rng.random() < .4:
        s["sigma"] = rng.choice([.05, .3, 1.])
    if rho0 and s["adapt"] != "mechanic" and rng.random() < .06:
        s["rho"] = 0.  # (mechanic itself cannot step without gradient)
    if s["adapt"] is None and rng.random() < .5:
        s["lr"] = rng.choice([1e-3, .05, .5])
    if rng.random() < .15:
        s["f64"] = True
    return s


def out_dim(s):
    return {"mse": 1, "bce": 1, "ce": 3, "fun": 1, "free": 1}[s["kind"]]


def fun_loss(pred, target, reduction="none"):
    assert reduction == "none"
    return (pred - target).abs()


class FreeLoss(nn.Module):
    """Loss without labels."""
    reduction = "none"

    def forward(self, x):
        return nn.functional.softplus(x) + .1 * x * x


def make_batch(s, seed, n):
    g = np.random.RandomState(seed)
    dt = pt.float64 if s.get("f64") else pt.float32
    x = pt.tensor(g.randn(n, s["d"]), dtype=dt)
    k = s["kind"]
    if k == "free":
        return x, None
    if k == "bce":
        y = pt.tensor(np.where(g.rand(n, 1) < .5, -1., 1.), dtype=dt)
    elif k == "ce":
        y = pt.tensor(np.eye(3)[g.randint(3, size=n)], dtype=dt)
    else:
        y = pt.tensor(g.randn(n, 1), dtype=dt)
    return x, y


def make_model(s):
    """Model and primal loss with parameters that depend on the spec only."""
    from skwdro.base.losses_torch.logistic import BiDiffSoftMarginLoss
    st = pt.random.get_rng_state()
    pt.manual_seed(s["init"])
    try:
        model = Net(s["d"], out_dim(s), s["net"])
        if s.get("f64"):
            model = model.double()
    finally:
        pt.random.set_rng_state(st)
    k = s["kind"]
    loss = {"mse": lambda: nn.MSELoss(reduction="none"),
            "bce": lambda: BiDiffSoftMarginLoss(reduction="none"),
            "ce": lambda: nn.CrossEntropyLoss(reduction="none"),
            "fun": lambda: fun_loss, "free": FreeLoss}[k]()
    return model, loss


def make_loss(s, model=None, loss=None, n0=5, rho=None):
    from skwdro.torch import robustify
    if model is None:
        model, l0 = make_model(s)
        loss = l0 if loss is None else loss
    x, y = make_batch(s, s["init"] + 1, n0)
    dt = pt.float64 if s.get("f64") else pt.float32
    n_iter = s["n_iter"]
    return robustify(
        loss, model, pt.tensor(s["rho"], dtype=dt) if rho is None else rho, x, y,
        post_sample=s["mode"] == "post", cost_spec=s["cost"], n_samples=s["n_samples"],
        seed=s["seed"], reduction=s["reduction"], learning_rate=s.get("lr"),
        epsilon=s.get("epsilon"), sigma=s.get("sigma"), l2reg=s["l2"], adapt=s["adapt"],
        n_iter=tuple(n_iter) if isinstance(n_iter, list) else n_iter,
        imp_samp=s["imp_samp"], loss_reduces_spatial_dims=s["kind"] == "ce")


def params(dual):
    return {k: v.detach().clone().numpy() for k, v in dual.state_dict().items()}


def attempt_dict(fn):
    """Answer of fn as a dictionary, errors included."""
    from sim.faults import attempt
    st, v = attempt(fn)
    return v if st == "ok" and isinstance(v, dict) else {"outcome": st if st == "ok" else f"{st} {v}"}


def lam_param(dual):
    """The parameter behind the dual multiplier, whatever its name."""
    named = dict(dual.named_parameters(recurse=False))
    for k in ("_lam", "lam"):
        if k in named:
            return named[k]
    return next(p for k, p in named.items() if "lam" in k or "lbd" in k or "mult" in k)
