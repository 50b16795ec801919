"""C18: calls leave the settings of the process as they found them."""
import builtins
import decimal
import faulthandler
import gc
import locale
import logging
import os
import resource
import signal
import sys
import threading
import warnings

import cvxopt
import numpy as np
import scipy.special
import torch as pt

from checks.c14 import Seam
from sim import zoo
from sim.core import Check, Violation
from sim.faults import attempt, place
from sim.robust import User, gen_user

SCOPES = ("none", "lib", "lib", "op", "draw")


def environment():
    """Settings of the process and of the calling thread, random states apart."""
    import joblib
    import sklearn
    from torch.overrides import _len_torch_function_stack
    from torch.utils._python_dispatch import _len_torch_dispatch_stack
    mask = os.umask(0o22)
    os.umask(mask)
    log = logging.getLogger()
    return {
        "torch: gradients enabled": pt.is_grad_enabled(),
        "torch: inference mode": pt.is_inference_mode_enabled(),
        "torch: default dtype": str(pt.get_default_dtype()),
        "torch: default device": str(pt.get_default_device()),
        "torch: anomaly detection": (pt.is_anomaly_enabled(), pt.is_anomaly_check_nan_enabled()),
        "torch: deterministic algorithms": (pt.are_deterministic_algorithms_enabled(), pt.is_deterministic_algorithms_warn_only_enabled()),
        "torch: threads": pt.get_num_threads(),
        "torch: backward passes": (pt._C._is_multithreading_enabled(), pt._C._is_view_replay_enabled()),
        "torch: saved tensors": str(pt._C._autograd._top_saved_tensors_default_hooks(True)),
        "torch: backends": (pt.backends.cudnn.enabled, pt.backends.cudnn.benchmark, pt.backends.cudnn.deterministic,
                            pt.backends.mkldnn.enabled, pt.backends.cuda.matmul.allow_tf32, pt.is_warn_always_enabled()),
        "torch: module settings": (pt.__future__.get_overwrite_module_params_on_conversion(),
                                   len(pt.nn.modules.module._global_forward_hooks), len(pt.nn.modules.module._global_forward_pre_hooks),
                                   len(pt.nn.modules.module._global_backward_hooks)),
        "torch: flush denormal": float(pt.tensor(1e-310, dtype=pt.float64) * .5) != 0.,
        "integer digits": sys.get_int_max_str_digits(),
        "torch: autocast": pt.is_autocast_enabled("cpu"),
        "torch: active modes": (_len_torch_function_stack(), _len_torch_dispatch_stack()),
        "torch: printing": str(pt._tensor_str.PRINT_OPTS),
        "torch: matmul precision": pt.get_float32_matmul_precision(),
        "torch: argument validation": str(pt.distributions.Distribution._validate_args),
        "numpy: error handling": str(np.geterr()), "numpy: printing": str(np.get_printoptions()),
        "sklearn: configuration": str(sklearn.get_config()),
        "joblib: backend": str(type(joblib.parallel.get_active_backend()[0])),
        "warning filters": [str(f) for f in warnings.filters],
        "warning display": id(warnings.showwarning),
        "environment": dict(os.environ), "directory": os.getcwd(), "umask": mask,
        "import path": list(sys.path), "recursion limit": sys.getrecursionlimit(),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "signal handlers": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        "timers": signal.getitimer(signal.ITIMER_REAL),
        "logging": (log.level, log.disabled, logging.root.manager.disable, [str(h) for h in log.handlers]),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.name for t in threading.enumerate()),
        "decimal precision": decimal.getcontext().prec,
        "tracing": sys.gettrace() is None and sys.getprofile() is None,
        "switch interval": sys.getswitchinterval(),
        "cvxopt: options": {k: str(v) for k, v in sorted(cvxopt.solvers.options.items())},
        "numpy: buffers": (np.getbufsize(), str(np.geterrcall())), "scipy: errors": str(scipy.special.geterr()),
        "limits": (resource.getrlimit(resource.RLIMIT_AS), resource.getrlimit(resource.RLIMIT_STACK), resource.getrlimit(resource.RLIMIT_CPU),
                   resource.getrlimit(resource.RLIMIT_NOFILE), os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))),
        "locale": locale.setlocale(locale.LC_ALL), "thread stacks": threading.stack_size(), "fault handler": faulthandler.is_enabled(),
        "bytecode": sys.dont_write_bytecode, "interpreter hooks": (id(sys.unraisablehook), id(sys.breakpointhook), id(builtins.print), id(builtins.open)),
        "files": sorted(os.listdir("/proc/self/fd"))[:-1],
    }


def set_caller(c):
    """Settings of the caller, not the default ones."""
    if c.get("warn"):
        warnings.simplefilter(c["warn"])
    if c.get("np"):
        np.seterr(**{k: c["np"] for k in ("divide", "over", "invalid")})
    if c.get("anomaly"):
        pt.autograd.set_detect_anomaly(True)
    if c.get("deterministic"):
        pt.use_deterministic_algorithms(True, warn_only=c["deterministic"] == "warn")
    if c.get("finite"):
        import sklearn
        sklearn.set_config(assume_finite=True)
    if c.get("print"):
        np.set_printoptions(precision=3)
        pt.set_printoptions(precision=3)
    if c.get("f64"):
        pt.set_default_dtype(pt.float64)
    if c.get("no_validate"):
        pt.distributions.Distribution.set_default_validate_args(False)
    if c.get("lp"):
        cvxopt.solvers.options["maxiters"] = 60


class C18(Check):
    id = "C18"
    runs = {"quick": 1800, "thorough": 12000}
    rule = "a run is non-trivial when a call was interrupted by an error at a chosen place, or the caller had changed a setting beforehand"
    real = ["estimators, robust losses, solves, constrained optimizers", "torch, numpy, sklearn, cvxpy"]
    stubs = ["none (errors enter at chosen statements of the library, tensor operations, draws, solves)"]
    state_measure = "distinct (call, settings of the caller, place and kind of the error)"
    assumptions = ["the states of the random generators are not settings", "radius tuning is left to C12",
                   "without the mechanic optimizer, which itself turns gradients off when it meets an error",
                   "settings of torch, numpy, sklearn, joblib, the interpreter and the process listed in the check"]

    def gen(self, rng, tier):
        c = {}
        for k, vs in (("warn", ["error", "always", "default"]), ("np", ["raise", "ignore"]), ("anomaly", [True]),
                      ("deterministic", [True, "warn"]), ("finite", [True]), ("print", [True]), ("f64", [True]), ("no_validate", [True]),
                      ("lp", [True])):
            if rng.random() < (.08 if k == "f64" else .2):
                c[k] = rng.choice(vs)
        ops = []
        for _ in range(rng.choice([1, 2, 3] if tier == "quick" else [2, 4, 6])):
            k = rng.choice(["fit", "fit", "fit", "ask", "loss", "loss", "hybrid", "convex"])
            o = {"op": k, "scope": rng.choice(SCOPES), "frac": rng.random(), "kind": rng.choice(["error", "interrupt", "memory"]),
                 "no_grad": rng.random() < (.3 if k in ("ask", "loss") else .05)}
            if k in ("fit", "ask"):
                o["est"] = zoo.gen_est(rng)
                o["est"]["n_iter"] = rng.choice([[1, 1], [1, 2], [0, 2], 2])
                o["data"] = zoo.gen_data(rng, zoo.KIND[o["est"]["est"]], n=rng.choice([5, 6]))
                if o["est"]["solver"] == "dedicated":
                    o["data"].update(k=2, n=rng.choice([5, 6, 30]))
                if rng.random() < .1:
                    o["bad"] = True
            elif k == "loss":
                o["loss"] = gen_user(rng, bn=True, adapt=("prodigy", None))
                o["what"] = rng.choice(["eval", "grads", "step", "init", "solve"])
                o["opt"] = zoo.gen_opt(rng)
                o["nan"] = rng.random() < .1
            elif k == "convex":
                o.update(what=rng.choice(["SAANewsvendorSpecificSolver", "SAANewsvendorSpecificSolver2", "WDRONewsvendorSpecificSolver"]),
                         n=rng.choice([3, 6, 10]), seed=rng.randrange(50), bad=rng.random() < .1)
            else:
                o["rule"] = rng.choice(["mwu", "mwu_simplex", "non_neg", "max", "bound"])
                o["adam"] = rng.random() < .5
                o["closure"] = rng.random() < .5
            ops.append(o)
        return {"ambient": rng.randrange(1000), "caller": c, "ops": ops}

    def simpler(self, p):
        for k in p["caller"]:
            yield {**p, "caller": {a: b for a, b in p["caller"].items() if a != k}}

    def call(self, op):
        """The call to make, as a function without arguments."""
        if op["op"] in ("fit", "ask"):
            est = zoo.make_est(op["est"])
            X, y = zoo.make_data(op["data"])
            if op.get("bad"):
                X = X * np.nan
            if op["op"] == "fit":
                return lambda: zoo.fit_est(est, X, y)
            attempt(lambda: zoo.fit_est(est, X, y))

            def questions():
                for f in (lambda: est.predict(X), lambda: est.predict_proba(X), lambda: est.score(X, y) if y is not None else est.score(X),
                          lambda: est.get_params(), lambda: repr(est)):
                    try:
                        f()
                    except Exception:
                        continue
            return questions
        if op["op"] == "loss":
            u = User(op["loss"])
            x, y = u.batch(3, 4)
            if op["nan"]:
                x = x * float("nan")
            return {"eval": lambda: u.evaluate(x, y), "grads": lambda: u.grads(x, y), "step": lambda: u.step(x, y),
                    "init": lambda: u.init(x, y), "solve": lambda: u.solve(x, y, op["opt"])}[op["what"]]
        if op["op"] == "convex":
            from skwdro.solvers import specific_solvers
            z = np.random.RandomState(op["seed"]).exponential(size=(op["n"], 1)) * (np.nan if op["bad"] else 10.)
            return lambda: getattr(specific_solvers, op["what"])(samples=z)
        from skwdro.solvers import hybrid_opt
        p = pt.nn.Parameter(pt.tensor([.2, .3, .5], dtype=pt.float32))
        o = (hybrid_opt.HybridAdam if op["adam"] else hybrid_opt.HybridSGD)([{"params": [p], op["rule"]: True}], lr=.1)

        def closure():
            o.zero_grad()
            v = (p * p).sum()
            v.backward()
            return v
        if not op["closure"]:
            with pt.enable_grad():
                closure()
        return lambda: o.step(closure if op["closure"] else None)

    def run(self, plan, ctx):
        set_caller(plan["caller"])
        for n, op in enumerate(plan["ops"]):
            ctx.step()
            places = 0, ()
            with warnings.catch_warnings():
                before = environment()
                st, fn = attempt(lambda: self.call(op))
                self.compare(before, f"preparing operation {n} ({op['op']})")
                if st != "ok":
                    ctx.event("preparation", st)
                    continue
                if op["scope"] != "none":
                    st, twin = attempt(lambda: self.call(op))
                    with Seam(op["scope"]) as c, pt.set_grad_enabled(not op["no_grad"]):
                        attempt(twin)
                    places = c.count, list(c.spots.values())
            with pt.set_grad_enabled(not op["no_grad"]):
                before = environment()
                if op["scope"] == "none":
                    st, e = attempt(fn)
                    fired = None
                else:
                    with Seam(op["scope"], place(op["frac"], *places), op["kind"], ctx) as c:
                        st, e = attempt(fn)
                    fired = c.fired
                what = op.get("what") or (op["est"]["est"] if "est" in op else op.get("rule"))
                self.compare(before, f"operation {n} ({op['op']} {what}, {st}, {op['kind']} at {fired})")
            ctx.event(op["op"], st, str(fired))
            ctx.state(op["op"], what, sorted(plan["caller"]), op["no_grad"], str(fired))
            if fired:
                ctx.probe("interrupted call")
            elif st != "ok":
                ctx.probe("call that raised by itself")
            ctx.nontrivial = ctx.nontrivial or bool(fired or plan["caller"] or op["no_grad"])

    def compare(self, before, where):
        after = environment()
        for k, v in before.items():
            if after[k] != v:
                raise Violation("setting", f"{where}: {k} was {zoo.show(v)}, became {zoo.show(after[k])}")


CHECK = C18()
