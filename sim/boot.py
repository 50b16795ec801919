"""Builds the process image every run is forked from: third-party libraries,
then seams, then the library from /repo's working tree."""
import gc
import importlib
import os
import sys
import warnings

REPO = "/repo"
_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    warnings.simplefilter("ignore")
    import numpy  # noqa
    import scipy.special  # noqa
    import torch as pt
    pt.set_num_threads(1)
    pt.set_num_interop_threads(1)
    import torch.distributions  # noqa
    import torch._functorch.apis  # noqa
    import torch.nn.utils.parametrize  # noqa
    # imported lazily by torch's optimizers: pay once, not in every run
    import torch._dynamo  # noqa
    import torch.distributed.fsdp  # noqa
    import torch.distributed.tensor  # noqa
    import sklearn.utils.estimator_checks  # noqa
    from sklearn.experimental import enable_halving_search_cv  # noqa
    import sklearn.model_selection  # noqa
    import sklearn.preprocessing  # noqa
    import joblib  # noqa
    import joblib._parallel_backends  # noqa
    import cloudpickle  # noqa
    import dask.distributed  # noqa
    import cvxpy  # noqa
    import cvxopt  # noqa
    import prodigyopt  # noqa
    import mechanic_pytorch  # noqa
    from sim import threads, cluster
    threads.install()
    cluster.install()

    # compile the library from the working tree, never from stale bytecode
    sys.dont_write_bytecode = True
    prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import skwdro.torch  # noqa
        import skwdro.linear_models  # noqa
        import skwdro.operations_research  # noqa
        for name in ("wrap_problem", "base.rho_tuners", "base.samplers.torch", "base.cost_decoder",
                     "solvers.hybrid_opt", "solvers.oracle_torch", "solvers.optim_cond",
                     "solvers.entropic_dual_torch", "solvers.specific_solvers"):
            try:
                importlib.import_module("skwdro." + name)
            except ImportError:
                pass
    finally:
        sys.pycache_prefix = prefix
    assert os.path.realpath(skwdro.__file__).startswith(REPO + "/"), skwdro.__file__
    # run-independent one-time costs
    pt.zeros(2) @ pt.zeros(2)
    # no collection at arbitrary points, nor copies of the image it would cause
    gc.collect()
    gc.freeze()
    gc.disable()
