From 099a4668b4a84e817ebe96485222312ae3c05b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:55 +0000
Subject: [PATCH 01/25] fix: give every solve its own stopping-condition memory

The condition object keeps the first gradients and iterates it observes.
Estimators share one default instance, so a fit was compared against the
first iterates of an earlier, unrelated fit.
---
 skwdro/solvers/entropic_dual_torch.py | 6 +++++-
 skwdro/solvers/optim_cond.py          | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..29ac55d 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -1,4 +1,5 @@
 import math
+from copy import copy
 from warnings import warn
 from typing import List, Optional
 import torch as pt
@@ -96,7 +97,10 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     # _DualLoss.presample determines the way the optimization is performed
     optim_ = optim_presample if loss.presample else optim_postsample
 
-    opt_cond: OptCondTorch = opt
+    # The condition remembers the first iterates it sees: use a private one, as
+    # the instance may be shared with other solves (e.g. default arguments).
+    opt_cond: OptCondTorch = copy(opt)
+    opt_cond.reset()
 
     losses = optim_(optimizer, xi, xi_labels, loss, opt_cond)
     theta = detach_tensor(loss.theta)
diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..4a3e312 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -108,7 +108,12 @@ class OptCondTorch:
         self.max_iter: int = 0 if max_iter is None else max_iter
 
         self.verbose = verbose
+        self.reset()
 
+    def reset(self):
+        """
+        Forget everything observed so far, to monitor a new optimization.
+        """
         self.l_mem: Optional[pt.Tensor] = None
         self.t_mem: Optional[pt.Tensor] = None
         self.l_0: Optional[pt.Tensor] = None
-- 
2.43.0


From 92ab7fc89a98b55c3ded10b1c4ca273993c1484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:16 +0000
Subject: [PATCH 02/25] fix: draw the initial parameters of the estimators from
 random_state

The models were initialized from whatever state the global torch generator
was in, so two fits with the same random_state and data gave different
coefficients.
---
 skwdro/base/samplers/torch/base_samplers.py  | 18 ++++++++++++++++++
 skwdro/linear_models/_linear_regression.py   |  5 ++++-
 skwdro/linear_models/_logistic_regression.py | 11 +++++++----
 skwdro/operations_research/_newsvendor.py    |  5 ++++-
 skwdro/operations_research/_portfolio.py     |  7 +++++--
 5 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index d354928..c9464a0 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -1,11 +1,29 @@
 from typing import Dict, Optional, Tuple, Union
 from abc import ABC, abstractmethod
+from contextlib import contextmanager
+from threading import RLock
 
 import random
 import torch as pt
 
 import skwdro.distributions as dst
 
+# All the draws are made from the generators of the process: whoever seeds them
+# holds this lock until its draws are made, so that threads do not mix streams.
+RNG_LOCK = RLock()
+
+
+@contextmanager
+def seeded_rng(seed: Optional[int]):
+    """
+    Seed the torch and python rngs for the draws made in the context.
+    """
+    with RNG_LOCK:
+        if seed is not None:
+            pt.manual_seed(seed)
+            random.seed(seed)
+        yield
+
 
 class BaseSampler(ABC):
     seed: Optional[int]
diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..7446659 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -20,6 +20,7 @@ from skwdro.base.costs_torch import Cost as TorchCost
 from skwdro.solvers.optim_cond import OptCondTorch
 from skwdro.base.cost_decoder import cost_from_str
 from skwdro.wrap_problem import dualize_primal_loss
+from skwdro.base.samplers.torch.base_samplers import seeded_rng
 
 
 class LinearRegression(BaseEstimator, RegressorMixin):
@@ -179,9 +180,11 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 self.opt_cond = OptCondTorch(2)
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
+            with seeded_rng(self.random_state):
+                module = nn.Linear(d, 1)
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                module,
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..27b38ff 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -22,6 +22,7 @@ import skwdro.solvers.specific_solvers as spS
 import skwdro.solvers.entropic_dual_torch as entTorch
 from skwdro.solvers.utils import Steps
 from skwdro.wrap_problem import dualize_primal_loss
+from skwdro.base.samplers.torch.base_samplers import seeded_rng
 
 
 class LogisticRegression(BaseEstimator, ClassifierMixin):
@@ -269,13 +270,15 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             loss = (
                 BiDiffSoftMarginLoss if _bilat else nn.CrossEntropyLoss
             )(reduction='none')
-            self.wdro_loss_ = dualize_primal_loss(
-                loss,
-                nn.Linear(
+            with seeded_rng(self.random_state):
+                module = nn.Linear(
                     self.n_features_in_,
                     module_out,
                     bias=self.fit_intercept
-                ),
+                )
+            self.wdro_loss_ = dualize_primal_loss(
+                loss,
+                module,
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..55491e1 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -16,6 +16,7 @@ import skwdro.solvers.specific_solvers as spS
 import skwdro.solvers.entropic_dual_torch as entTorch
 from skwdro.base.cost_decoder import cost_from_str
 from skwdro.wrap_problem import dualize_primal_loss
+from skwdro.base.samplers.torch.base_samplers import seeded_rng
 from skwdro.solvers.utils import Steps, detach_tensor
 
 
@@ -155,8 +156,10 @@ class NewsVendor(BaseEstimator):
             if self.opt_cond is None:
                 self.opt_cond = OptCondTorch(2)
 
+            with seeded_rng(self.random_state):
+                loss = CustomNewsvendorLoss(self.k, self.u)
             self._wdro_loss = dualize_primal_loss(
-                CustomNewsvendorLoss(self.k, self.u),
+                loss,
                 None,
                 pt.tensor(self.rho),
                 xi_batchinit=pt.Tensor(emp.samples),
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..2e676a0 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -13,6 +13,7 @@ from skwdro.base.problems import EmpiricalDistributionWithoutLabels
 from skwdro.base.losses_torch.portfolio import SimplePortfolio
 from skwdro.solvers.utils import Steps, detach_tensor
 from skwdro.wrap_problem import dualize_primal_loss
+from skwdro.base.samplers.torch.base_samplers import seeded_rng
 
 from skwdro.base.cost_decoder import cost_from_str
 
@@ -216,9 +217,11 @@ class Portfolio(BaseEstimator):
             if self.opt_cond is None:
                 self.opt_cond = OptCondTorch(2)
 
+            with seeded_rng(self.random_state):
+                loss = SimplePortfolio(m, risk_aversion=self.eta_,
+                                       risk_level=self.alpha_)
             self._wdro_loss = dualize_primal_loss(
-                SimplePortfolio(m, risk_aversion=self.eta_,
-                                risk_level=self.alpha_),
+                loss,
                 None,
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
-- 
2.43.0


From 5ca2880fc5bdf702cc4bbb355785dd8fcd07dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:39 +0000
Subject: [PATCH 03/25] fix: do not let threads split the seeding of a sampler
 from its draws

The samplers seed the generator of the process and draw from it later on.
Fits running in several threads, as in the dask-backed radius tuner, could
reseed it or draw from it in between, so that results depended on timing.
---
 skwdro/base/samplers/torch/base_samplers.py |  5 ++---
 skwdro/solvers/entropic_dual_torch.py       |  6 ++++--
 skwdro/solvers/oracle_torch.py              | 20 ++++++++++++--------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index c9464a0..86bc7cf 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -44,9 +44,8 @@ class BaseSampler(ABC):
         self.seed = seed
 
         # Set seed
-        if seed is not None:
-            pt.manual_seed(seed)
-            random.seed(seed)
+        with seeded_rng(seed):
+            pass
 
     @abstractmethod
     def sample(
diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 29ac55d..8aa668a 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -3,7 +3,7 @@ from copy import copy
 from warnings import warn
 from typing import List, Optional
 import torch as pt
-from skwdro.base.samplers.torch.base_samplers import BaseSampler
+from skwdro.base.samplers.torch.base_samplers import BaseSampler, seeded_rng
 from skwdro.base.problems import Distribution
 from skwdro.solvers.optim_cond import OptCondTorch
 from skwdro.solvers.utils import detach_tensor, interpret_steps_struct
@@ -151,7 +151,9 @@ def optim_presample(
         # Means were never set in the first place, so initialize the sampler
         # Warning: no seed is set, so set the sampler yourself if needed
         loss.init_sampler(xi, xi_labels, loss.epsilon.detach().item(), None)
-    zeta, zeta_labels = loss.generate_zetas()
+    # Seed again, other threads may have drawn since the sampler was built
+    with seeded_rng(loss.primal_loss.sampler.seed):
+        zeta, zeta_labels = loss.generate_zetas()
 
     def closure(back=True) -> float:
         """
diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..0fbd157 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -8,6 +8,7 @@ from mechanic_pytorch import mechanize
 
 from skwdro.base.costs_torch import Cost
 from skwdro.base.losses_torch import Loss
+from skwdro.base.samplers.torch.base_samplers import RNG_LOCK
 from skwdro.solvers._dual_interfaces import _DualLoss
 from skwdro.solvers.utils import Steps, interpret_steps_struct
 
@@ -282,13 +283,17 @@ class DualPostSampledLoss(_DualLoss):
         dl : pt.Tensor
         """
         del zeta, zeta_labels
-        if self.primal_loss.sampler is None:
-            # Means were never set in the first place, so initialize the sampler
-            # Warning: no seed is set, so set the sampler yourself if needed
-            self.init_sampler(xi, xi_labels, self.epsilon.detach().item(), None)
-        elif reset_sampler:
-            # Otherwise reset the mean
-            self.reset_sampler_mean(xi, xi_labels)
+        with RNG_LOCK:
+            if self.primal_loss.sampler is None:
+                # Means were never set in the first place, so initialize the sampler
+                # Warning: no seed is set, so set the sampler yourself if needed
+                self.init_sampler(xi, xi_labels, self.epsilon.detach().item(), None)
+            elif reset_sampler:
+                # Otherwise reset the mean
+                self.reset_sampler_mean(xi, xi_labels)
+            # Draw before another thread seeds the generator in turn
+            if not self.rho <= 0.:
+                zeta_, zeta_labels_ = self.generate_zetas(self.n_samples)
 
         if self.rho < 0.:
             raise ValueError(' '.join([
@@ -307,7 +312,6 @@ class DualPostSampledLoss(_DualLoss):
             primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
             return first_term + primal_loss
         else:
-            zeta_, zeta_labels_ = self.generate_zetas(self.n_samples)
             return self.compute_dual(xi, xi_labels, zeta_, zeta_labels_)
 
     def __str__(self):
-- 
2.43.0


From 35228aa92be7760a232c8c731f05ccd919a2e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:32 +0000
Subject: [PATCH 04/25] fix: leave the model's frozen parameters and modes
 alone in importance sampling

Computing the displacement of the sampler switched the whole model to
training mode and made all its parameters trainable, including the ones
frozen by the user, and left it frozen and in evaluation mode on errors.
---
 .../_dual_interfaces/_impsamp_interface.py    | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..539270f 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        training_modes = [(m, m.training) for m in model.modules()]
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -154,8 +155,11 @@ class _SampleDisplacer(_SampledDualLoss):
                 None
             )
         )
-        psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        try:
+            psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
+        finally:
+            for module, mode in training_modes:
+                module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -192,16 +196,19 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        trainable = [p for p in self.primal_loss.parameters() if p.requires_grad]
         self.freeze()
 
-        # "Dual" samples for forward pass, to get the gradients wrt them
-        grad_xi, grad_xi_labels = self.compute_functional_grads(
-            xi.unsqueeze(0),
-            maybe_unsqueeze(xi_labels)
-        )
-
-        # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        try:
+            # "Dual" samples for forward pass, to get the gradients wrt them
+            grad_xi, grad_xi_labels = self.compute_functional_grads(
+                xi.unsqueeze(0),
+                maybe_unsqueeze(xi_labels)
+            )
+        finally:
+            # Unfreeze the parameters to allow training
+            for param in (*trainable, self._lam):
+                param.requires_grad = True
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From d2e84b4b2b6996147732d3601ea3a0f3281e4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:12 +0000
Subject: [PATCH 05/25] fix: keep the robust objective when the dual loss is
 set to training mode

train(True), as called by a parent module or a training loop, turned the
robust loss into plain risk minimization, and train() set the evaluation
mode.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..b772c48 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -292,8 +292,8 @@ class _DualLossBase(nn.Module, ABC):
         self.erm_mode = True
         return super().eval()
 
-    def train(self, mode: bool = False):
-        self.erm_mode = mode
+    def train(self, mode: bool = True):
+        self.erm_mode = False
         return super().train(mode)
 
 
-- 
2.43.0


From 138f93a3403d9b77f37b27ccfba7202b3192beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:12 +0000
Subject: [PATCH 06/25] fix: compare lambda to its past values in the stopping
 condition

The memory was the parameter itself, updated in place, so the observed
change was always zero.
---
 skwdro/solvers/optim_cond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 4a3e312..bc512e7 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -152,7 +152,8 @@ class OptCondTorch:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            # Copy the value: the optimizer updates the parameter in place
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From e8d2d9088f445c7bf39b5e95ac8f38b1bdb6e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:13 +0000
Subject: [PATCH 07/25] fix: normalize the inner expectation of every sample
 with the sum reduction

The log of the number of samples was subtracted once from the summed loss
instead of once per data sample.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..e73f4e4 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -127,9 +127,8 @@ class _DualFormulation(_SampleDisplacer):
 
             # Expectation on the zeta samples (collapse 1st dim)
             second_term = self.reduce_loss_batch(
-                pt.logsumexp(integrand, 0)
-            )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
+                pt.logsumexp(integrand, 0) - pt.log(pt.tensor(zeta.size(0)))
+            )  # (m, 1) -> (1,)
             return first_term + self.epsilon * second_term  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
-- 
2.43.0


From 1b18806795d4c37b650a0683e2b2135c2dee6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:28 +0000
Subject: [PATCH 08/25] fix: evaluate the closure of the hybrid optimizers on
 the actual parameters

The closure ran between the two rules, on the logarithm or the opposite of
the parameters, which were also left so when it raised an error. Its value
is now returned, as torch optimizers do.
---
 skwdro/solvers/hybrid_opt.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/skwdro/solvers/hybrid_opt.py b/skwdro/solvers/hybrid_opt.py
index 9f140f3..6164b2a 100644
--- a/skwdro/solvers/hybrid_opt.py
+++ b/skwdro/solvers/hybrid_opt.py
@@ -73,12 +73,28 @@ class HybridOpt(object):
                     with torch.no_grad():
                         rules[key](p)
 
-    def step(self, *args, **kwargs):
-        self._apply_rules(PRERULES)
-
-        super(HybridOpt, self).step(*args, **kwargs)
-
-        self._apply_rules(POSTRULES)
+    def step(self, closure=None):
+        loss = None
+        if closure is not None:
+            # The rules change the parameters, so evaluate the loss before
+            with torch.enable_grad():
+                loss = closure()
+
+        params = [p for group in self.param_groups for p in group['params']]
+        saved = [p.detach().clone() for p in params]
+        try:
+            self._apply_rules(PRERULES)
+
+            super(HybridOpt, self).step()
+
+            self._apply_rules(POSTRULES)
+        except BaseException:
+            # Do not leave parameters in the space of the update
+            with torch.no_grad():
+                for p, value in zip(params, saved):
+                    p.copy_(value)
+            raise
+        return loss
 
 
 class HybridSGD(HybridOpt, SGD):
-- 
2.43.0


From e2f3364ec47a0a36e8abafb673a1e96e19c94bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:28 +0000
Subject: [PATCH 09/25] fix: save the schedules of the composite optimizer with
 its state

A training resumed from a saved state started the learning rate annealing
over again.
---
 skwdro/solvers/oracle_torch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fbd157..8181266 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -88,11 +88,17 @@ class CompositeOptimizer(pt.optim.Optimizer):
             opt.zero_grad()
 
     def state_dict(self):
-        return {k: opt.state_dict() for (k, opt) in self.opts.items()}
+        state = {k: opt.state_dict() for (k, opt) in self.opts.items()}
+        state['schedulers'] = {
+            k: scheduler.state_dict() for (k, scheduler) in self.schedulers.items()
+        }
+        return state
 
     def load_state_dict(self, state_dict):
         for (k, opt) in self.opts.items():
             opt.load_state_dict(state_dict[k])
+        for (k, scheduler_state) in state_dict.get('schedulers', {}).items():
+            self.schedulers[k].load_state_dict(scheduler_state)
 
     def reset_lbd_state(self):
         self.opts['lbd'].load_state_dict(self.init_state_lbd)
-- 
2.43.0


From f36749ddb05f67cea3e6783fe02dacd59bc4b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:47 +0000
Subject: [PATCH 10/25] fix: keep the dual multiplier non-negative with AdamW
 and LBFGS

Only the composite optimizers projected it, so that solves with a fixed
learning rate could run away with a negative multiplier.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 7 +++++++
 skwdro/solvers/oracle_torch.py                           | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index b772c48..3994de5 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -298,6 +298,13 @@ class _DualLossBase(nn.Module, ABC):
 
 
 class _OptimizeableDual(_DualLossBase):
+    def _project_lam(self, *_) -> None:
+        """
+        Hook for the optimizers, the multiplier must remain non-negative.
+        """
+        with pt.no_grad():
+            self._lam.clamp_(0., None)
+
     @property
     def optimizer(self) -> pt.optim.Optimizer:
         """ optimizer set up by the user
diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 8181266..4ab23fb 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -209,6 +209,7 @@ class DualPostSampledLoss(_DualLoss):
                 amsgrad=True,
                 foreach=True
             )
+            self._opti.register_step_post_hook(self._project_lam)
 
     def reset_sampler_mean(
         self,
@@ -446,6 +447,7 @@ class DualPreSampledLoss(_DualLoss):
             tolerance_change=1e-6,
             history_size=30
         )
+        self._opti.register_step_post_hook(self._project_lam)
 
         self.zeta = None
         self.zeta_labels = None
-- 
2.43.0


From 334bc163cd47d36baff67d1f2f95f9c246316a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:47 +0000
Subject: [PATCH 11/25] fix: raise when the dedicated linear regression solver
 finds no solution

The estimator was otherwise reported as fitted, without coefficients.
---
 skwdro/solvers/specific_solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c4db7fc..0071a64 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -173,6 +173,10 @@ def WDROLinRegSpecificSolver(rho: float = 1.0, X: np.ndarray = np.array(
 
     problem.solve(verbose=False, solver='CLARABEL')
 
+    if coeff.value is None or np.isnan(sum(coeff.value)):
+        raise ValueError(
+            "No solution found for the linear regression problem")
+
     return coeff.value, intercept.value, None
 
 
-- 
2.43.0


From cd592f5ac970e186cb007e3900cde780c63fc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:47 +0000
Subject: [PATCH 12/25] fix: close the dask client of the radius tuner

Every fit left a scheduler and its worker threads running.
---
 skwdro/base/rho_tuners.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/rho_tuners.py b/skwdro/base/rho_tuners.py
index ed2d17d..bc228a3 100644
--- a/skwdro/base/rho_tuners.py
+++ b/skwdro/base/rho_tuners.py
@@ -43,15 +43,14 @@ class RhoTunedEstimator(BaseEstimator):
             "rho": [10**(-i) for i in range(self.max_power, self.min_power, -1)]}
         grid_cv_ = KFold(n_splits=5, shuffle=False)
 
-        client_ = Client(processes=False)
-
         # grid_estimator_= GridSearchCV(estimator=self.estimator, param_grid=param_grid_, cv=grid_cv_,
         # refit=True, n_jobs=-1, verbose=3, error_score="raise")
         grid_estimator_ = HalvingGridSearchCV(estimator=self.estimator, param_grid=param_grid_, cv=grid_cv_,
                                               refit=True, n_jobs=-1, verbose=3, min_resources="smallest",
                                               error_score="raise")
 
-        with jb.parallel_backend("dask", scatter=[X, y]):
+        with Client(processes=False), \
+                jb.parallel_backend("dask", scatter=[X, y]):
             grid_estimator_.fit(X, y)  # Fit on the new estimator
 
         best_params_ = grid_estimator_.best_params_
-- 
2.43.0


From 2e33a282bd6183375315a3549a149106eb2bccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:47 +0000
Subject: [PATCH 13/25] fix: do not share the memory of the radius given to a
 dual loss

Loading a state into a loss changed the tensor of the caller and the other
losses built with it.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 3994de5..4229679 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -98,9 +98,9 @@ class _DualLossBase(nn.Module, ABC):
         # But they are not included in the autograd graph
         # (requires_grad=False).
         self.rho = nn.Parameter(pt.as_tensor(
-            rho_0), requires_grad=gradient_hypertuning)
+            rho_0).clone(), requires_grad=gradient_hypertuning)
         self.epsilon = nn.Parameter(pt.as_tensor(
-            epsilon_0), requires_grad=gradient_hypertuning)
+            epsilon_0).clone(), requires_grad=gradient_hypertuning)
 
         self.reduction = 'mean' if reduction is None else reduction
 
-- 
2.43.0


From 2025ce9e09da3e1c6785f1fe29467e94372ffe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:47 +0000
Subject: [PATCH 14/25] fix: evaluate the pre-sampled loss at radius zero with
 stored samples

---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 4ab23fb..1e95cb5 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -538,7 +538,7 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From a9b471333fdbbf4272abaf0fe49f04219f694829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:40 +0000
Subject: [PATCH 15/25] fix: undo an interrupted fit instead of mixing it with
 the previous one

A fit that failed or was interrupted left some of its attributes behind,
for instance the classes of the new data next to the old coefficients.
---
 skwdro/linear_models/_linear_regression.py   |  3 ++-
 skwdro/linear_models/_logistic_regression.py |  3 ++-
 skwdro/operations_research/_newsvendor.py    |  3 ++-
 skwdro/operations_research/_portfolio.py     |  3 ++-
 skwdro/operations_research/_weber.py         |  3 ++-
 skwdro/solvers/utils.py                      | 17 +++++++++++++++++
 6 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7446659..8c41588 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -14,7 +14,7 @@ from sklearn.utils.validation import check_X_y, check_array, check_is_fitted
 
 import skwdro.solvers.specific_solvers as spS
 import skwdro.solvers.entropic_dual_torch as entTorch
-from skwdro.solvers.utils import Steps, detach_tensor, maybe_detach_tensor
+from skwdro.solvers.utils import atomic_fit, Steps, detach_tensor, maybe_detach_tensor
 from skwdro.base.problems import EmpiricalDistributionWithLabels
 from skwdro.base.costs_torch import Cost as TorchCost
 from skwdro.solvers.optim_cond import OptCondTorch
@@ -123,6 +123,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         self.n_zeta_samples = n_zeta_samples
         self.random_state = random_state
 
+    @atomic_fit
     def fit(self, X, y):
         """Fits the WDRO classifier.
 
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 27b38ff..20f470c 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -20,7 +20,7 @@ from skwdro.base.cost_decoder import cost_from_str
 
 import skwdro.solvers.specific_solvers as spS
 import skwdro.solvers.entropic_dual_torch as entTorch
-from skwdro.solvers.utils import Steps
+from skwdro.solvers.utils import atomic_fit, Steps
 from skwdro.wrap_problem import dualize_primal_loss
 from skwdro.base.samplers.torch.base_samplers import seeded_rng
 
@@ -134,6 +134,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         self.n_zeta_samples = n_zeta_samples
         self.random_state = random_state
 
+    @atomic_fit
     def fit(self, X, y):
         """Fits the WDRO classifier.
 
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 55491e1..64a6d8e 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -17,7 +17,7 @@ import skwdro.solvers.entropic_dual_torch as entTorch
 from skwdro.base.cost_decoder import cost_from_str
 from skwdro.wrap_problem import dualize_primal_loss
 from skwdro.base.samplers.torch.base_samplers import seeded_rng
-from skwdro.solvers.utils import Steps, detach_tensor
+from skwdro.solvers.utils import atomic_fit, Steps, detach_tensor
 
 
 class CustomNewsvendorLoss(nn.Module):
@@ -108,6 +108,7 @@ class NewsVendor(BaseEstimator):
         self.n_iter = n_iter
         self.opt_cond = opt_cond
 
+    @atomic_fit
     def fit(self, X, y=None):
         """Fits a WDRO model
 
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 2e676a0..bcba8fb 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -11,7 +11,7 @@ from typing import Optional
 
 from skwdro.base.problems import EmpiricalDistributionWithoutLabels
 from skwdro.base.losses_torch.portfolio import SimplePortfolio
-from skwdro.solvers.utils import Steps, detach_tensor
+from skwdro.solvers.utils import atomic_fit, Steps, detach_tensor
 from skwdro.wrap_problem import dualize_primal_loss
 from skwdro.base.samplers.torch.base_samplers import seeded_rng
 
@@ -136,6 +136,7 @@ class Portfolio(BaseEstimator):
         self.n_iter = n_iter
         self.opt_cond = opt_cond
 
+    @atomic_fit
     def fit(self, X, y=None):
         """Fits the WDRO regressor.
 
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..dae066b 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -11,7 +11,7 @@ from typing import Optional
 
 from skwdro.solvers.optim_cond import OptCondTorch
 
-from skwdro.solvers.utils import Steps, detach_tensor
+from skwdro.solvers.utils import atomic_fit, Steps, detach_tensor
 from skwdro.base.problems import EmpiricalDistributionWithLabels
 from skwdro.base.losses_torch.weber import SimpleWeber
 from skwdro.wrap_problem import dualize_primal_loss
@@ -89,6 +89,7 @@ class Weber(BaseEstimator):
         self.n_iter = n_iter
         self.opt_cond = opt_cond
 
+    @atomic_fit
     def fit(self, X, y):
         """Fits a Weber WDRO model
 
diff --git a/skwdro/solvers/utils.py b/skwdro/solvers/utils.py
index 15b7f6b..2833c8e 100644
--- a/skwdro/solvers/utils.py
+++ b/skwdro/solvers/utils.py
@@ -1,3 +1,4 @@
+from functools import wraps
 from typing import Union, Optional, Tuple
 import numpy as np
 import torch as pt
@@ -6,6 +7,22 @@ import torch as pt
 Steps = Union[int, Tuple[int, int]]
 
 
+def atomic_fit(fit):
+    """
+    Decorator for the ``fit`` method of the estimators, which puts the estimator
+    back in the state of its last complete fit if this one does not finish.
+    """
+    @wraps(fit)
+    def wrapped_fit(self, *args, **kwargs):
+        state = self.__dict__.copy()
+        try:
+            return fit(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = state
+            raise
+    return wrapped_fit
+
+
 def detach_tensor(tensor: pt.Tensor) -> np.ndarray:
     out = tensor.detach().cpu().numpy().flatten()
     assert isinstance(out, np.ndarray)
-- 
2.43.0


From abb4f58850f927792371e1f29245cd7c7005d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:38 +0000
Subject: [PATCH 16/25] fix: put the dual loss back in its modes when a
 pre-sampled solve fails

The warm-up switches the loss to the plain risk, and the evaluation of the
'param' metric turns importance sampling off and the model to evaluation mode.
An error in between left the loss in that state, and models given in
evaluation mode always came back in training mode.
---
 skwdro/solvers/entropic_dual_torch.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 8aa668a..d46d250 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -170,9 +170,13 @@ def optim_presample(
             objective.backward()
 
         else:
+            training_modes = [(m, m.training) for m in loss.modules()]
             loss.eval()
-            objective = loss(xi, xi_labels, zeta, zeta_labels)
-            loss.train()
+            try:
+                objective = loss(xi, xi_labels, zeta, zeta_labels)
+            finally:
+                for module, mode in training_modes:
+                    module.training = mode
 
         assert isinstance(objective, pt.Tensor)
         return objective.item()
@@ -182,12 +186,14 @@ def optim_presample(
 
     # Pretrain ERM
     loss.erm_mode = True
-    for _ in range(pretrain_iters):
-        optimizer.step(closure)
+    try:
+        for _ in range(pretrain_iters):
+            optimizer.step(closure)
 
-    # Init lambda
-    loss.get_initial_guess_at_dual(xi, xi_labels)
-    loss.erm_mode = False
+        # Init lambda
+        loss.get_initial_guess_at_dual(xi, xi_labels)
+    finally:
+        loss.erm_mode = False
 
     if hasattr(optimizer, "reset_lbd_state"):
         optimizer.reset_lbd_state()  # type: ignore
@@ -205,8 +211,10 @@ def optim_presample(
             with pt.no_grad():
                 _is = loss.imp_samp
                 loss.imp_samp = False  # Shut down IS if it is on.
-                losses.append(closure(False))
-                loss.imp_samp = _is  # Put it back on if it used to be.
+                try:
+                    losses.append(closure(False))
+                finally:
+                    loss.imp_samp = _is  # Put it back on if it used to be.
                 del _is
         if math.isnan(losses[-1]):
             warn(
-- 
2.43.0


From dd0fb45a24706cee3a1ef48e4dc82fa66807f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:23 +0000
Subject: [PATCH 17/25] fix: restore the model when importance sampling is
 interrupted while being set up

The model was put in evaluation mode, and frozen, before entering the blocks
that put it back.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index 539270f..784503c 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -108,7 +108,6 @@ class _SampleDisplacer(_SampledDualLoss):
         """
         model = self.primal_loss
         training_modes = [(m, m.training) for m in model.modules()]
-        model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
 
@@ -156,6 +155,7 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         try:
+            model.eval()  # Deactivate batch-norms & dropouts
             psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
         finally:
             for module, mode in training_modes:
@@ -197,9 +197,9 @@ class _SampleDisplacer(_SampledDualLoss):
 
         # Freeze the parameters before differentiation wrt xi
         trainable = [p for p in self.primal_loss.parameters() if p.requires_grad]
-        self.freeze()
 
         try:
+            self.freeze()
             # "Dual" samples for forward pass, to get the gradients wrt them
             grad_xi, grad_xi_labels = self.compute_functional_grads(
                 xi.unsqueeze(0),
-- 
2.43.0


From af6615bd8db36ea1f9569edabee9dcd07abc97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:01 +0000
Subject: [PATCH 18/25] fix: raise when a dedicated solver returns no or
 not-a-number values

---
 skwdro/solvers/specific_solvers.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index 0071a64..edee4fd 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -5,6 +5,12 @@ import cvxpy as cp
 from skwdro.solvers.result import wrap_solver_result
 
 
+def _check_solution(name, *values):
+    """Raise unless the convex solver found a value for every variable."""
+    if any(value is None or np.isnan(value).any() for value in values):
+        raise ValueError(f"No solution found for the {name} problem")
+
+
 @wrap_solver_result
 def WDRONewsvendorSpecificSolver(k=5., u=7., rho=1.0, samples=None):
     assert samples is not None
@@ -106,6 +112,8 @@ def SAANewsvendorSpecificSolver2(k=5., u=7., samples=None):
 
     problem.solve(verbose=False, solver='ECOS')
 
+    _check_solution("newsvendor", beta.value)
+
     return beta.value[n], 0.
 
 
@@ -131,6 +139,8 @@ def WDROLogisticSpecificSolver(
 
         result = problem.solve(verbose=False)
 
+        _check_solution("logistic regression", beta.value)
+
         return beta.value[:d], beta.value[d + 1 + n], beta.value[d], result
     else:
         beta = cp.Variable(d + 1 + n)
@@ -148,6 +158,8 @@ def WDROLogisticSpecificSolver(
 
         result = problem.solve(verbose=False, solver='SCS')
 
+        _check_solution("logistic regression", beta.value)
+
         return beta.value[:d], 0.0, beta.value[d], result
 
 
@@ -173,9 +185,7 @@ def WDROLinRegSpecificSolver(rho: float = 1.0, X: np.ndarray = np.array(
 
     problem.solve(verbose=False, solver='CLARABEL')
 
-    if coeff.value is None or np.isnan(sum(coeff.value)):
-        raise ValueError(
-            "No solution found for the linear regression problem")
+    _check_solution("linear regression", coeff.value, intercept.value)
 
     return coeff.value, intercept.value, None
 
@@ -232,8 +242,7 @@ def WDROPortfolioSpecificSolver(
     problem = cp.Problem(cp.Minimize(obj), constraints=constraints)
     result = problem.solve(solver='CLARABEL')
 
-    if theta.value is None or np.isnan(sum(theta.value)):
-        raise ValueError(
-            "No solution exists for the Mean-Risk Portfolio problem")
+    _check_solution(
+        "Mean-Risk Portfolio", theta.value, tau.value, lam.value)
 
     return theta.value, tau.value, lam.value, result
-- 
2.43.0


From d16bebda0ce1d335e05a8c05e885b5d90b81a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:24 +0000
Subject: [PATCH 19/25] fix: let portfolio estimators fitted by the entropic
 solvers be serialized

---
 skwdro/base/losses_torch/portfolio.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skwdro/base/losses_torch/portfolio.py b/skwdro/base/losses_torch/portfolio.py
index 1feef36..052d34f 100644
--- a/skwdro/base/losses_torch/portfolio.py
+++ b/skwdro/base/losses_torch/portfolio.py
@@ -33,3 +33,22 @@ class SimplePortfolio(nn.Module):
         cvar = self.tau + fl.relu(-returns - self.tau) / self.alpha
         assert isinstance(returns, pt.Tensor) and isinstance(cvar, pt.Tensor)
         return -returns + self.eta * cvar
+
+    def __getstate__(self):
+        # Parametrized modules cannot be serialized, their parameter can
+        state = self.__dict__.copy()
+        state["_modules"] = {
+            k: m for k, m in self._modules.items() if k != "assets"
+        }
+        state["_investment"] = self.assets.parametrizations.weight.original
+        return state
+
+    def __setstate__(self, state):
+        state = dict(state)
+        investment = state.pop("_investment")
+        super(SimplePortfolio, self).__setstate__(state)
+        assets = nn.utils.skip_init(
+            nn.Linear, investment.shape[-1], 1, bias=False)
+        assets.weight = investment
+        pz.register_parametrization(assets, "weight", nn.Softmax(dim=-1))
+        self.assets = assets.train(self.training)
-- 
2.43.0


From 5ca92c8cc250ae1070f58a62e74575e075176283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:22 +0000
Subject: [PATCH 20/25] fix: keep the parts of the composite optimizer when it
 is copied or serialized

---
 skwdro/solvers/oracle_torch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 1e95cb5..c5f79d4 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -56,9 +56,9 @@ class CompositeOptimizer(pt.optim.Optimizer):
         super(CompositeOptimizer, self).__init__(chain(params, [lbd]), {})
 
     def __getstate__(self) -> Dict[str, object]:
-        s = {key: val.__getstate__() for key, val in self.opts.items()}
-        s['init_state_lbd'] = self.init_state_lbd
-        s["defaults"] = {}
+        s = super(CompositeOptimizer, self).__getstate__()
+        for key in ('lbd', 'opts', 'schedulers', 'init_state_lbd'):
+            s[key] = getattr(self, key)
         return s
 
     @overload
-- 
2.43.0


From 3873aa7bfba840ea822dd18eaf0ead7aa63a5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:20 +0000
Subject: [PATCH 21/25] fix: copied or unpickled dual losses keep projecting
 the multiplier and can step with LBFGS

---
 .../_dual_interfaces/_misc_dual_interfaces.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 4229679..4953808 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -305,6 +305,25 @@ class _OptimizeableDual(_DualLossBase):
         with pt.no_grad():
             self._lam.clamp_(0., None)
 
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        hooks = getattr(self._opti, '_optimizer_step_post_hooks', {})
+        state['_projects_lam'] = self._project_lam in hooks.values()
+        return state
+
+    def __setstate__(self, state):
+        projects_lam = state.pop('_projects_lam', False)
+        super().__setstate__(state)
+        opti = self._opti
+        if isinstance(opti, pt.optim.LBFGS):
+            # LBFGS does not serialize the list of its parameters
+            group = opti.param_groups[0]
+            self._opti = pt.optim.LBFGS(**group)
+            self._opti.load_state_dict(opti.state_dict())
+        if projects_lam:
+            # Optimizers do not serialize their hooks
+            self._opti.register_step_post_hook(self._project_lam)
+
     @property
     def optimizer(self) -> pt.optim.Optimizer:
         """ optimizer set up by the user
-- 
2.43.0


From 07f7a5d952570fe058367fd719e01fe01ed38d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:29:31 +0000
Subject: [PATCH 22/25] fix: an interrupt while the radius is converted is not
 turned into a type error

---
 skwdro/linear_models/_linear_regression.py   | 2 +-
 skwdro/linear_models/_logistic_regression.py | 2 +-
 skwdro/operations_research/_newsvendor.py    | 2 +-
 skwdro/operations_research/_portfolio.py     | 2 +-
 skwdro/operations_research/_weber.py         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 8c41588..c56b379 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -148,7 +148,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         if self.rho is not float:
             try:
                 self.rho = float(self.rho)
-            except BaseException:
+            except Exception:
                 raise TypeError(
                     f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 20f470c..ec215f9 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -160,7 +160,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         if not isinstance(self.rho, float):
             try:
                 self.rho = float(self.rho)
-            except BaseException:
+            except Exception:
                 raise TypeError(
                     ' '.join([
                         "The uncertainty radius rho should be",
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 64a6d8e..36a41d1 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -132,7 +132,7 @@ class NewsVendor(BaseEstimator):
         if self.rho is not float:
             try:
                 self.rho = float(self.rho)
-            except BaseException:
+            except Exception:
                 raise TypeError(
                     f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index bcba8fb..ba28c65 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -156,7 +156,7 @@ class Portfolio(BaseEstimator):
         if self.rho is not float:
             try:
                 self.rho = float(self.rho)
-            except BaseException:
+            except Exception:
                 raise TypeError(
                     f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index dae066b..d53a8f8 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -111,7 +111,7 @@ class Weber(BaseEstimator):
         if self.rho is not float:
             try:
                 self.rho = float(self.rho)
-            except BaseException:
+            except Exception:
                 raise TypeError(
                     f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
-- 
2.43.0


From a4e1da3284b158581e6a1eb36da3eeb09288aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:29:31 +0000
Subject: [PATCH 23/25] fix: labels drawn from a point mass do not share memory
 with its centre

---
 skwdro/base/samplers/torch/classif_sampler.py | 2 +-
 skwdro/distributions/dirac_distribution.py    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 2766e9b..0ec6a96 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -131,7 +131,7 @@ class ClassificationNormalIdSampler(LabeledSampler, IsOptionalCovarianceSampler)
         """
         Just get as many labels as data points (n_sample).
         """
-        return self.labels_s.mean.unsqueeze(0).expand(n_sample, -1, -1)
+        return self.labels_s.mean.unsqueeze(0).expand(n_sample, -1, -1).clone()
 
     def reset_mean(
         self,
diff --git a/skwdro/distributions/dirac_distribution.py b/skwdro/distributions/dirac_distribution.py
index f098adb..ba626f6 100644
--- a/skwdro/distributions/dirac_distribution.py
+++ b/skwdro/distributions/dirac_distribution.py
@@ -82,7 +82,8 @@ class Dirac(dst.ExponentialFamily):
 
     def rsample(self, sample_shape: Shapeoid = pt.Size()) -> pt.Tensor:
         sample_shape = cast_to_size(sample_shape)
-        return self.loc.expand(self._extended_shape(sample_shape))
+        # (not a view, so that writing to the draws does not move the mass)
+        return self.loc.expand(self._extended_shape(sample_shape)).clone()
 
     def log_prob(self, value: pt.Tensor) -> pt.Tensor:
         return (
-- 
2.43.0


From 8b1da8c3da00aac4ded73f5afbbd857890f9690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:03:08 +0000
Subject: [PATCH 24/25] fix: let a process be forked while another thread draws
 samples

The lock that keeps the draws of threads apart could be held by another
thread at the moment of a fork. The forked process does not have that
thread, so its first draw waited for ever. Forks now wait until no draw
is under way.
---
 skwdro/base/samplers/torch/base_samplers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index 86bc7cf..07fa69c 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -3,6 +3,7 @@ from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from threading import RLock
 
+import os
 import random
 import torch as pt
 
@@ -12,6 +13,15 @@ import skwdro.distributions as dst
 # holds this lock until its draws are made, so that threads do not mix streams.
 RNG_LOCK = RLock()
 
+# Fork between draws only: the lock held by a thread that the child process
+# does not have would never be released there.
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(
+        before=RNG_LOCK.acquire,
+        after_in_parent=RNG_LOCK.release,
+        after_in_child=RNG_LOCK.release
+    )
+
 
 @contextmanager
 def seeded_rng(seed: Optional[int]):
-- 
2.43.0


From 5b45bd1554d9fffbb626fc220721226bdc58c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:23:30 +0000
Subject: [PATCH 25/25] fix: leave the options of cvxopt as the caller set them

---
 skwdro/solvers/specific_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index edee4fd..0fa1329 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -82,8 +82,8 @@ def SAANewsvendorSpecificSolver(k=5., u=7., samples=None):
 
     # _____________ solving the LP problem ______________
 
-    solvers.options['show_progress'] = False
-    solution = solvers.lp(c, G, h)
+    options = {**solvers.options, 'show_progress': False}
+    solution = solvers.lp(c, G, h, options=options)
     theta = np.array(solution['x'])[0]
     # s = np.array(solution['x'])[1:n]
     dual_fun = np.array(solution['primal objective'])
-- 
2.43.0

