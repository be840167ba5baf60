From 68528f9e24ac9c89118c9490ed22ec876913da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 01/12] fix: undo the sub-layers of a RQSpline layer in reverse
 order in inverse

forward applies layers[0] then layers[1]; inverse applied the inverses in the
same order, so once the scalar affine layer is trained away from the identity
inverse(forward(x)) != x and log_prob is not the density of sample().
---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From 6803ebb605f2b91da909cc3b54e8389ffa6c18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 02/12] fix: evaluate the base density of the flow matching
 solver at the base point

Solver.log_prob integrates the ODE back to x0 but evaluated the Gaussian at x1,
so exp(log_prob) was not a normalised density.
---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..db29b54 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0,
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From ee0a7e08fc00c2d68d75d58860c065321f1f5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 03/12] fix: advance the buffer position by the number of
 thinned samples written

[::thinning] keeps ceil(n_steps / thinning) samples while the position advanced
by, and the bundles allocated, floor(n_steps / thinning): when thinning does not
divide n_steps later segments overwrote earlier samples.
---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA.py    | 8 ++++----
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 8 ++++----
 src/flowMC/strategy/take_steps.py                       | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
index 0af672b..c4f6afd 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
@@ -55,12 +55,12 @@ class RQSpline_MALA_Bundle(ResourceStrategyBundle):
         verbose: bool = False,
     ):
         n_training_steps = (
-            n_local_steps // local_thinning * n_training_loops
-            + n_global_steps // global_thinning * n_training_loops
+            -(-n_local_steps // local_thinning) * n_training_loops
+            + -(-n_global_steps // global_thinning) * n_training_loops
         )
         n_production_steps = (
-            n_local_steps // local_thinning * n_production_loops
-            + n_global_steps // global_thinning * n_production_loops
+            -(-n_local_steps // local_thinning) * n_production_loops
+            + -(-n_global_steps // global_thinning) * n_production_loops
         )
         n_total_epochs = n_training_loops * n_epochs
 
diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index af97302..ed04f1e 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -66,12 +66,12 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
         verbose: bool = False,
     ):
         n_training_steps = (
-            n_local_steps // local_thinning * n_training_loops
-            + n_global_steps // global_thinning * n_training_loops
+            -(-n_local_steps // local_thinning) * n_training_loops
+            + -(-n_global_steps // global_thinning) * n_training_loops
         )
         n_production_steps = (
-            n_local_steps // local_thinning * n_production_loops
-            + n_global_steps // global_thinning * n_production_loops
+            -(-n_local_steps // local_thinning) * n_production_loops
+            + -(-n_global_steps // global_thinning) * n_production_loops
         )
         n_total_epochs = n_training_loops * n_epochs
 
diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..3f38cad 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -140,7 +140,7 @@ class TakeSteps(Strategy):
         position_buffer.update_buffer(positions, self.current_position)
         log_prob_buffer.update_buffer(log_probs, self.current_position)
         acceptance_buffer.update_buffer(do_accepts, self.current_position)
-        self.current_position += self.n_steps // self.thinning
+        self.current_position += positions.shape[1]
         return rng_key, resources, positions[:, -1]
 
 
-- 
2.43.0


From 639d209d0decd9e718f141b3d0f092eb02017254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 04/12] fix: make State.load_resource able to load what
 save_resource wrote

The dictionary is stored as an object array, which np.load refuses without
allow_pickle, and the constructor arguments were swapped.
---
 src/flowMC/resource/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..1664c85 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -58,6 +58,6 @@ class State(Resource):
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        data = np.load(path, allow_pickle=True)
+        result = State(data["data"].item(), str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 9f459b15bd0d0f33d349864eb354fae00a284ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 05/12] fix: keep cursor, cursor_dim and name when saving and
 loading a Buffer

---
 src/flowMC/resource/buffers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..d53d872 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,15 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
         buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
-        result.data = buffer
+        cursor_dim = int(data["cursor_dim"]) if "cursor_dim" in data else 0
+        result = Buffer(str(data["name"]), buffer.shape, cursor_dim)
+        result.data = jnp.asarray(buffer)
+        result.cursor = int(data["cursor"]) if "cursor" in data else 0
         return result  # type: ignore
-- 
2.43.0


From 490fd80ac1ace9b3370d8e073c65b408041802d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 06/12] fix: use the model's base distribution in
 RealNVP.log_prob

sample draws from base_dist but log_prob always used the standard normal, so a
RealNVP with a user base_dist reported the density of a different distribution.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..d1080b3 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -217,9 +217,7 @@ class RealNVP(NFModel):
         # TODO: Check whether taking away vmap hurts accuracy.
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From ef77d15778c7fbe2ab1b89a728bcc69d56d7d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 07/12] fix: include the whitening Jacobian in the normalizing
 flow log_prob

log_prob whitens x by the data standard deviation without its log determinant,
so exp(log_prob) integrates to prod(std) instead of 1.
---
 src/flowMC/resource/model/nf_model/realNVP.py  | 1 +
 src/flowMC/resource/model/nf_model/rqSpline.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index d1080b3..734fc33 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -218,6 +218,7 @@ class RealNVP(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
         return log_det
 
     def print_parameters(self):
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..ee5ad3b 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -501,6 +501,7 @@ class MaskedCouplingRQSpline(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From b6f28cd41117ccc7723fa0611e32be9bac27b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 08/12] fix: make the RealNVP masks boolean so that weight
 decay cannot erode them

AdamW decays every float leaf, including the 0/1 masks; after training the masks
were not 0/1 any more and inverse(forward(x)) != x.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 734fc33..344f097 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -166,7 +166,7 @@ class RealNVP(NFModel):
             mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
             scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
             shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
-            return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask)
+            return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask.astype(bool))
 
         keys = jax.random.split(key, n_layers)
         self.affine_coupling = eqx.filter_vmap(make_layer)(jnp.arange(n_layers), keys)
-- 
2.43.0


From 9ccb27d4a03c2349cbf6eff47adb39bd44923854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 09/12] fix: match the HMC kinetic energy to the momentum
 distribution

Momenta are drawn with covariance inv(condition_matrix), whose energy is
p^T M p / 2; the elementwise p**2 * M sum is only right for a diagonal M, and the
sampled distribution was wrong for any other one.
---
 src/flowMC/resource/kernel/HMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..de1a064 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -118,7 +118,7 @@ class HMC(ProposalBase):
         def kinetic(
             p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
-- 
2.43.0


From c80cecd58dcdff8a64bcf5db58a2b8a4f00ba4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 10/12] fix: accept the scalar (default) condition_matrix in
 the HMC kernel

jnp.linalg.inv rejects the default condition_matrix=1, so HMC() could not sample.
---
 src/flowMC/resource/kernel/HMC.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index de1a064..0c43186 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -127,19 +127,20 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
-        momentum: Float[Array, " n_dim"] = (
-            jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
-        )
-        momentum = jnp.dot(
+        metric = jnp.asarray(self.condition_matrix)
+        if metric.ndim == 0:
+            metric = metric * jnp.eye(position.shape[-1])
+
+        momentum: Float[Array, " n_dim"] = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From f250e487219469cf06867c1f9235c07a2ac06842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 11/12] fix: keep the tempered replicas when not training

Outside training the exchanged replicas were thrown away and every call restarted
them from the same stale positions while keeping the cold chain's swaps, which
does not leave the joint tempered distribution invariant. Only the temperature
adaptation depends on training.
---
 src/flowMC/strategy/parallel_tempering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..d788302 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,9 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
-        if state.data["training"]:
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        if state.data["training"]:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 22810e2edcc5faaffa195f34c001f5e0b42c265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 12/12] fix: include the log prior in the target of the PT
 bundle's steppers

The cold tempered chain targets logpdf + logprior while the local and global
steppers targeted logpdf only, so with a non-constant logprior no single
distribution was left invariant.
---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index ed04f1e..9e50e5f 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -109,11 +109,15 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
             model, n_NFproposal_batch_size=n_NFproposal_batch_size
         )
         optimizer = Optimizer(model=model, learning_rate=learning_rate)
-        logpdf = LogPDF(logpdf, n_dims=n_dims)
+        log_likelihood = LogPDF(logpdf, n_dims=n_dims)
+        logpdf = LogPDF(
+            lambda x, data: log_likelihood(x, data) + logprior(x, data),
+            n_dims=n_dims,
+        )
 
         # Here are the resources for the parallel tempering
         tempered_logpdf = TemperedPDF(
-            logpdf,
+            log_likelihood,
             logprior,
             n_dims=n_dims,
             n_temps=n_temperatures,
-- 
2.43.0

