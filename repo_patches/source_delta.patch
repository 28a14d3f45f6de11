From 29a0ebef9e9ea95e1026206b9fece5ad81125894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 01/22] fix: make GaussianMCM dependence threshold independent
 of measurement units

The statistic mixed covariance and correlation, so rescaling a variable
changed the estimated graph.
---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..9a16aaa 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # should never be <= 0?
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From 9932050724daf7282d808c650efa665b89640159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 02/22] fix: write the training log inside the chosen directory

Without a trailing separator in path the log ended up next to it.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 9a16aaa..5fdb453 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -179,7 +179,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From c68d4bacfd6a06af5135b61da221b93c8c9af49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 03/22] fix: return to training mode at the start of every
 epoch

Validation leaves the network in evaluation mode, so every epoch after the
first was trained without the latent noise.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 5fdb453..e1b81b8 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -272,12 +272,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
+            model.train()
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
             for x_batch, _ in train_loader:
-- 
2.43.0


From 17ecb7a1b7eb17bbd86d5768bc9b7ab6b2b74ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 04/22] fix: seed torch from the seed argument in
 NeuroCausalFactorAnalysis.fit

---
 medil/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/models.py b/medil/models.py
index e1b81b8..bb1155f 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -202,6 +202,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         valid_loader = self._data_loader(valid_split)
 
         np.random.seed(self.seed)
+        torch.manual_seed(self.seed)
 
         model_recon, loss_recon, error_recon = self._train_vae(
             train_loader, valid_loader
-- 
2.43.0


From ccdfcc17ad69e35b589c926a8b13c3c3da49eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 05/22] fix: register the decoder's hidden layers and masks
 with the module

Layers in a plain dict and masks in a plain attribute are invisible to
parameters(), to() and state_dict(), so they were never trained, moved or saved.
---
 medil/vae.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..0d3c93d 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,26 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
+        self.mean_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
+        self.cov_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
@@ -160,7 +164,7 @@ class SparseLinear(nn.Module):
         super(SparseLinear, self).__init__()
         self.in_features = in_features
         self.out_features = out_features
-        self.mask = mask
+        self.register_buffer("mask", mask)
         self.weight = Parameter(
             torch.empty((out_features, in_features), **factory_kwargs)
         )
-- 
2.43.0


From b0ae4376f3a72e42602c23ca171f80bea69c3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 06/22] fix: draw the random graph of sample.mcm from the
 generator passed to it

---
 medil/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..c27c8c4 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,7 +14,7 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
-- 
2.43.0


From 6165f0ccbc6ddad8239354e22b01eda6ddeecd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 07/22] fix: reject unknown independence tests instead of
 failing on an unbound name

---
 medil/independence_testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..8a23031 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -56,7 +56,7 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
         udg = test_val >= crit_val
         p_vals = None
     elif method == "g-test":
-        pass
+        raise NotImplementedError("Method 'g-test' is not implemented.")
     else:
         p_vals = np.zeros((num_feats, num_feats), float)
         idxs, jdxs = np.triu_indices(num_feats, 1)
@@ -66,6 +66,8 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
             test = dcor_test
         elif method == "xicor":
             test = xicor_test
+        else:
+            raise ValueError(f"Method '{method}' is invalid.")
         with Pool(max(1, int(0.75 * cpu_count()))) as p:
             p_vals[idxs, jdxs] = p_vals[jdxs, idxs] = np.fromiter(
                 p.imap(test, sample_iter, 100), float
-- 
2.43.0


From 3800c3769f96cf4c907a4a37eb7c93a9e11aecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 08/22] fix: reject unknown parameterizations in Parameters

---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index bb1155f..75b2f07 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -59,6 +59,8 @@ class Parameters(object):
             self.weights = np.array([])
             with warnings.catch_warnings(action="ignore"):
                 self.vae = VariationalAutoencoder(0, 0, 0, 0)
+        else:
+            raise ValueError(f"Parameterization '{parameterization}' is invalid.")
 
     def __str__(self) -> str:
         return "\n".join(
-- 
2.43.0


From add2ff135493d2033d7aec4899332df4b63547aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 09/22] fix: make uncovered edges hashable in
 find_heuristic_1pc

Any graph with an edge not covered by the initial cliques, such as the
5-cycle, failed with a TypeError.
---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..8f78042 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -246,7 +246,7 @@ def find_heuristic_1pc(graph):
 
     uncovered_edges = deque(
         {
-            edge
+            tuple(edge)
             for edge in np.argwhere(np.triu(graph, 1))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
-- 
2.43.0


From 4adc6b40f51e9e52b2ed4685d0d49aab34ab23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 10/22] fix: import the names that visualize uses but never
 defined

---
 medil/visualize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..cea2581 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -1,15 +1,18 @@
 """ Create and display various graphs, plots, and visualizations."""
 import numpy as np
 import matplotlib.pyplot as plt
+import pandas as pd
 import seaborn as sns
 import networkx as nx
 
+from .evaluate import recover_ug
+
 
 def show_obs_adj_mat(incidence_mat):
 
     fig, ax = plt.subplots()
 
-    adj_mat = get_adj_from_incidence(incidence_mat)
+    adj_mat = recover_ug(incidence_mat)
     plt.imshow(adj_mat)
 
     dim = adj_mat.shape[0]
-- 
2.43.0


From 5d5b22fd50addc592662da824040d1ad3133a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 11/22] fix: train on standardized data with an explicit split
 too

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 75b2f07..f1752a4 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -197,8 +197,8 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
                 standardized, train_size=0.7, random_state=self.seed
             )
         else:
-            train_split = dataset[split_idcs[0]]
-            valid_split = dataset[split_idcs[1]]
+            train_split = standardized[split_idcs[0]]
+            valid_split = standardized[split_idcs[1]]
 
         train_loader = self._data_loader(train_split)
         valid_loader = self._data_loader(valid_split)
-- 
2.43.0


From 4d3d56dcdc4541fa2b722b75dbb21e15f0f021a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 12/22] fix: keep DevMedil's estimates per method, where sample
 looks for them

sample always raised 'must be fitted before sampling' after a fit, and the
validation losses used whichever estimate came last.
---
 medil/models.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index f1752a4..2f1df38 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -521,14 +521,15 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
         return self
 
     def validation_mle(self, lambda_reg, mu_reg, data):
-        W = self.W_hat
-        D = self.D_hat
+        W = self.W_hat_mle
+        D = self.D_hat_mle
         Sigma_hat = np.cov(data, rowvar=False)
         Sigma = self.compute_sigma(W, D)
         Sigma_inv = np.linalg.inv(Sigma)
@@ -575,14 +576,15 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
         return self
 
     def validation_lse(self, lambda_reg, mu_reg, data):
-        W = self.W_hat
-        D = self.D_hat
+        W = self.W_hat_lse
+        D = self.D_hat_lse
         Sigma_hat = np.cov(data, rowvar=False)
         loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
         loss += lambda_reg * self.rho(W)
-- 
2.43.0


From 9cd779ec686ea7478f20e5c06dd1bf4f33f00ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 13/22] fix: evaluate the penalised LSE objective at the
 variances it reports

The reported variances are absolute values, the objective used raw ones.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 2f1df38..24893d8 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -558,7 +558,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0


From 08f600446faa4deb2d651b8ad8b9ee625aca1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 14/22] fix: accept latent graphs given as 0/1 integer matrices

An integer matrix was used as an index array instead of a mask.
---
 medil/models.py | 7 ++++---
 medil/sample.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 24893d8..6120285 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -86,7 +86,8 @@ class GaussianMCM(MedilCausalModel):
 
         cov = np.cov(self.dataset, rowvar=False)
 
-        num_weights = self.biadj.sum()
+        mask = self.biadj.astype(bool)
+        num_weights = mask.sum()
         num_err_vars = self.biadj.shape[1]
 
         def _objective(weights_and_err_vars):
@@ -94,7 +95,7 @@ class GaussianMCM(MedilCausalModel):
             err_vars = weights_and_err_vars[num_weights:]
 
             biadj_weights = np.zeros_like(self.biadj, float)
-            biadj_weights[self.biadj] = weights
+            biadj_weights[mask] = weights
 
             return (
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
@@ -107,7 +108,7 @@ class GaussianMCM(MedilCausalModel):
         self.parameters.error_variances = result.x[num_weights:]
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[mask] = result.x[:num_weights]
 
         return self
 
diff --git a/medil/sample.py b/medil/sample.py
index c27c8c4..b24dced 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -19,11 +19,12 @@ def mcm(
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
 
-        num_edges = biadj.sum()
+        mask = biadj.astype(bool)
+        num_edges = mask.sum()
         weights = (rng.random(num_edges) * 1.5) + 0.5
         weights[rng.choice((True, False), num_edges)] *= -1
         params.biadj_weights = np.zeros_like(biadj, float)
-        params.biadj_weights[biadj] = weights
+        params.biadj_weights[mask] = weights
 
         num_meas = biadj.shape[1]
         params.error_means = rng.random(num_meas) * 2
-- 
2.43.0


From f69abd548fb0f137c7d22b401e4ff9b31ff38d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 15/22] fix: do not share reduced_away between branches of the
 cover search

---
 medil/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..185550e 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -162,7 +162,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.get_edge = udg.get_edge
 
         if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+            self.reduced_away = udg.reduced_away.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
-- 
2.43.0


From d7037b096655eb52154122ff76b1e8828597da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 16/22] fix: do not modify the caller's adjacency matrix when
 editing edges

---
 medil/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 185550e..e7925cf 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -31,7 +31,7 @@ class UndirectedDependenceGraph(object):
 
     def __init__(self, adj_matrix, verbose=False):
         # doesn't behave well unless input is nparray
-        self.adj_matrix = adj_matrix
+        self.adj_matrix = np.array(adj_matrix)
         self.num_vertices = np.trace(adj_matrix)
         self.max_num_verts = len(adj_matrix)
         self.num_edges = np.triu(adj_matrix, 1).sum()
-- 
2.43.0


From 2dd13ac15ef6990681beb2cdc3da7b47c41ddafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 17/22] fix: do not modify the cover passed to
 reconstruct_cover

---
 medil/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/graph.py b/medil/graph.py
index e7925cf..68cf9e8 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -381,6 +381,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
+        the_cover = the_cover.copy()
         # add the reduced away vert to all covering cliques containing at least one of its prisoners
         to_expand = np.flatnonzero(self.reduced_away.sum(1))
         for vert in to_expand:
-- 
2.43.0


From 580f6f2eca59076e60cc8d6604e7a956a6893aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 18/22] fix: return a proper cover for graphs without edges

The adjacency matrix itself was returned, in the caller's dtype.
---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 8f78042..6eceeae 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -40,7 +40,7 @@ def find_clique_min_cover(graph, verbose=False):
         graph.make_aux()
     except ValueError:
         print("The input graph doesn't appear to have any edges!")
-        return graph.adj_matrix
+        return add_isolated_verts(np.zeros((0, graph.max_num_verts), bool))
 
     num_cliques = 1
     the_cover = None
-- 
2.43.0


From b328573e2fd101e76ca9821199fd26d5f1492f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 19/22] fix: do not truncate true loadings when the predicted
 ones are integers

---
 medil/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 7784dcb..372a542 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -53,7 +53,7 @@ def recover_ug(biadj_mat):
 
 
 def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, float)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
@@ -75,7 +75,7 @@ def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
 
 def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, float)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
-- 
2.43.0


From 3d22fb201462cdc7125d62ddc3aa8748d0090b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 20/22] fix: recover_ug returns a 0/1 graph for integer latent
 graphs too

The product of an integer biadjacency matrix with its transpose counts shared
latents, so the recovered graph had entries above 1 and was rejected by
find_heuristic_1pc, while the same matrix as booleans worked.
---
 medil/evaluate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 372a542..51b42bf 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -46,6 +46,7 @@ def recover_ug(biadj_mat):
     """
 
     # get the undirected graph from the directed graph
+    biadj_mat = biadj_mat.astype(bool)
     ug = biadj_mat.T @ biadj_mat
     np.fill_diagonal(ug, False)
 
-- 
2.43.0


From eb5bb983a78163949fdd49ecde97907ffcf69bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:56 +0000
Subject: [PATCH 21/22] fix: bring the fitted weights back to the host before
 converting them to numpy

On a machine with a GPU the network is trained on cuda:0 and fit ended in
TypeError: can't convert cuda:0 device type tensor to numpy.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 6120285..44100ab 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -216,7 +216,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         with open(os.path.join(self.path, "error_recon.pkl"), "wb") as handle:
             pickle.dump(error_recon, handle, protocol=pickle.HIGHEST_PROTOCOL)
         self.parameters.weights = (
-            model_recon.decoder.cov_linear_fulcon.weight.detach().numpy().T
+            model_recon.decoder.cov_linear_fulcon.weight.detach().cpu().numpy().T
         )
         self.parameters.vae = model_recon
         self.loss = {
-- 
2.43.0


From d54c6de58f853fb4737fc07a40a5200b945c4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:38 +0000
Subject: [PATCH 22/22] fix: reducible copies lacked max_num_verts, so
 exporting one or building its tables failed

---
 medil/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/graph.py b/medil/graph.py
index 68cf9e8..e041c2f 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -142,6 +142,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.unreduced = udg.unreduced if hasattr(udg, "unreduced") else udg
         self.adj_matrix = udg.adj_matrix.copy()
         self.num_vertices = udg.num_vertices
+        self.max_num_verts = udg.max_num_verts
         self.num_edges = udg.num_edges
 
         self.the_cover = None
-- 
2.43.0

