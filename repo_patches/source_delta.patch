From 633980dc8784848673c0f450da2974d76385276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 01/48] fix: LinsumLayer2 sampling dropped the last feature
 when the number of features is odd

---
 simple_einet/layers/linsum.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index ecd47ac..7830c81 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -318,10 +318,6 @@ class LinsumLayer2(AbstractSumLayer):
             indices = indices.view(ctx.num_samples, -1)
 
 
-        if self._pad > 0:
-            # Cut off dummy marginalized RVs
-            indices = indices[:, : -self._pad]
-
         return indices
 
     def _condition_weights_on_evidence(self, ctx, log_weights):
-- 
2.43.0


From 61cb0b958a8f325e38ffb4b35e6cec859af8eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 02/48] fix: RatNormal ignored its mean bounds when max_mean is
 0

---
 simple_einet/layers/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/normal.py b/simple_einet/layers/distributions/normal.py
index 5a8273b..759b16c 100644
--- a/simple_einet/layers/distributions/normal.py
+++ b/simple_einet/layers/distributions/normal.py
@@ -105,7 +105,7 @@ class RatNormal(AbstractLeaf):
         else:
             sigma = 1.0
         means = self.means
-        if self.max_mean:
+        if self.max_mean is not None:
             assert self.min_mean is not None
             mean_range = self.max_mean - self.min_mean
             means = torch.sigmoid(self.means) * mean_range + self.min_mean
-- 
2.43.0


From abf4a391a88a02f849436d59750510540ba4ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 03/48] fix: NaN values outside of marginalized_scopes were not
 marginalized

---
 simple_einet/layers/distributions/abstract_leaf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 6b1edc4..671cf3f 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -257,9 +257,10 @@ class AbstractLeaf(AbstractLayer, ABC):
                 s = marginalized_scopes.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
-        else:
-            if torch.any(mask := torch.isnan(x)):
-                x[mask] = self.marginalization_constant
+
+        # Values that are missing outside of the given scopes are marginalized as well
+        if torch.any(mask := torch.isnan(x)):
+            x[mask] = self.marginalization_constant
 
         return x
 
-- 
2.43.0


From 46bbe0e54c9e0f1a4bdce0284138b1a7250e9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 04/48] fix: marginalized_scopes given as a list crashed
 multivariate leaves

---
 simple_einet/layers/distributions/abstract_leaf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 671cf3f..2bc8704 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -254,7 +254,7 @@ class AbstractLeaf(AbstractLayer, ABC):
 
             # Adjust for leaf cardinality
             if self.cardinality > 1:
-                s = marginalized_scopes.div(self.cardinality, rounding_mode="floor")
+                s = s.div(self.cardinality, rounding_mode="floor")
 
             x[:, :, s] = self.marginalization_constant
 
-- 
2.43.0


From 5358643f4588deda433119400d375b61a165558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 05/48] fix: sampling from Bernoulli leaves raised a TypeError

---
 simple_einet/layers/distributions/bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/bernoulli.py b/simple_einet/layers/distributions/bernoulli.py
index 7b52e05..0872f24 100644
--- a/simple_einet/layers/distributions/bernoulli.py
+++ b/simple_einet/layers/distributions/bernoulli.py
@@ -3,6 +3,7 @@ from torch import distributions as dist
 from torch import nn
 
 from simple_einet.layers.distributions.abstract_leaf import AbstractLeaf
+from simple_einet.sampling_utils import SamplingContext
 
 
 class Bernoulli(AbstractLeaf):
@@ -26,6 +27,6 @@ class Bernoulli(AbstractLeaf):
         # Create bernoulli parameters
         self.probs = nn.Parameter(torch.randn(1, num_channels, num_features, num_leaves, num_repetitions))
 
-    def _get_base_distribution(self):
+    def _get_base_distribution(self, ctx: SamplingContext = None):
         # Use sigmoid to ensure, that probs are in valid range
         return dist.Bernoulli(probs=torch.sigmoid(self.probs))
-- 
2.43.0


From 09759561bc3deb685c493e7e45f3151d8f319121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 06/48] fix: return_leaf_params crashed for more than one
 non-differentiable sample

---
 simple_einet/layers/distributions/abstract_leaf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 2bc8704..c6b7623 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -117,8 +117,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         if ctx.return_leaf_params:
             samples = distribution.get_params()
 
-            # Add batch dimension
-            samples = samples.unsqueeze(0)
+            # Add batch dimension: the parameters are shared by all samples
+            samples = samples.unsqueeze(0).expand(ctx.num_samples, *[-1] * samples.dim())
         else:
             if type(distribution) == dist.Normal:
                 distribution = dist.Normal(loc=distribution.loc, scale=distribution.scale * np.sqrt(ctx.temperature_leaves))
-- 
2.43.0


From 0c5aae51c6db0513f6ce8fb4983f372320a97a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 07/48] fix: return_leaf_params returned only the first
 parameter for non-differentiable samples

---
 simple_einet/layers/distributions/abstract_leaf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index c6b7623..7429d05 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -144,7 +144,7 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         samples = index_one_hot(samples, index=r_idxs, dim=-2)
     else:
         r_idxs = ctx.indices_repetition.view(-1, 1, 1, 1, 1, 1)
-        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, -1)
+        r_idxs = r_idxs.expand(-1, num_channels, num_features, num_leaves, -1, num_params)
         samples = samples.gather(dim=-2, index=r_idxs)
         samples = samples.squeeze(-2)
 
@@ -156,8 +156,8 @@ def dist_sample(distribution: dist.Distribution, ctx: SamplingContext = None) ->
         else:
             # Choose only specific samples for each feature/scope
             p_idxs = ctx.indices_out.view(-1, 1, num_features, 1, 1)
-            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, -1)
-            samples = samples.gather(dim=3, index=p_idxs).squeeze(-1)
+            p_idxs = p_idxs.expand(-1, num_channels, -1, -1, num_params)
+            samples = samples.gather(dim=3, index=p_idxs).squeeze(3)
 
     if ctx.return_leaf_params:
         return samples
-- 
2.43.0


From bc5b9ada7cbde585f9824935d09f8bf6d31833cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 08/48] fix: the Binomial mode was total_count + 1 for
 probabilities that are numerically one

---
 simple_einet/layers/distributions/abstract_leaf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/abstract_leaf.py b/simple_einet/layers/distributions/abstract_leaf.py
index 7429d05..a611adf 100644
--- a/simple_einet/layers/distributions/abstract_leaf.py
+++ b/simple_einet/layers/distributions/abstract_leaf.py
@@ -77,7 +77,8 @@ def dist_mode(distribution: dist.Distribution, ctx: SamplingContext = None) -> t
     elif isinstance(distribution, dist.Binomial) or isinstance(distribution, DifferentiableBinomial):
         mode = distribution.probs.clone()
         total_count = distribution.total_count
-        mode = torch.floor(mode * (total_count + 1))
+        # Probabilities that are numerically one would otherwise result in total_count + 1
+        mode = torch.floor(mode * (total_count + 1)).clamp(max=total_count)
         if mode.shape[0] == 1:
             return mode.repeat(ctx.num_samples, 1, 1, 1, 1)
         else:
-- 
2.43.0


From 74bf75384f8c13cd406e433f0813cb182e5b9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 09/48] fix: check_valid ignored bounds that are zero

---
 simple_einet/type_checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/type_checks.py b/simple_einet/type_checks.py
index 6394610..f98d10b 100644
--- a/simple_einet/type_checks.py
+++ b/simple_einet/type_checks.py
@@ -47,12 +47,12 @@ def _check_bounds(value: Any, expected_type, lower_bound=None, upper_bound=None)
         OutOfBoundsException: If the value is outside the specified bounds.
     """
     # Check lower bound
-    if lower_bound:
+    if lower_bound is not None:
         if not value >= expected_type(lower_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
     # Check upper bound
-    if upper_bound:
+    if upper_bound is not None:
         if not value < expected_type(upper_bound):
             raise OutOfBoundsException(value, lower_bound, upper_bound)
 
-- 
2.43.0


From f60ab3bda373f6a41af0420a91a4acc1974a56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 10/48] fix: FactorizedLeafSimple sampled features from the
 leaf channel of another group

---
 simple_einet/layers/factorized_leaf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index bfffc05..0851d4c 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -333,8 +333,8 @@ class FactorizedLeafSimple(AbstractLayer):
         if ctx.is_differentiable:
 
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -350,8 +350,8 @@ class FactorizedLeafSimple(AbstractLayer):
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
@@ -373,8 +373,8 @@ class FactorizedLeafSimple(AbstractLayer):
         num_params = params.shape[-1]  # Number of parameters, e.g. 2 for Normal (mu and sigma)
         if ctx.is_differentiable:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.cardinality, -1, -1)
+            indices_out = indices_out.unsqueeze(2)
+            indices_out = indices_out.expand(-1, -1, self.cardinality, -1)
             indices_out = indices_out.reshape(
                 indices_out.shape[0], self.num_features + self.num_dummy_nodes, indices_out.shape[-1]
             )
@@ -392,8 +392,8 @@ class FactorizedLeafSimple(AbstractLayer):
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-            indices_out = indices_out.unsqueeze(1).unsqueeze(1)
-            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, self.cardinality, -1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)
+            indices_out = indices_out.expand(-1, self.base_leaf.num_channels, -1, self.cardinality)
             indices_out = indices_out.reshape(indices_out.shape[0], self.base_leaf.num_channels, self.num_features + self.num_dummy_nodes)
 
             # Invert permutation
-- 
2.43.0


From 156d1a884a1b393546f93529d9b153ab641ef206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 11/48] fix: FactorizedLeafSimple could not return leaf
 parameters of differentiable samples

---
 simple_einet/layers/factorized_leaf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 0851d4c..205a063 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -386,9 +386,8 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
-            indices_out = indices_out.unsqueeze(-1)
+            indices_out = indices_out.unsqueeze(1).unsqueeze(-1)  # make space for num_channels and num_params dim
             params = params.squeeze(-2)  # remove repetition index
-            indices_out = indices_out.unsqueeze(-1)  # make space for num_channels dim
             params = index_one_hot(params, index=indices_out, dim=-2)
         else:
             # Unfold into "num_features" + "num_dummy_nodes" by repetition
-- 
2.43.0


From 6a0769167c09ff035e7b4b909c2145b3270d0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 12/48] fix: samples of factorized multivariate leaves mixed
 channels within a group

---
 simple_einet/layers/factorized_leaf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 205a063..7d0ec59 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -141,6 +141,7 @@ class FactorizedLeaf(AbstractLayer):
             scopes = index_one_hot(scopes, index=r_idx, dim=-1)
 
             indices_in = index_one_hot(indices_out.unsqueeze(1), index=scopes.unsqueeze(-1), dim=2)
+            indices_in = indices_in.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_in = indices_in.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_in, dim=-1)
         else:
@@ -152,7 +153,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1)
 
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             samples = samples.gather(dim=-1, index=indices_in_gather)
             samples.squeeze_(-1)  # Remove num_leaves dimension
         return samples
@@ -194,7 +195,7 @@ class FactorizedLeaf(AbstractLayer):
             indices_in_gather = indices_out.gather(dim=1, index=scopes)
             indices_in_gather = indices_in_gather.view(ctx.num_samples, 1, -1, 1, 1)
             indices_in_gather = indices_in_gather.expand(-1, self.base_leaf.num_channels, -1, -1, num_params)
-            indices_in_gather = indices_in_gather.repeat(1, 1, self.base_leaf.cardinality, 1, 1)
+            indices_in_gather = indices_in_gather.repeat_interleave(self.base_leaf.cardinality, dim=2)
             # indices_in_gather: [batch_size, num_channels, num_features, 1]  (last dim is index into num_leaves)
             params = params.gather(dim=-2, index=indices_in_gather)  # -2 is num_leaves dim
             params.squeeze_(-2)  # Remove num_leaves dimension
@@ -346,6 +347,8 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, : -self.num_dummy_nodes]
 
+            # All features of a multivariate leaf share the same index
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=1)
             indices_out = indices_out.unsqueeze(1)  # make space for channel dim
             samples = index_one_hot(samples, index=indices_out, dim=-1)
         else:
@@ -361,6 +364,8 @@ class FactorizedLeafSimple(AbstractLayer):
             if self.num_dummy_nodes > 0:
                 indices_out = indices_out[:, :, : -self.num_dummy_nodes]
 
+            # All features of a multivariate leaf share the same index
+            indices_out = indices_out.repeat_interleave(self.base_leaf.cardinality, dim=2)
             indices_out = indices_out.unsqueeze(-1)
             samples = samples.gather(index=indices_out, dim=-1)
             samples = samples.squeeze(-1)
-- 
2.43.0


From 6e0e5efe7cb90356592d0e3486da4d3ce600a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 13/48] fix: FactorizedLeaf sampled permuted channels when
 there is nothing to group

---
 simple_einet/layers/factorized_leaf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_einet/layers/factorized_leaf.py b/simple_einet/layers/factorized_leaf.py
index 7d0ec59..df3b95a 100644
--- a/simple_einet/layers/factorized_leaf.py
+++ b/simple_einet/layers/factorized_leaf.py
@@ -54,6 +54,9 @@ class FactorizedLeaf(AbstractLayer):
         scopes = torch.zeros(num_features, self.num_features_out, num_repetitions)
         for r in range(num_repetitions):
             idxs = torch.randperm(n=self.num_features)
+            if self.num_features == self.num_features_out:
+                # No grouping necessary, forward() keeps the order of the features
+                idxs = torch.arange(self.num_features)
             offset = 0
             for o in range(num_features_out):
                 group_size = group_sizes[o]
-- 
2.43.0


From d15402d6a76d52ab51f84f0e3e4555f777ec6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 14/48] fix: classes were sampled from random weights instead
 of the uniform prior

---
 simple_einet/einet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b26470e..52d2f7c 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -332,7 +332,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
@@ -465,7 +465,7 @@ class Einet(nn.Module):
                 num_sums_out=1,
                 num_repetitions=1,
             )
-            self._class_sampling_root.weights = nn.Parameter(
+            self._class_sampling_root.logits = nn.Parameter(
                 torch.log(
                     torch.ones(size=(1, self.config.num_classes, 1, 1)) * torch.tensor(1 / self.config.num_classes)
                 ),
-- 
2.43.0


From eea8eb0f7949fc3094d5b117ec734afcccd53118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 15/48] fix: sampling with a list of class indices or
 differentiably with a class index crashed

---
 simple_einet/einet.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 52d2f7c..b9d65d8 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -584,6 +584,9 @@ class Einet(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample per class index
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
@@ -623,10 +626,9 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
-                            indices.requireds_grad_(True)  # Enable gradients
-                        num_samples = indices.shape[0]
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
+                            indices.requires_grad_(True)  # Enable gradients
                     else:
                         indices = torch.empty(size=(num_samples, 1), dtype=torch.long, device=self.__device)
                         indices.fill_(class_index)
@@ -634,8 +636,8 @@ class Einet(nn.Module):
                             # TODO: Test this
                             # One hot encode
                             indices = torch.zeros(
-                                size=(num_samples, self.config.num_classes, 1), dtype=torch.float, device=self.__device
-                            ).scatter_(1, indices.unsqueeze(-1), 1)
+                                size=(num_samples, 1, self.config.num_classes), dtype=torch.float, device=self.__device
+                            ).scatter_(2, indices.unsqueeze(-1), 1)
                             indices.requires_grad_(True)  # Enable gradients
 
                     ctx.indices_out = indices
-- 
2.43.0


From 890c0e4a5f91a35c5b95bcbbc8846de7bc95dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 16/48] fix: conditional sampling ignored the evidence when
 choosing the class

---
 simple_einet/einet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index b9d65d8..2effdf4 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -195,6 +195,10 @@ class Einet(nn.Module):
             # Remove repetition index
             x = x.squeeze(-1)
 
+        # Let the class root see the class-conditional evidence when its input cache is enabled
+        if self.config.num_classes > 1 and self._class_sampling_root._is_input_cache_enabled:
+            self._class_sampling_root(x.unsqueeze(-1))
+
         # Remove feature dimension
         x = x.squeeze(1)
 
-- 
2.43.0


From 0b8e0998472c32a7733ddf829590e0d8b0e4a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 17/48] fix: dropout in sum layers could drop all children of a
 node or crash while resampling

---
 simple_einet/layers/linsum.py | 8 ++++++--
 simple_einet/layers/sum.py    | 8 +++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index 7830c81..a0b9f20 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -93,7 +93,9 @@ class LinsumLayer(AbstractSumLayer):
             invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
             while invalid_index.any():
                 # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                dropout_indices = torch.where(
+                    invalid_index.unsqueeze(2), self._bernoulli_dist.sample(prod_output.shape), dropout_indices
+                )
                 invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
@@ -293,7 +295,9 @@ class LinsumLayer2(AbstractSumLayer):
             invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
             while invalid_index.any():
                 # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
+                dropout_indices = torch.where(
+                    invalid_index.unsqueeze(2), self._bernoulli_dist.sample(prod_output.shape), dropout_indices
+                )
                 invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
             dropout_indices = torch.log(1 - dropout_indices)
             prod_output = prod_output + dropout_indices
diff --git a/simple_einet/layers/sum.py b/simple_einet/layers/sum.py
index 4080716..d67616d 100644
--- a/simple_einet/layers/sum.py
+++ b/simple_einet/layers/sum.py
@@ -68,11 +68,13 @@ class SumLayer(AbstractSumLayer):
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
             dropout_indices = self._bernoulli_dist.sample(x.shape)
-            invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
             while invalid_index.any():
                 # Resample only invalid indices
-                dropout_indices[invalid_index] = self._bernoulli_dist.sample(dropout_indices[invalid_index].shape)
-                invalid_index = dropout_indices.sum(3) == dropout_indices.shape[3]
+                dropout_indices = torch.where(
+                    invalid_index.unsqueeze(2), self._bernoulli_dist.sample(x.shape), dropout_indices
+                )
+                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
             dropout_indices = torch.log(1 - dropout_indices)
             x = x + dropout_indices
 
-- 
2.43.0


From abef18616be9d68e23284bc98dd6a10d9b8cc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 18/48] fix: EinsumLayer ignored its dropout argument and would
 have modified its input in place

---
 simple_einet/layers/einsum.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/einsum.py b/simple_einet/layers/einsum.py
index bb6e6a6..2b2a960 100644
--- a/simple_einet/layers/einsum.py
+++ b/simple_einet/layers/einsum.py
@@ -64,6 +64,7 @@ class EinsumLayer(AbstractSumLayer):
             num_repetitions=num_repetitions,
             num_sums_in=num_sums_in,
             num_sums_out=num_sums_out,
+            dropout=dropout,
         )
 
         # Create index map from flattened to coordinates (only needed in sampling)
@@ -115,8 +116,15 @@ class EinsumLayer(AbstractSumLayer):
 
         # Apply dropout: Set random sum node children to 0 (-inf in log domain)
         if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(x.shape).bool()
-            x[dropout_indices] = np.NINF
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices = torch.where(
+                    invalid_index.unsqueeze(2), self._bernoulli_dist.sample(x.shape), dropout_indices
+                )
+                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            x = x + torch.log(1 - dropout_indices)
 
         # Dimensions
         N, D, C, R = x.size()
-- 
2.43.0


From 59cfe17f5d251c2d8dd3ede97cdb6ebccdc23634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 19/48] fix: a failing sampling call left evidence caches
 enabled and the random state changed

---
 simple_einet/sampling_utils.py | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 852731e..6e46fc2 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -45,29 +45,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in spn.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = spn(evidence, marginalized_scopes)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in spn.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = spn(evidence, marginalized_scopes)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
         # Exit
         if evidence is not None:
             for module in spn.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 @dataclass
-- 
2.43.0


From 362f42ae96751e42f28c49b7848688239bef447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 20/48] fix: conditional samples kept NaN values outside of
 marginalized_scopes

---
 simple_einet/einet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 2effdf4..158171b 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -691,11 +691,10 @@ class Einet(nn.Module):
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
                 evidence = evidence.view_as(samples)
-                if marginalized_scopes is None:
-                    mask = torch.isnan(evidence)
-                    evidence[mask] = samples[mask].to(evidence.dtype)
-                else:
-                    evidence[:, :, marginalized_scopes] = samples[:, :, marginalized_scopes].to(evidence.dtype)
+                mask = torch.isnan(evidence)
+                if marginalized_scopes is not None:
+                    mask[:, :, marginalized_scopes] = True
+                evidence[mask] = samples[mask].to(evidence.dtype)
 
                 evidence = evidence.view(shape_evidence)
                 return evidence
-- 
2.43.0


From 2808b0268204d2e7eecb0587388efa01feb28ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 21/48] fix: inputs and evidence that are not contiguous in
 memory crashed

---
 simple_einet/einet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 158171b..94f500d 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -136,7 +136,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.view(x.shape[0], self.config.num_channels, -1)
+            x = x.reshape(x.shape[0], self.config.num_channels, -1)
 
         assert x.dim() == 3
         assert (
@@ -690,13 +690,13 @@ class Einet(nn.Module):
                 # First make a copy such that the original object is not changed
                 evidence = evidence.clone().float()
                 shape_evidence = evidence.shape
-                evidence = evidence.view_as(samples)
+                evidence = evidence.reshape(samples.shape)
                 mask = torch.isnan(evidence)
                 if marginalized_scopes is not None:
                     mask[:, :, marginalized_scopes] = True
                 evidence[mask] = samples[mask].to(evidence.dtype)
 
-                evidence = evidence.view(shape_evidence)
+                evidence = evidence.reshape(shape_evidence)
                 return evidence
             else:
                 return samples
-- 
2.43.0


From 8e44036b886a423110c9e0c7f947fb43ebf95e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 22/48] fix: rounding errors of one-hot repetition indices
 could break the permutation of differentiable samples

---
 simple_einet/einet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 94f500d..354ce6a 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -673,7 +673,7 @@ class Einet(nn.Module):
                     permutation_inv = self.permutation_inv.expand(num_samples, -1, -1)  # [N, R, D]
                     r_idxs = ctx.indices_repetition.unsqueeze(-1)  # Make space for feature dim
                     permutation_inv = index_one_hot(permutation_inv, r_idxs, dim=1)  # [N, D]
-                    permutation_inv = permutation_inv.unsqueeze(-1).expand(-1, -1, self.config.num_leaves).long()  # [N, D, I]
+                    permutation_inv = permutation_inv.unsqueeze(-1).expand(-1, -1, self.config.num_leaves).round().long()  # [N, D, I]
                     ctx.indices_out = ctx.indices_out.gather(index=permutation_inv, dim=1)
                 else:
                     permutation_inv = self.permutation_inv[ctx.indices_repetition]
-- 
2.43.0


From b3441c679ba3531bac2c4dc1ad51b4a7b8311d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 23/48] fix: bottom-up Einets of depth 0 could not be
 constructed

---
 simple_einet/einet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 354ce6a..0417d18 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -409,10 +409,11 @@ class Einet(nn.Module):
 
         if self.config.depth == 0:
             # Create a single sum layer
+            _num_sums_out = self.config.num_sums
             layer = SumLayer(
                 num_sums_in=self.config.num_leaves,
-                num_features=1,
-                num_sums_out=self.config.num_classes,
+                num_features=in_features,
+                num_sums_out=_num_sums_out,
                 num_repetitions=self.config.num_repetitions,
                 dropout=self.config.dropout,
             )
-- 
2.43.0


From c20dcacf0fa0b29933ed67ba5a36d3dbbdd0b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 24/48] fix: keep MultiDistributionLayer.get_params in feature
 order and reject scopes that are not a partition

---
 simple_einet/layers/distributions/multidistribution.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/distributions/multidistribution.py b/simple_einet/layers/distributions/multidistribution.py
index 5eefab4..8e261ac 100644
--- a/simple_einet/layers/distributions/multidistribution.py
+++ b/simple_einet/layers/distributions/multidistribution.py
@@ -41,7 +41,7 @@ class MultiDistributionLayer(AbstractLeaf):
             for scope in scopes:
                 all_scopes.append(scope)
 
-        assert len(all_scopes) == num_features
+        assert sorted(all_scopes) == list(range(num_features)), "Scopes must contain every feature exactly once."
         scope_list = []
         dists = []
         for scopes, dist_class, dist_kwargs in scopes_to_dist:
@@ -139,4 +139,10 @@ class MultiDistributionLayer(AbstractLeaf):
                 new_shape = list(p.shape)
                 new_shape[-1] = max_num_params - p.shape[-1]
                 params[i] = torch.cat([p, torch.zeros(new_shape, device=p.device, dtype=p.dtype)], dim=-1)
-        return torch.cat(params, dim=2)
+        params = torch.cat(params, dim=2)
+
+        # If inversion is necessary, permute features to obtain the original order
+        if self.needs_inversion:
+            params = params[:, :, self.inverted_index]
+
+        return params
-- 
2.43.0


From d46aa828ebd3619644f1b7a213041f118291113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 25/48] fix: pass marginalized scopes of Mixture.forward on to
 the components

---
 simple_einet/mixture.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index b8bab3a..423e84a 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -96,7 +96,10 @@ class Mixture(nn.Module):
         data_idxs_all = []
         for cluster_idx, data_list in separated_data.items():
             data_tensor = torch.stack(data_list, dim=0)
-            lls = self.models[cluster_idx](data_tensor)
+            if marginalized_scope is None:
+                lls = self.models[cluster_idx](data_tensor)
+            else:
+                lls = self.models[cluster_idx](data_tensor, marginalized_scope)
 
             data_idxs = separated_idxs[cluster_idx]
             for data_idx, ll in zip(data_idxs, lls):
-- 
2.43.0


From 39d4a649ad706267e315cb1a47b5632b5e001819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 26/48] fix: ignore missing values when Mixture assigns
 evidence to a component

---
 simple_einet/mixture.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 423e84a..8b58297 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -74,7 +74,12 @@ class Mixture(nn.Module):
             x = x[:, keep_idx]
         else:
             centroids = self.centroids
-        return self._kmeans.max_sim(a=x.float(), b=centroids)[1]
+        x = x.float()
+        if torch.isnan(x).any():
+            # Missing values must not influence the distance to the centroids
+            distances = (x.unsqueeze(1) - centroids.unsqueeze(0)).square().nansum(dim=-1)
+            return distances.argmin(dim=1)
+        return self._kmeans.max_sim(a=x, b=centroids)[1]
 
     def _separate_data_by_cluster(self, x: torch.Tensor, marginalized_scope: List[int]):
         cluster_idxs = self._predict_cluster(x, marginalized_scope).tolist()
-- 
2.43.0


From e9d96e26852c0900b304401cb8c3bd32b7b93d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 27/48] fix: sample rows of Mixture from the component drawn
 for them, in order, also for class lists and MPE

---
 simple_einet/mixture.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 8b58297..d5c6535 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -142,12 +142,15 @@ class Mixture(nn.Module):
         if evidence is not None:
             # Set n to the number of samples in the evidence
             num_samples = evidence.shape[0]
+        elif isinstance(class_index, list):
+            # One sample per class index
+            num_samples = len(class_index)
         elif num_samples is None:
             num_samples = 1
 
         if is_mpe:
             # Take cluster idx with largest weights
-            cluster_idxs = [self.mixture_weights.argmax().item()]
+            cluster_idxs = [self.mixture_weights.argmax().item()] * num_samples
         else:
             if num_samples_per_cluster is not None:
                 cluster_idxs = torch.arange(self.n_components).repeat_interleave(num_samples_per_cluster).tolist()
@@ -159,15 +162,19 @@ class Mixture(nn.Module):
 
         if evidence is None:
             # Sample without evidence
-            separated_idxs = defaultdict(int)
-            for cluster_idx in cluster_idxs:
-                separated_idxs[cluster_idx] += 1
+            separated_idxs = defaultdict(list)
+            for sample_idx, cluster_idx in enumerate(cluster_idxs):
+                separated_idxs[cluster_idx].append(sample_idx)
 
             samples_all = []
-            for cluster_idx, num_samples_cluster in separated_idxs.items():
+            sample_idxs_all = []
+            for cluster_idx, sample_idxs in separated_idxs.items():
+                class_index_cluster = class_index
+                if isinstance(class_index, list):
+                    class_index_cluster = [class_index[i] for i in sample_idxs]
                 samples = self.models[cluster_idx].sample(
-                    num_samples_cluster,
-                    class_index=class_index,
+                    len(sample_idxs),
+                    class_index=class_index_cluster,
                     evidence=evidence,
                     is_mpe=is_mpe,
                     temperature_leaves=temperature_leaves,
@@ -177,15 +184,15 @@ class Mixture(nn.Module):
                     mpe_at_leaves=mpe_at_leaves,
                 )
                 samples_all.append(samples)
+                sample_idxs_all.extend(sample_idxs)
 
-            samples = torch.cat(samples_all, dim=0)
+            samples_all = torch.cat(samples_all, dim=0)
 
-            # Sort results into original order as observed in the batch
-            L = [(cluster_idxs[i], i) for i in range(len(cluster_idxs))]
+            # Sort results into the order in which the clusters have been sampled
+            L = [(sample_idxs_all[i], i) for i in range(len(sample_idxs_all))]
             L.sort()
             _, permutation = zip(*L)
-            permutation = torch.tensor(permutation, device=samples.device).view(-1)
-            samples_all = torch.cat(samples_all)
+            permutation = torch.tensor(permutation, device=samples_all.device).view(-1)
             samples_sorted = samples_all[permutation]
             samples = samples_sorted
 
-- 
2.43.0


From 738ef7c1d79a260319741d81395c74dbd2ac7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 28/48] fix: apply seed to the whole of Mixture.sample and pass
 all options on when sampling with evidence

---
 simple_einet/mixture.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index d5c6535..366d6f5 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -11,6 +11,7 @@ from torch.utils.data import DataLoader
 
 from simple_einet.einet import EinetConfig, Einet
 from simple_einet.layers.distributions.binomial import Binomial
+from simple_einet.sampling_utils import sampling_context
 from simple_einet.type_checks import check_valid
 
 
@@ -134,6 +135,21 @@ class Mixture(nn.Module):
         seed=None,
         mpe_at_leaves: bool = False,
     ):
+        if seed is not None:
+            # Seed once for the choice of the components and the samples of all components
+            with sampling_context(self, seed=seed):
+                return self.sample(
+                    num_samples=num_samples,
+                    num_samples_per_cluster=num_samples_per_cluster,
+                    class_index=class_index,
+                    evidence=evidence,
+                    is_mpe=is_mpe,
+                    temperature_leaves=temperature_leaves,
+                    temperature_sums=temperature_sums,
+                    marginalized_scopes=marginalized_scopes,
+                    mpe_at_leaves=mpe_at_leaves,
+                )
+
         assert num_samples is None or num_samples_per_cluster is None
         if num_samples is None and num_samples_per_cluster is not None:
             num_samples = num_samples_per_cluster * self.n_components
@@ -180,7 +196,6 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
-                    seed=seed,
                     mpe_at_leaves=mpe_at_leaves,
                 )
                 samples_all.append(samples)
@@ -210,6 +225,8 @@ class Mixture(nn.Module):
                     temperature_leaves=temperature_leaves,
                     temperature_sums=temperature_sums,
                     marginalized_scopes=marginalized_scopes,
+                    class_index=class_index,
+                    mpe_at_leaves=mpe_at_leaves,
                 )
 
                 evidence_idxs = separated_idxs[cluster_idx]
-- 
2.43.0


From 68f5ade2a9a357a160877b1b9f9faff91ba94ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 29/48] fix: give every component of Mixture a weight when
 trailing clusters are empty

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index 366d6f5..abcf031 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -58,7 +58,7 @@ class Mixture(nn.Module):
 
         data = data.float()  # input has to be [n, d]
         predictions = self._kmeans.fit_predict(data.view(data.shape[0], -1))
-        counts = torch.bincount(predictions)
+        counts = torch.bincount(predictions, minlength=self.n_components)
         self.mixture_weights.data = counts / counts.sum()
 
         self.centroids.data = self._kmeans.centroids
-- 
2.43.0


From d2eb9cff915f53250001874a4a833493579aadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 30/48] fix: keep gradients in Mixture.sample when a seed is
 given

---
 simple_einet/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/mixture.py b/simple_einet/mixture.py
index abcf031..4540c22 100644
--- a/simple_einet/mixture.py
+++ b/simple_einet/mixture.py
@@ -137,7 +137,7 @@ class Mixture(nn.Module):
     ):
         if seed is not None:
             # Seed once for the choice of the components and the samples of all components
-            with sampling_context(self, seed=seed):
+            with sampling_context(self, requires_grad=True, seed=seed):
                 return self.sample(
                     num_samples=num_samples,
                     num_samples_per_cluster=num_samples_per_cluster,
-- 
2.43.0


From 5b3d5c20198537695dd00dbb6811d7427336f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 31/48] fix: pad CrossProductLayer inputs with a marginalized
 node when the number of features is odd

---
 simple_einet/layers/product.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 24d127b..0078b06 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -174,7 +174,7 @@ class CrossProductLayer(AbstractLayer):
         cardinality = 2  # Fixed to binary graphs for now
         self.cardinality = check_valid(cardinality, int, 2, in_features + 1)
         self._out_features = np.ceil(self.num_features / self.cardinality).astype(int)
-        self._pad = 0
+        self._pad = self.num_features % self.cardinality
 
         # Collect scopes for each product child
         self._scopes = [[] for _ in range(self.cardinality)]
@@ -219,11 +219,8 @@ class CrossProductLayer(AbstractLayer):
         Returns:
             torch.Tensor: Output of shape [batch, ceil(in_features/2), channel * channel].
         """
-        # Check if padding to next power of 2 is necessary
-        if self.num_features != x.shape[1]:
-            # Compute necessary padding to the next power of 2
-            self._pad = 2 ** np.ceil(np.log2(x.shape[1])).astype(np.int) - x.shape[1]
-
+        # Check if a marginalized node is necessary
+        if self._pad > 0:
             # Pad marginalized node
             x = F.pad(x, pad=[0, 0, 0, 0, 0, self._pad], mode="constant", value=0.0)
 
-- 
2.43.0


From 53a214782820c2236a9b4a191be41d4780ca9d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 32/48] fix: let product layers recognise the root by the
 missing selection, as SamplingContext has no is_root

---
 simple_einet/layers/product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/layers/product.py b/simple_einet/layers/product.py
index 0078b06..c9ca65f 100644
--- a/simple_einet/layers/product.py
+++ b/simple_einet/layers/product.py
@@ -114,7 +114,7 @@ class ProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
                 ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
@@ -256,7 +256,7 @@ class CrossProductLayer(AbstractLayer):
         """
 
         # If this is a root node
-        if ctx.is_root:
+        if ctx.indices_out is None:
             if self.num_repetitions == 1:
                 # If there is only a single repetition, create new sampling context
                 ctx.indices_out = torch.zeros(ctx.num_samples, 1, dtype=int, device=self._device)
-- 
2.43.0


From 7e6db820a50aa73af0d781be62e36a0bce1893ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 33/48] fix: make sampling with evidence from a ConvPc work and
 leave no cache behind

---
 simple_einet/conv_pc.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 6ce7473..ae42354 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -115,29 +115,30 @@ def sampling_context(
 
         torch.manual_seed(seed)
 
-    # Run forward pass in given context
-    with context():
-        if evidence is not None:
-            # Enter
-            for module in model.modules():
-                if hasattr(module, "_enable_input_cache"):
-                    module._enable_input_cache()
-
-            _ = model.log_likelihood(x=evidence)
-
-        # Run in context (nothing needs to be yielded)
-        yield
-
+    try:
+        # Run forward pass in given context
+        with context():
+            if evidence is not None:
+                # Enter
+                for module in model.modules():
+                    if hasattr(module, "_enable_input_cache"):
+                        module._enable_input_cache()
+
+                _ = model(evidence)
+
+            # Run in context (nothing needs to be yielded)
+            yield
+    finally:
         # Exit
         if evidence is not None:
             for module in model.modules():
                 if hasattr(module, "_enable_input_cache"):
                     module._disable_input_cache()
 
-    if seed is not None:
-        torch.set_rng_state(cpu_rng_state)
-        if cuda_rng_state is not None:
-            torch.cuda.set_rng_state(cuda_rng_state)
+        if seed is not None:
+            torch.set_rng_state(cpu_rng_state)
+            if cuda_rng_state is not None:
+                torch.cuda.set_rng_state(cuda_rng_state)
 
 
 class SumConv(nn.Module):
-- 
2.43.0


From 5e14b32b780e73ffe0ce528e71d555139d10d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 34/48] fix: normalise the selected weights of SumConv over the
 input channels

---
 simple_einet/conv_pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index ae42354..0fa09f4 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -263,7 +263,7 @@ class SumConv(nn.Module):
         logits = logits.permute(0, 1, 2, 4, 3, 5)  # 0 1 2 4 3 5 -> 0 1 2 3 4 5
         logits = logits.contiguous().view(N, Ci, H, W)
 
-        log_weights = logits_to_log_weights(logits, dim=2, temperature=ctx.temperature_sums)
+        log_weights = logits_to_log_weights(logits, dim=1, temperature=ctx.temperature_sums)
         return log_weights
         log_weights_2 = log_weights
 
-- 
2.43.0


From b9481bac74ab0f05903c96a3a421251a69a0f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 35/48] fix: keep the channel dimension of a ConvPc with a
 single leaf channel

---
 simple_einet/conv_pc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 0fa09f4..9bafc9b 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -639,9 +639,6 @@ class ConvPc(nn.Module):
         # Factorize data input channels
         x = x.sum(1)
 
-        # Remove empty repetition dimension (artifact from Einet implementation)
-        x = x.squeeze(-1)
-
         # Permute from (N, H, W, C) to (N, C, H, W)
         x = x.permute(0, 3, 1, 2)
 
-- 
2.43.0


From a53cbe14fa931cb75d00f138c40251e35b1eb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 36/48] fix: respect marginalized_scopes in ConvPc

---
 simple_einet/conv_pc.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/simple_einet/conv_pc.py b/simple_einet/conv_pc.py
index 9bafc9b..3f45de2 100644
--- a/simple_einet/conv_pc.py
+++ b/simple_einet/conv_pc.py
@@ -88,6 +88,7 @@ def sampling_context(
     evidence: torch.Tensor | None = None,
     requires_grad=False,
     seed=None,
+    marginalized_scopes: List[int] | None = None,
 ):
     """
     Context manager for sampling.
@@ -124,7 +125,7 @@ def sampling_context(
                     if hasattr(module, "_enable_input_cache"):
                         module._enable_input_cache()
 
-                _ = model(evidence)
+                _ = model(evidence, marginalized_scopes)
 
             # Run in context (nothing needs to be yielded)
             yield
@@ -629,9 +630,9 @@ class ConvPc(nn.Module):
         """Small hack to obtain the current device."""
         return next(self.parameters()).device
 
-    def _forward_leaf_data(self, x):
+    def _forward_leaf_data(self, x, marginalized_scopes: List[int] | None = None):
         x = x.view(x.size(0), self.data_shape.channels, self.data_shape.height * self.data_shape.width)
-        x = self.leaf_data(x, marginalized_scopes=None)
+        x = self.leaf_data(x, marginalized_scopes=marginalized_scopes)
         x = x.view(
             x.size(0), self.data_shape.channels, self.data_shape.height, self.data_shape.width, self.config.channels[0]
         )
@@ -644,9 +645,9 @@ class ConvPc(nn.Module):
 
         return x
 
-    def forward(self, x: torch.Tensor | None = None):
+    def forward(self, x: torch.Tensor | None = None, marginalized_scopes: List[int] | None = None):
         # Apply leaf distributions (replace marginalization indicators with 0.0 first)
-        x = self._forward_leaf_data(x)
+        x = self._forward_leaf_data(x, marginalized_scopes)
 
         for layer in self.layers:
             x = layer(x)
@@ -697,6 +698,7 @@ class ConvPc(nn.Module):
             evidence=evidence,
             requires_grad=True,
             seed=seed,
+            marginalized_scopes=marginalized_scopes,
         ):
 
             # Iterate over layers
@@ -725,6 +727,10 @@ class ConvPc(nn.Module):
             shape_evidence = evidence.shape
             evidence = evidence.view_as(samples)
             mask = torch.isnan(evidence)
+            if marginalized_scopes is not None:
+                marginalized = torch.zeros(self.data_shape.num_pixels, dtype=torch.bool, device=mask.device)
+                marginalized[marginalized_scopes] = True
+                mask = mask | marginalized.view(self.data_shape.height, self.data_shape.width)
             evidence[mask] = samples[mask].to(evidence.dtype)
             evidence = evidence.view(shape_evidence)
 
-- 
2.43.0


From 1dea6e6bea81e85c6dfa33dd417a9ddcd2d3684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 37/48] fix: drop the children of LinsumLayer2 nodes instead of
 the nodes themselves

---
 simple_einet/layers/linsum.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/simple_einet/layers/linsum.py b/simple_einet/layers/linsum.py
index a0b9f20..12c490e 100644
--- a/simple_einet/layers/linsum.py
+++ b/simple_einet/layers/linsum.py
@@ -274,6 +274,19 @@ class LinsumLayer2(AbstractSumLayer):
         if self._is_input_cache_enabled:
             self._input_cache["x"] = x
 
+        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
+        if self.dropout > 0.0 and self.training:
+            dropout_indices = self._bernoulli_dist.sample(x.shape)
+            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            while invalid_index.any():
+                # Resample only invalid indices
+                dropout_indices = torch.where(
+                    invalid_index.unsqueeze(2), self._bernoulli_dist.sample(x.shape), dropout_indices
+                )
+                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
+            dropout_indices = torch.log(1 - dropout_indices)
+            x = x + dropout_indices
+
         # Get log weights
         log_weights = logits_to_log_weights(self.logits, dim=1).unsqueeze(0)
         x = x.unsqueeze(3)
@@ -289,19 +302,6 @@ class LinsumLayer2(AbstractSumLayer):
 
         prod_output = left + right  # N x D/2 x Sout x 1 x R
 
-        # Apply dropout: Set random sum node children to 0 (-inf in log domain)
-        if self.dropout > 0.0 and self.training:
-            dropout_indices = self._bernoulli_dist.sample(prod_output.shape)
-            invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            while invalid_index.any():
-                # Resample only invalid indices
-                dropout_indices = torch.where(
-                    invalid_index.unsqueeze(2), self._bernoulli_dist.sample(prod_output.shape), dropout_indices
-                )
-                invalid_index = dropout_indices.sum(2) == dropout_indices.shape[2]
-            dropout_indices = torch.log(1 - dropout_indices)
-            prod_output = prod_output + dropout_indices
-
         return prod_output
 
     def _sample_from_weights(self, ctx, log_weights):
-- 
2.43.0


From 73cb6aa9ce90a6bc1f25c3f24df5b9baf7920769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:03 +0000
Subject: [PATCH 38/48] fix: discrete piecewise linear leaves sampled bin
 positions instead of the values of the domain

---
 simple_einet/layers/distributions/piecewise_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index a7f54eb..1507f03 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -319,7 +319,8 @@ class PiecewiseLinearDist:
                             # Sample from a categorical distribution
                             ys_i_wo_tails = ys_i[1:-1]  # Cut off the tail breaks
                             dist = torch.distributions.Categorical(probs=ys_i_wo_tails)
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = dist.sample(sample_shape)
+                            # Translate the sampled positions into the values of the domain
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = xs_i[1:-1][dist.sample(sample_shape)]
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Compute the CDF for this piecewise function
                             cdf = self._compute_cdf(xs_i, ys_i)
-- 
2.43.0


From 68c753bcffcf42d6168395ec2dc1f74b08429837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 39/48] fix: samples of continuous piecewise linear leaves were
 uniform inside each segment instead of following the linear density

---
 simple_einet/layers/distributions/piecewise_linear.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 1507f03..bae78c9 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -334,13 +334,17 @@ class PiecewiseLinearDist:
                             # Clamp indices to be within valid range
                             indices = torch.clamp(indices, 1, len(xs_i) - 1)
 
-                            # Perform linear interpolation to get the sample value
+                            # Invert the CDF inside the segment: the density is linear there, hence the CDF is quadratic
                             x0, x1 = xs_i[indices - 1], xs_i[indices]
+                            y0, y1 = ys_i[indices - 1], ys_i[indices]
                             cdf0, cdf1 = cdf[indices - 1], cdf[indices]
-                            slope = (x1 - x0) / (cdf1 - cdf0 + 1e-8)  # Avoid division by zero
+                            f = (u - cdf0) / (cdf1 - cdf0)
+                            w0, w1 = y0 / (y0 + y1), y1 / (y0 + y1)
+                            denominator = w0 + torch.sqrt((1 - f) * w0**2 + f * w1**2)
+                            position = f / denominator.clamp(min=1e-8)  # Avoid division by zero
 
                             # Compute the sampled value
-                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + slope * (u - cdf0)
+                            samples[..., i_channel, i_feature, i_leaf, i_repetition] = x0 + (x1 - x0) * position
                         else:
                             raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
 
-- 
2.43.0


From adf86dd1b4a8d8f12017f59d5aae6039b2ebca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 40/48] fix: initialising a piecewise linear leaf with an empty
 cluster crashed or gave NaN densities

---
 .../layers/distributions/piecewise_linear.py       | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index bae78c9..04cb7b4 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -92,7 +92,7 @@ class PiecewiseLinear(AbstractLeaf):
             kmeans.fit(data.view(data.shape[0], -1).float())
 
             predictions = kmeans.predict(data.view(data.shape[0], -1).float())
-            counts = torch.bincount(predictions)
+            counts = torch.bincount(predictions, minlength=self.num_leaves)
             self.mixture_weights[i_repetition] = counts / counts.sum()
 
             # Get cluster assigments for each datapoint
@@ -135,10 +135,14 @@ class PiecewiseLinear(AbstractLeaf):
                             # Find histogram bins using numpys "auto" logic
                             bins, _ = _get_bin_edges_torch(data_subset)
 
-                            # Construct histogram
-                            densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
-                                data.device
-                            )
+                            if data_subset.shape[0] == 0:
+                                # If there is no data in this cluster, set the density to uniform
+                                densities = torch.ones(len(bins) - 1, device=data.device)
+                            else:
+                                # Construct histogram
+                                densities = torch.histogram(data_subset.cpu(), bins=bins.cpu(), density=True).hist.to(
+                                    data.device
+                                )
                             breaks = bins
                             mids = ((breaks + torch.roll(breaks, shifts=-1, dims=0)) / 2)[:-1]
                         else:
-- 
2.43.0


From c30b8635853e5ec81b6d8dfd6939fe18249dadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:16 +0000
Subject: [PATCH 41/48] fix: masses of a discrete piecewise linear leaf did not
 sum to one for values that are not consecutive integers

---
 .../layers/distributions/piecewise_linear.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/simple_einet/layers/distributions/piecewise_linear.py b/simple_einet/layers/distributions/piecewise_linear.py
index 04cb7b4..a08d9ec 100644
--- a/simple_einet/layers/distributions/piecewise_linear.py
+++ b/simple_einet/layers/distributions/piecewise_linear.py
@@ -126,10 +126,9 @@ class PiecewiseLinear(AbstractLeaf):
                                 # If there is no data in this cluster, set the density to uniform
                                 densities = torch.ones(len(mids), device=data.device) / len(mids)
                             else:
-                                # Compute counts
-                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu(), density=True).hist.to(
-                                    data.device
-                                )
+                                # Compute the relative frequency of each value
+                                densities = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(data.device)
+                                densities = densities / data_subset.shape[0]
 
                         elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                             # Find histogram bins using numpys "auto" logic
@@ -183,11 +182,15 @@ class PiecewiseLinear(AbstractLeaf):
                         x = torch.tensor(x, device=data.device)  # , requires_grad=True)
                         y = torch.tensor(y, device=data.device)  # , requires_grad=True)
 
-                        # Compute AUC using the trapeziod rule
-                        auc = torch.trapezoid(x=x, y=y)
+                        if self.domains[i_feature].data_type == DataType.DISCRETE:
+                            # Normalize the probabilities of the values to sum to 1
+                            y = y / y.sum()
+                        else:
+                            # Compute AUC using the trapeziod rule
+                            auc = torch.trapezoid(x=x, y=y)
 
-                        # Normalize y to sum to 1 using AUC
-                        y = y / auc
+                            # Normalize y to sum to 1 using AUC
+                            y = y / auc
 
                         # Store
                         xs_channels.append(x)
-- 
2.43.0


From c4f8e581926eb7689f4755d2887fdb5b5d5cd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 42/48] fix: get_distribution gave categorical leaves one bin
 too few: the brightest level of an n bit image had no likelihood

---
 simple_einet/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/dist.py b/simple_einet/dist.py
index 9181db8..66b2bb5 100644
--- a/simple_einet/dist.py
+++ b/simple_einet/dist.py
@@ -92,7 +92,7 @@ def get_distribution(dist: Dist, cfg):
         leaf_kwargs = {"total_count": 2**cfg.n_bits - 1}
     elif dist == Dist.CATEGORICAL:
         leaf_type = Categorical
-        leaf_kwargs = {"num_bins": 2**cfg.n_bits - 1}
+        leaf_kwargs = {"num_bins": 2**cfg.n_bits}
     elif dist == Dist.MULTIVARIATE_NORMAL:
         leaf_type = MultivariateNormal
         leaf_kwargs = {"cardinality": cfg.multivariate_cardinality}
-- 
2.43.0


From 3b6ddbf99bc03cddcbf196c614f6c45b50304060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 43/48] fix: get_data_num_classes did not know the digits
 dataset

---
 simple_einet/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index eac31dd..32ecf1e 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -153,6 +153,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         "covtype": 7,
         "breast_cancer": 2,
         "wine": 3,
+        "digits": 10,
     }[dataset_name]
 
 
-- 
2.43.0


From 4b2f7ac1b24865124a1de85fcdd08ab5f228c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 44/48] fix: get_data_num_classes reported two classes for
 synthetic datasets with three or nine

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 32ecf1e..49a5ded 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -124,7 +124,7 @@ def get_data_num_classes(dataset_name: str) -> int:
         int: Number of classes.
     """
     if "synth" in dataset_name:
-        return 2
+        return {"3-clusters": 3, "9-clusters": 9, "aniso": 3, "varied": 3}.get(dataset_name.replace("synth-", ""), 2)
 
     if dataset_name in DEBD:
         return 0
-- 
2.43.0


From 5de10e55bfe279596f46713d5c152173ca6f776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 45/48] fix: generate_data crashed for synth-varied: make_blobs
 takes the center box as a tuple

---
 simple_einet/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/data.py b/simple_einet/data.py
index 49a5ded..0b60991 100644
--- a/simple_einet/data.py
+++ b/simple_einet/data.py
@@ -225,7 +225,7 @@ def generate_data(dataset_name: str, n_samples: int = 1000) -> Tuple[torch.Tenso
             n_samples=n_samples,
             cluster_std=[0.5, 0.1, 0.3],
             random_state=0,
-            center_box=[-2, 2],
+            center_box=(-2, 2),
         )
     else:
         raise ValueError(f"Invalid synthetic dataset name: {tag}.")
-- 
2.43.0


From 31c726e794951d064f37049a4022d800e1ae2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 46/48] fix: init_einet_stats weighted batches of different
 sizes equally and took the mean of the batch variances: a last batch of one
 row made every variance NaN

---
 simple_einet/sampling_utils.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/simple_einet/sampling_utils.py b/simple_einet/sampling_utils.py
index 6e46fc2..9ab1158 100644
--- a/simple_einet/sampling_utils.py
+++ b/simple_einet/sampling_utils.py
@@ -306,22 +306,21 @@ def init_einet_stats(einet: "Einet", dataloader: torch.utils.data.DataLoader):
 
     Returns: None
     """
-    stats_mean = None
-    stats_var = None
+    count = 0
+    total = 0.0
+    total_sq = 0.0
 
-    # Compute mean and std
+    # Accumulate the first two moments over all rows (batches may differ in size)
     for batch in tqdm(dataloader, desc="Leaf Parameter Initialization"):
         data, label = batch
-        if stats_mean == None:
-            stats_mean = data.mean(dim=0)
-            stats_var = data.var(dim=0)
-        else:
-            stats_mean += data.mean(dim=0)
-            stats_var += data.var(dim=0)
-
-    # Normalize
-    stats_mean /= len(dataloader)
-    stats_var /= len(dataloader)
+        count += data.shape[0]
+        total = total + data.double().sum(dim=0)
+        total_sq = total_sq + (data.double() ** 2).sum(dim=0)
+
+    # Compute mean and variance
+    stats_mean = total / count
+    stats_var = (total_sq / count - stats_mean**2).clamp(min=0.0)
+    stats_mean, stats_var = stats_mean.to(data.dtype), stats_var.to(data.dtype)
 
     from simple_einet.layers.distributions.normal import Normal
     from simple_einet.einet import Einet
-- 
2.43.0


From 167933d5cf29d927809e223132b7f94df9747393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 47/48] fix: calc_bpd subtracted the bin width correction of
 continuous data from the log-probabilities of discrete data too

---
 simple_einet/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_einet/utils.py b/simple_einet/utils.py
index 58936ff..b0f1069 100644
--- a/simple_einet/utils.py
+++ b/simple_einet/utils.py
@@ -45,8 +45,8 @@ def calc_bpd(log_p: Tensor, image_shape: Tuple[int, int, int], has_gauss_dist: b
         bpd = (-bpd / (np.log(2) * n_pixels)).mean()
 
     else:
-        bpd = log_p - np.log(n_bins) * n_pixels
-        bpd = (-bpd / (np.log(2) * n_pixels)).mean()
+        # Log-probabilities of discrete data need no correction for the bin width
+        bpd = (-log_p / (np.log(2) * n_pixels)).mean()
 
     return bpd
 
-- 
2.43.0


From 05b693b394a24d8faeb636ae0e68155e6b9dda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 48/48] fix: images whose channels do not match the
 configuration were silently reshaped

---
 simple_einet/einet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_einet/einet.py b/simple_einet/einet.py
index 0417d18..c9d4c2b 100644
--- a/simple_einet/einet.py
+++ b/simple_einet/einet.py
@@ -136,7 +136,7 @@ class Einet(nn.Module):
             x = x.unsqueeze(1)
 
         if x.dim() == 4:  # [N, C, H, W]
-            x = x.reshape(x.shape[0], self.config.num_channels, -1)
+            x = x.flatten(start_dim=2)
 
         assert x.dim() == 3
         assert (
-- 
2.43.0

