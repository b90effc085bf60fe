From 6602883c647c6f281c6f6bec198b73e90bb3a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 01/68] fix: keep string fields intact when converting DpEvents
 to/from named tuples

---
 python/dp_accounting/dp_accounting/dp_event.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/dp_event.py b/python/dp_accounting/dp_accounting/dp_event.py
index 3d490bd..c95d481 100644
--- a/python/dp_accounting/dp_accounting/dp_event.py
+++ b/python/dp_accounting/dp_accounting/dp_event.py
@@ -119,7 +119,7 @@ class DpEvent(object):
         elements = [(k, _to_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         elements = [_to_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
@@ -161,7 +161,7 @@ class DpEvent(object):
         elements = [(k, _from_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         elements = [_from_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
-- 
2.43.0


From 3a2385a7dcb017d975b2856dc8e98e49a615186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 02/68] fix: PLDAccountant accounts for every repetition of
 randomized response

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From 35878db02f473920d93fabc3e4cae1d6f12040d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 03/68] fix: RdpAccountant accepts non-float noise multipliers
 in sampled compositions

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..846e7a7 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -568,13 +568,13 @@ def _effective_gaussian_noise_multiplier(
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += sigma**-2
+      sum_sigma_inv_sq += sigma**-2.0
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From a935abd9f74334637f2f7aaa0aa5ff591c096d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 04/68] fix: RdpAccountant keeps accounted loss when composing
 RepeatAndSelectDpEvent fails

---
 .../rdp/rdp_privacy_accountant.py             | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 846e7a7..5256b14 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Privacy accountant that uses Renyi differential privacy."""
 
+import copy
 import math
 from typing import Callable, Optional, Sequence, Tuple, Union
 
@@ -1104,21 +1105,17 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
-      save_rdp = self._rdp
-      if do_compose:
-        # Save the RDP values from already composed DPEvents. These will
-        # be added back after we process this RepeatAndSelectDpEvent.
-        # Zero out self._rdp before computing the RDP of the underlying
-        # DP event.
-        self._rdp = np.zeros_like(self._orders, dtype=np.float64)
-      composition_error = self._maybe_compose(event.event, 1, do_compose)
-      if composition_error is None and do_compose:
-        self._rdp = (
-            count
-            * _compute_rdp_repeat_and_select(
-                self._orders, self._rdp, event.mean, event.shape
-            )
-            + save_rdp
+      if not do_compose:
+        return self._maybe_compose(event.event, 1, False)
+      # Compute the RDP of the underlying DP event on a scratch accountant, so
+      # that the already composed DPEvents stay accounted for even if the
+      # computation fails.
+      nested = copy.copy(self)
+      nested._rdp = np.zeros_like(self._orders, dtype=np.float64)
+      composition_error = nested._maybe_compose(event.event, 1, True)
+      if composition_error is None:
+        self._rdp = self._rdp + count * _compute_rdp_repeat_and_select(
+            self._orders, nested._rdp, event.mean, event.shape
         )
       return composition_error
     elif isinstance(event, dp_event.RandomizedResponseDpEvent):
-- 
2.43.0


From 94ed3ce475043de1b3c67fef9938daabe0bdba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 05/68] fix: PLDAccountant accepts fully random
 RandomizedResponseDpEvent

---
 .../dp_accounting/pld/pld_privacy_accountant.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 6a989c4..f07c8ab 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -65,8 +65,9 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         return CompositionErrorDetails(
             invalid_event=event, error_message=error_msg)
       if do_compose:
-        if event.num_buckets == 1:
-          # This is a NoOp event, even when noise_parameter is zero.
+        if event.num_buckets == 1 or event.noise_parameter == 1:
+          # The output does not depend on the input, so this is a NoOp event,
+          # even when noise_parameter is zero and there is only one bucket.
           pass
         elif event.noise_parameter == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From 17fa806257eb8b6e2c9e572302d82b084ae4f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 06/68] fix: RDP to epsilon conversion supports the infinite
 order

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 5256b14..ce79a79 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -264,6 +264,9 @@ def compute_epsilon(
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
+    elif np.isinf(a):
+      # Renyi divergence of infinite order bounds the privacy loss itself.
+      epsilon = r
     elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value of alpha.
-- 
2.43.0


From 844a8b29399ee30c840f3d3c1a0846c57136a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 07/68] fix: RdpAccountant treats zero and unbounded noise as
 no and full privacy in every event

---
 .../rdp/rdp_privacy_accountant.py             | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ce79a79..4a6ead9 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -387,7 +387,7 @@ def _compute_rdp_poisson_subsampled_gaussian(
     )
 
   def compute_one_order(q, alpha):
-    if q == 0:
+    if q == 0 or np.isinf(noise_multiplier):
       return 0
 
     if np.isinf(alpha) or noise_multiplier == 0:
@@ -447,15 +447,15 @@ def _compute_rdp_sample_wor_gaussian_scalar(
 
   assert (q <= 1) and (q >= 0) and (alpha >= 1)
 
-  if q == 0:
+  if q == 0 or np.isinf(sigma):
     return 0
 
+  if np.isinf(alpha) or sigma == 0:
+    return np.inf
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
-  if np.isinf(alpha):
-    return np.inf
-
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
@@ -574,13 +574,13 @@ def _effective_gaussian_noise_multiplier(
       sigma = _effective_gaussian_noise_multiplier(e)
       if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += sigma**-2.0
-    return sum_sigma_inv_sq**-0.5
+      sum_sigma_inv_sq += sigma**-2.0 if sigma != 0 else math.inf
+    return sum_sigma_inv_sq**-0.5 if sum_sigma_inv_sq != 0 else math.inf
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
     if isinstance(sigma, dp_event.DpEvent):
       return sigma
-    return sigma * event.count**-0.5
+    return sigma * event.count**-0.5 if event.count != 0 else math.inf
   else:
     return event
 
@@ -1102,10 +1102,13 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.LaplaceDpEvent):
       if do_compose:
-        eps = 1 / event.noise_multiplier
-        self._rdp += count * np.array(
-            [_laplace_rdp(eps, order) for order in self._orders]
-        )
+        if event.noise_multiplier == 0:
+          self._rdp += np.inf
+        else:
+          eps = 1 / event.noise_multiplier
+          self._rdp += count * np.array(
+              [_laplace_rdp(eps, order) for order in self._orders]
+          )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
       if not do_compose:
-- 
2.43.0


From cfed84340c0c2e4fbeede7ad8d44decf305dcb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 08/68] fix: RdpAccountant accounts for Laplace noise at the
 infinite order

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 4a6ead9..a6f932b 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -845,10 +845,12 @@ def _laplace_rdp(eps: float, order: float) -> float:
   eps = float(eps)
   if not math.isfinite(eps) or eps < 0:
     raise ValueError(f'eps must be > 0. Got {eps}')
-  if not math.isfinite(a) or a < 1:
+  if math.isnan(a) or a < 1:
     raise ValueError(f'order must be >= 1. Got {a}')
 
-  if a == 1:  # KL divergence
+  if math.isinf(a):  # pure DP
+    return eps
+  elif a == 1:  # KL divergence
     # Taking the limit as order->1 gives the following expression.
     return eps + math.expm1(-eps)
   elif a < 1.1:  # 1 < order <= 1.1
-- 
2.43.0


From 1bcec266ddc441931d9c9e05b492ca79ae2b9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 09/68] fix: RDP to delta conversion supports the infinite
 order

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index a6f932b..28e61a6 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -203,7 +203,11 @@ def compute_delta(
       logdelta = -np.inf
     else:
       logdelta = 0.5 * math.log1p(-math.exp(-r))
-    if a > 1.01:
+    if np.isinf(a):
+      # Renyi divergence of infinite order bounds the privacy loss itself.
+      if r <= epsilon:
+        logdelta = -np.inf
+    elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value for alpha.
       # The bound is also not useful for small alpha, so doesn't matter.
-- 
2.43.0


From 6b4d5c788148576eae5bf018212c66edc210b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 10/68] fix: RDP to delta conversion does not fail on tiny
 Renyi divergences

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 28e61a6..fb9dca4 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -202,7 +202,7 @@ def compute_delta(
     elif r == 0:
       logdelta = -np.inf
     else:
-      logdelta = 0.5 * math.log1p(-math.exp(-r))
+      logdelta = 0.5 * math.log(-math.expm1(-r))
     if np.isinf(a):
       # Renyi divergence of infinite order bounds the privacy loss itself.
       if r <= epsilon:
-- 
2.43.0


From 3ba8518ef376ad0470ac8507d6e2aa521eb26291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 11/68] fix: composing loss distributions with little or no
 finite mass does not fail

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..24ba882 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -173,7 +173,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
     Tuple of (size of truncated prefix, truncated array, mass that goes to
     infinity).
   """
-  if tail_mass_truncation == 0:
+  if tail_mass_truncation == 0 or len(probs) == 0:  # pylint: disable=g-explicit-length-test
     return 0, probs, 0
 
   def _find_prefix_to_truncate(arr: np.ndarray, threshold: float) -> int:
@@ -186,7 +186,9 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
         return i
     return len(arr)
 
-  left_idx = _find_prefix_to_truncate(probs, tail_mass_truncation / 2)
+  # At least one element is kept, even if all of them could be truncated.
+  left_idx = min(
+      _find_prefix_to_truncate(probs, tail_mass_truncation / 2), len(probs) - 1)
   right_idx = len(probs) - _find_prefix_to_truncate(
       np.flip(probs), tail_mass_truncation / 2)
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
@@ -353,6 +355,9 @@ class DensePLDPmf(PLDPmf):
     """See base class."""
     if num_times <= 0:
       raise ValueError(f'num_times should be >= 1, num_times={num_times}')
+    if self._infinity_mass >= 1:
+      # The loss is always infinite, and stays so under composition.
+      return self
     lower_loss = self._lower_loss * num_times
     truncation_lower_bound, probs = common.self_convolve(
         self._probs, num_times, tail_mass_truncation)
@@ -541,7 +546,8 @@ class SparsePLDPmf(PLDPmf):
 
   def to_dense_pmf(self) -> DensePLDPmf:
     """"Converts to dense PMF."""
-    lower_loss, probs = common.dictionary_to_list(self._loss_probs)
+    # There may be no finite losses, when all the mass is at infinity.
+    lower_loss, probs = common.dictionary_to_list(self._loss_probs or {0: 0.0})
     return DensePLDPmf(self._discretization, lower_loss, np.array(probs),
                        self._infinity_mass, self._pessimistic_estimate)
 
-- 
2.43.0


From 780fab9f867f65118b43bb0a1bf99439548d74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 12/68] fix: loss distribution queries handle losses and
 epsilons of large magnitude and zero-probability losses

---
 .../dp_accounting/pld/pld_pmf.py              | 58 ++++++++++++-------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 24ba882..ecf5546 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -93,9 +93,10 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   #
   # Denote sums in the last formula as mu_upper_mass, mu_lower_mass. We can
   # compute them gradually, which makes computation efficiently for multiple
-  # epsilons.
+  # epsilons. To avoid overflows, we keep exp(ref_loss) * mu_lower_mass, where
+  # ref_loss is the smallest loss summed so far, instead of mu_lower_mass.
   deltas = np.zeros_like(epsilons, dtype=np.float64)
-  mu_upper_mass, mu_lower_mass = infinity_mass, 0
+  mu_upper_mass, scaled_mu_lower_mass, ref_loss = infinity_mass, 0, 0
   i = len(probs) - 1
   j = len(epsilons) - 1
 
@@ -104,11 +105,16 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
       deltas[j] = infinity_mass
       j -= 1
     elif i < 0 or losses[i] <= epsilons[j]:
-      deltas[j] = mu_upper_mass - np.exp(epsilons[j]) * mu_lower_mass
+      deltas[j] = mu_upper_mass
+      if scaled_mu_lower_mass:
+        deltas[j] -= np.exp(epsilons[j] - ref_loss) * scaled_mu_lower_mass
       j -= 1
     else:
       mu_upper_mass += probs[i]
-      mu_lower_mass += probs[i] * np.exp(-losses[i])
+      scaled_mu_lower_mass = (
+          probs[i] + scaled_mu_lower_mass * np.exp(losses[i] - ref_loss)
+          if scaled_mu_lower_mass else probs[i])
+      ref_loss = losses[i]
       i -= 1
 
   return deltas
@@ -132,25 +138,27 @@ def _get_epsilon_for_delta(infinity_mass: float,
   if infinity_mass > delta:
     return math.inf
 
-  mass_upper, mass_lower = infinity_mass, 0
+  # To avoid overflows and underflows for losses with large absolute value,
+  # mass_lower, i.e. the sum of exp(-loss) * prob, is multiplied by
+  # exp(ref_loss), where ref_loss is the smallest loss summed so far.
+  mass_upper, scaled_mass_lower, ref_loss = infinity_mass, 0, 0
 
   for loss, prob in zip(reversed_losses, probs):
-    if (mass_upper > delta and mass_lower > 0 and math.log(
-        (mass_upper - delta) / mass_lower) >= loss):
+    if (mass_upper > delta and scaled_mass_lower > 0 and math.log(
+        (mass_upper - delta) / scaled_mass_lower) + ref_loss >= loss):
       # Epsilon is greater than or equal to loss.
       break
 
     mass_upper += prob
-    mass_lower += math.exp(-loss) * prob
+    scaled_mass_lower = prob + (
+        scaled_mass_lower * math.exp(loss - ref_loss)
+        if scaled_mass_lower else 0)
+    ref_loss = loss
 
-    if mass_upper >= delta and mass_lower == 0:
-      # This only occurs when loss is very large, which results in exp(-loss)
-      # being treated as zero.
-      return max(0, loss)
-
-  if mass_upper <= mass_lower + delta:
+  if mass_upper <= delta or scaled_mass_lower <= 0:
     return 0
-  return math.log((mass_upper - delta) / mass_lower)
+  return max(
+      0, math.log((mass_upper - delta) / scaled_mass_lower) + ref_loss)
 
 
 def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
@@ -417,7 +425,9 @@ class DensePLDPmf(PLDPmf):
       return delta
 
     i, j = 0, len_other - 1
-    upper_mass = lower_mass = 0
+    # To avoid overflows lower_mass is multiplied by exp(ref_loss), where ref_loss
+    # is the smallest loss of other summed so far.
+    upper_mass = scaled_lower_mass = ref_loss = 0
 
     # This is summation by i,j, such that self_loss(i) + other_loss(j) >=
     # epsilon, and self_loss(i) + other_loss(j-1)< epsilon, as in the
@@ -430,7 +440,10 @@ class DensePLDPmf(PLDPmf):
     # Else if j is too large then decrease it.
     while j >= 0 and self_loss(i) + other_loss(j - 1) >= epsilon:
       upper_mass += other_probs[j]
-      lower_mass += other_probs[j] * np.exp(-other_loss(j))
+      scaled_lower_mass = other_probs[j] + (
+          scaled_lower_mass * np.exp(other_loss(j) - ref_loss)
+          if scaled_lower_mass else 0)
+      ref_loss = other_loss(j)
       j -= 1
 
     # Invariant:
@@ -439,10 +452,15 @@ class DensePLDPmf(PLDPmf):
     for i in range(i, len_self):
       if j >= 0:
         upper_mass += other_probs[j]
-        lower_mass += other_probs[j] * np.exp(-other_loss(j))
+        scaled_lower_mass = other_probs[j] + (
+            scaled_lower_mass * np.exp(other_loss(j) - ref_loss)
+            if scaled_lower_mass else 0)
+        ref_loss = other_loss(j)
       j -= 1
-      delta += self_probs[i] * (
-          upper_mass - np.exp(epsilon - self_loss(i)) * lower_mass)
+      lower_mass_term = (
+          np.exp(epsilon - self_loss(i) - ref_loss) * scaled_lower_mass
+          if scaled_lower_mass else 0)
+      delta += self_probs[i] * (upper_mass - lower_mass_term)
 
     return delta
 
-- 
2.43.0


From 517b38a509343c2e234fdd14f72ddf069fb9649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 13/68] fix: subsampled Laplace mechanism with small noise does
 not overflow

---
 .../dp_accounting/pld/privacy_loss_mechanism.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d67a420..f824bd5 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -762,16 +762,16 @@ class LaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
                                epsilon_lower=-max_epsilon)
     elif self.adjacency_type == AdjacencyType.ADD:
       return ConnectDotsBounds(
-          epsilon_upper=- math.log(1 - self.sampling_prob +
-                                   self.sampling_prob * math.exp(-max_epsilon)),
-          epsilon_lower=- math.log(1 - self.sampling_prob +
-                                   self.sampling_prob * math.exp(max_epsilon)))
+          epsilon_upper=-common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, -max_epsilon, 1 - self.sampling_prob),
+          epsilon_lower=-common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, max_epsilon, 1 - self.sampling_prob))
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       return ConnectDotsBounds(
-          epsilon_upper=math.log(1 - self.sampling_prob +
-                                 self.sampling_prob * math.exp(max_epsilon)),
-          epsilon_lower=math.log(1 - self.sampling_prob +
-                                 self.sampling_prob * math.exp(-max_epsilon)))
+          epsilon_upper=common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, max_epsilon, 1 - self.sampling_prob),
+          epsilon_lower=common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, -max_epsilon, 1 - self.sampling_prob))
 
   def privacy_loss_without_subsampling(self, x: float) -> float:
     """Computes the privacy loss of the Laplace mechanism without sub-sampling at a given point.
-- 
2.43.0


From e6e8e22592459d553db6ab7587a636fc70bdc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 14/68] fix: Laplace loss divergences are exact when
 probabilities underflow

---
 .../dp_accounting/pld/privacy_loss_mechanism.py      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index f824bd5..24f87c4 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -846,7 +846,10 @@ class LaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
       The log cumulative density function of the Laplace noise at x, i.e., the
       log of the probability that the Laplace noise is less than or equal to x.
     """
-    return self._laplace_random_variable.logcdf(x)
+    # Computed directly, as stats.laplace.logcdf underflows to -infinity.
+    scaled_x = np.asarray(x) / self._parameter
+    half_tail = 0.5 * np.exp(-np.abs(scaled_x))
+    return np.where(scaled_x < 0, scaled_x - math.log(2), np.log1p(-half_tail))
 
   @classmethod
   def from_privacy_guarantee(
@@ -1403,7 +1406,12 @@ class DiscreteLaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
       i.e., the log of the probability that the discrete Laplace noise is less
       than or equal to x.
     """
-    return self._discrete_laplace_random_variable.logcdf(x)
+    # Computed directly, as stats.dlaplace.logcdf underflows to -infinity.
+    floor_x = np.floor(x)
+    log_normalizer = math.log1p(math.exp(-self._parameter))
+    lower_log_cdf = self._parameter * np.minimum(floor_x, 0) - log_normalizer
+    log_sf = -self._parameter * (np.maximum(floor_x, 0) + 1) - log_normalizer
+    return np.where(floor_x < 0, lower_log_cdf, np.log1p(-np.exp(log_sf)))
 
   @classmethod
   def from_privacy_guarantee(
-- 
2.43.0


From dd5916713cacaef13e2f6fbf59e0c6f01b38bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 15/68] fix: discrete Gaussian noise small compared to the
 sensitivity does not fail

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 24f87c4..279d972 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1551,7 +1551,9 @@ class DiscreteGaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
     if truncation_bound is None:
       # Tail bound from Canonne et al. ensures that the mass that gets truncated
       # is at most 1e-30. (See Proposition 1 in the supplementary material.)
-      self._truncation_bound = math.ceil(11.6 * sigma)
+      # Neighboring outputs must overlap, which matters only for small sigma.
+      self._truncation_bound = max(
+          math.ceil(11.6 * sigma), math.ceil(0.5 * sensitivity))
     else:
       self._truncation_bound = truncation_bound
 
-- 
2.43.0


From 98554dcc91720cc4b9d39afdf456da1da4fff6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 16/68] fix: mixture of Gaussians without zero sensitivity has
 unbounded loss despite rounding

---
 .../dp_accounting/pld/privacy_loss_mechanism.py            | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 279d972..a711fcf 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1956,9 +1956,12 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     # Constant properties.
     self._log_sampling_probs = np.log(self.sampling_probs)
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
-    self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
+    # Due to rounding, the sum might not be exactly one even when it should be.
+    self._sampling_prob = (
+        1.0 if np.all(self.sensitivities > 0.0)
+        else np.clip(self._pos_sampling_probs.sum(), 0, 1)
+    )
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
-    self._min_sens = np.min(nonzero_sens)
     self._max_sens = np.max(nonzero_sens)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
 
-- 
2.43.0


From d98601e85e7d28b247483b5c5d2162ab88b8d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 17/68] fix: mixture of Gaussians tail does not fail on
 rounding

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index a711fcf..f56c3ea 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2113,6 +2113,9 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           ),
           increasing=True,
       )
+      if lower_x_truncation is None:
+        # Only due to rounding is the tail mass exceeded already at this point.
+        lower_x_truncation = z_value - self._max_sens
     if self._pessimistic_estimate:
       tail_probability_mass_function = {
           math.inf: self.mu_upper_cdf(lower_x_truncation),
-- 
2.43.0


From 9e1c527f36c9d92524d14ed491b54b7cc10d156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 18/68] fix: inverse losses of mixtures of Gaussians cover
 every sensitivity and limit losses

---
 .../pld/privacy_loss_mechanism.py             | 55 ++++++++++---------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index f56c3ea..51deb02 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2286,7 +2286,7 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           f'Expected non-decreasing privacy_losses, got: {privacy_losses}.'
       )
     if len(privacy_losses) == 0:  # pylint: disable=g-explicit-length-test
-      return np.ndarray([])
+      return np.array([])
 
     # If we have a non-zero probability of choosing sensitivity = 0, then the
     # privacy loss does not take on all values in [-inf, inf], and so we need to
@@ -2306,32 +2306,43 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'max of privacy_losses ({max_pl}) is larger than '
             f'-log(1 - sampling_prob)={-log_1m_prob}.'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, -log_1m_prob))
-      max_pl = np.max(privacy_losses[finite_indices])
+      finite_indices = np.logical_not(
+          np.isclose(privacy_losses, -log_1m_prob, rtol=1e-9, atol=1e-14)
+      )
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       if min_pl <= log_1m_prob:
         raise ValueError(
             f'min of privacy_losses ({min_pl}) is smaller than '
             f'log(1 - sampling_prob)={log_1m_prob}'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, log_1m_prob))
-      min_pl = np.min(privacy_losses[finite_indices])
+      finite_indices = np.logical_not(
+          np.isclose(privacy_losses, log_1m_prob, rtol=1e-9, atol=1e-14)
+      )
+
+    if self.adjacency_type == AdjacencyType.ADD:
+      output = self.privacy_loss_for_single_gaussian(
+          np.full_like(privacy_losses, np.inf)
+      )
+    else:
+      output = self.privacy_loss_for_single_gaussian(
+          np.full_like(privacy_losses, -np.inf)
+      )
+    if not np.any(finite_indices):
+      return output
+    min_pl = np.min(privacy_losses[finite_indices])
+    max_pl = np.max(privacy_losses[finite_indices])
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
-    # all the probability mass on non-zero sensitivities to either the
-    # smallest or largest sensitivity. We can show the privacy loss of the
-    # mixture is contained between these two mechanisms' privacy losses, and
-    # the subsampled Gaussian privacy loss is easy to invert. Then, we can
-    # compute the inverse privacy loss at min_pl and max_pl to get four
-    # candidate bounds, and take the min/max of these bounds.
-    loss_bounds = np.array([min_pl, min_pl, max_pl, max_pl])
-    sens_bounds = np.array([
-        self._min_sens,
-        self._max_sens,
-        self._min_sens,
-        self._max_sens,
-    ])
+    # all the probability mass on non-zero sensitivities to a single one of
+    # them. At any point, the privacy loss of the mixture is contained between
+    # the smallest and the largest of these mechanisms' privacy losses (note
+    # that these are not monotone in the sensitivity), and the subsampled
+    # Gaussian privacy loss is easy to invert. Then, we can compute the inverse
+    # privacy loss at min_pl and max_pl for each of them to get candidate
+    # bounds, and take the min/max of these bounds.
+    loss_bounds = np.array([[min_pl], [max_pl]])
+    sens_bounds = self.sensitivities[self.sensitivities > 0.0]
     if self.adjacency_type == AdjacencyType.ADD:
       pl_without_sampling = _pl_without_sampling_add
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
@@ -2344,14 +2355,6 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
         np.floor(np.min(possible_bounds) / precision) * precision,
         np.ceil(np.max(possible_bounds) / precision) * precision,
     )
-    if self.adjacency_type == AdjacencyType.ADD:
-      output = self.privacy_loss_for_single_gaussian(
-          np.full_like(privacy_losses, np.inf)
-      )
-    else:
-      output = self.privacy_loss_for_single_gaussian(
-          np.full_like(privacy_losses, -np.inf)
-      )
     output[finite_indices] = self._inverse_privacy_losses_with_range(
         privacy_losses[finite_indices], bounds, precision
     )
-- 
2.43.0


From 8de99c5188e3ffd74646919d230749e60727def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 19/68] fix: connect-the-dots of discrete noise does not fail
 on rounding

---
 .../dp_accounting/pld/privacy_loss_distribution.py              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index b22df0f..478b1ff 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -848,6 +848,8 @@ def _create_pld_pmf_from_monotone_privacy_loss(
 
         deltas = monotone_privacy_loss.get_delta_for_epsilon(
             rounded_epsilons * value_discretization_interval)
+        # Due to rounding, the deltas may not be non-increasing.
+        deltas = np.maximum.accumulate(deltas[::-1])[::-1]
 
         return pld_pmf.create_pmf_pessimistic_connect_dots(
             value_discretization_interval,
-- 
2.43.0


From 85872e0beb2fa6b5949fe453cebea021521189d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 20/68] fix: loss distribution of very large epsilons does not
 overflow

---
 .../dp_accounting/pld/privacy_loss_distribution.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index 478b1ff..34134ca 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -1467,7 +1467,8 @@ def from_privacy_parameters(
       value_discretization_interval)] = (1 - delta) / (1 + math.exp(-epsilon))
   rounded_probability_mass_function[math.ceil(
       -epsilon /
-      value_discretization_interval)] += (1 - delta) / (1 + math.exp(epsilon))
+      value_discretization_interval)] += (
+          (1 - delta) * math.exp(-epsilon) / (1 + math.exp(-epsilon)))
 
   return PrivacyLossDistribution.create_from_rounded_probability(
       rounded_probability_mass_function, privacy_parameters.delta,
-- 
2.43.0


From e09d48c5b2981e4b02bcf43995039077a54e0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 21/68] fix: calibration finds the end of a range of parameters
 meeting the target exactly, in either bracket order

---
 .../dp_accounting/mechanism_calibration.py    | 97 +++++++++++--------
 1 file changed, 56 insertions(+), 41 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..852312e 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -17,6 +17,7 @@ Algorithms to optimize some quantity while remaining within a specified privacy
 budget.
 """
 
+import math
 from typing import Callable, Optional, Union
 
 import attr
@@ -82,7 +83,9 @@ def _search_for_explicit_bracket_interval(
   gap = upper - lower
   num_tries = 0
 
-  while lower_value * upper_value > 0:
+  # The target is met wherever the gap is not positive, including where it is
+  # exactly zero.
+  while (lower_value > 0) == (upper_value > 0):
     num_tries += 1
     if num_tries > 30:
       raise NoBracketIntervalFoundError(
@@ -103,21 +106,24 @@ def _bisect(
     tol: float,
     lower_value: Optional[float] = None,
     upper_value: Optional[float] = None,
+    discrete: bool = False,
 ) -> float:
   """Bisection search to find approximate root with non-positive value.
 
   Args:
     function: Function to find approximate root of. Conceptually, the function
-      should be continuous, although really the only requirement is that it has
-      opposite signs at the endpoints.
-    lower: Lower endpoint.
-    upper: Upper endpoint.
+      should be continuous, although really the only requirement is that it is
+      positive at exactly one of the endpoints.
+    lower: One endpoint.
+    upper: The other endpoint. May be less than `lower`.
     tol: Terminate when endpoints are within tol of each other.
     lower_value: Value at lower endpoint.
     upper_value: Value at upper endpoint.
+    discrete: Whether to search over integers only, in which case the endpoints
+      must be integers and tol at least 1.
 
   Returns:
-    A point with non-positive value within tol of root.
+    A point with non-positive value within tol of a point with positive value.
 
   Raises:
     ValueError: If values at lower and upper do not have opposite signs.
@@ -127,26 +133,22 @@ def _bisect(
   if upper_value is None:
     upper_value = function(upper)
 
-  if lower_value == 0:
-    return lower
-  if upper_value == 0:
-    return upper
-
-  if lower_value * upper_value > 0:
+  if (lower_value > 0) == (upper_value > 0):
     raise ValueError('Values must have opposite signs.')
 
-  if upper - lower <= tol:
-    return lower if lower_value < 0 else upper
+  middle = (lower + upper) // 2 if discrete else (lower + upper) / 2
+
+  if abs(upper - lower) <= tol or middle in (lower, upper):
+    return upper if lower_value > 0 else lower
 
-  middle = (lower + upper) / 2
   middle_value = function(middle)
 
-  if middle_value == 0:
-    return middle
-  elif lower_value * middle_value < 0:
-    return _bisect(function, lower, middle, tol, lower_value, middle_value)
+  if (lower_value > 0) != (middle_value > 0):
+    return _bisect(
+        function, lower, middle, tol, lower_value, middle_value, discrete)
   else:
-    return _bisect(function, middle, upper, tol, middle_value, upper_value)
+    return _bisect(
+        function, middle, upper, tol, middle_value, upper_value, discrete)
 
 
 def calibrate_dp_mechanism(
@@ -231,9 +233,13 @@ def calibrate_dp_mechanism(
   elif tol <= 0:
     raise ValueError(f'tol must be positive. Found {tol}.')
 
+  def to_integer(x: float) -> int:
+    # Unlike round(), maps values that differ by 1 to consecutive integers.
+    return math.floor(x + 0.5)
+
   def epsilon_gap(x: float) -> float:
     if discrete:
-      x = round(x)
+      x = to_integer(x)
     event = make_event_from_param(x)
     accountant = make_fresh_accountant()
     if not isinstance(accountant.ledger, dp_event.NoOpDpEvent):
@@ -247,44 +253,53 @@ def calibrate_dp_mechanism(
     raise TypeError(f'Unrecognized bracket_interval type: '
                     f'{type(bracket_interval)}')
 
+  lower, upper = attr.astuple(bracket_interval)
+
   try:
     root, result = optimize.brentq(
-        epsilon_gap,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
-        xtol=tol,
-        full_output=True)
+        epsilon_gap, lower, upper, xtol=tol, full_output=True, disp=False)
   except ValueError as err:
     raise ValueError(
         '`brentq` raised ValueError. This often means the supplied bracket '
         f'interval {bracket_interval} did not bracket a solution.') from err
 
+  if discrete:
+    lower, root, upper = to_integer(lower), to_integer(root), to_integer(upper)
+
   if not result.converged:
     root = None
   else:
+    # Points near the root, without leaving the bracket interval.
+    root_plus_tol = min(root + tol, max(lower, upper))
+    root_minus_tol = max(root - tol, min(lower, upper))
+    root_gap = epsilon_gap(root)
     # We need to ensure that gap is not positive, guaranteeing the returned
     # parameter gives no less privacy than was requested. Since epsilon_gap can
     # be expensive to compute, we first try values near the returned root.
     # Considering brentq's contract that there exists a root within tol of the
     # returned value, in most cases adding +/- tol will suffice.
-    if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) < 0:
-        root += tol
-      elif epsilon_gap(root - tol) < 0:
-        root -= tol
+    if root_gap > 0:
+      if epsilon_gap(root_plus_tol) <= 0:
+        root = root_plus_tol
+      elif epsilon_gap(root_minus_tol) <= 0:
+        root = root_minus_tol
       else:
         root = None
+    # If the target is met exactly at an endpoint, brentq returns that endpoint,
+    # although it may be one of a whole range of values that meet the target
+    # exactly and far from the end of that range. The same goes for any integer
+    # that meets the target exactly.
+    elif (
+        root_gap == 0
+        and (discrete or root in (lower, upper))
+        and epsilon_gap(root_plus_tol) <= 0
+        and epsilon_gap(root_minus_tol) <= 0
+        and max(epsilon_gap(lower), epsilon_gap(upper)) > 0
+    ):
+      root = None
 
   if root is None:
     # Fallback to custom bisection that guarantees root with non-positive value.
-    root = _bisect(
-        epsilon_gap,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
-        tol,
-    )
-
-  if discrete:
-    root = round(root)
+    root = _bisect(epsilon_gap, lower, upper, tol, discrete=discrete)
 
-  return root
+  return to_integer(root) if discrete else float(root)
-- 
2.43.0


From be68a60f44b78befa13449efb45935ee8d8f2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 22/68] fix: inverting a monotone function ends when tolerance
 is below floating point spacing and respects the lower bound

---
 python/dp_accounting/dp_accounting/pld/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..9d015c1 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -96,6 +96,8 @@ def inverse_monotone_function(func: Callable[[float], float],
       return None
 
   if initial_guess_x is not None:
+    # Do not search below the lower bound.
+    initial_guess_x = max(initial_guess_x, lower_x)
     while initial_guess_x < upper_x and check(func(initial_guess_x), value):
       lower_x = initial_guess_x
       initial_guess_x *= 2
@@ -111,6 +113,8 @@ def inverse_monotone_function(func: Callable[[float], float],
       mid_x = (upper_x + lower_x) // 2
     else:
       mid_x = (upper_x + lower_x) / 2
+      if mid_x in (lower_x, upper_x):
+        break  # No floating point number in between.
 
     if check(func(mid_x), value):
       lower_x = mid_x
-- 
2.43.0


From 3a643c3e4ebb20ce71a29f334a17e3dba511b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 23/68] fix: smallest discrete Laplace noise is not enlarged by
 rounding of the losses

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 59d9b9c..849a83c 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -132,11 +132,13 @@ def get_smallest_discrete_laplace_noise(
     parameter = 1 / inverse_parameter
     # Setting value_discretization_interval equal to parameter because the
     # privacy loss of discrete Laplace mechanism is always divisible by the
-    # parameter.
+    # parameter. Connect-the-dots is used as rounding up the computed privacy
+    # losses may move them to the next multiple.
     return privacy_loss_distribution.from_discrete_laplace_mechanism(
         parameter,
         sensitivity=sensitivity,
-        value_discretization_interval=parameter)
+        value_discretization_interval=parameter,
+        use_connect_dots=True)
 
   # discrete Laplace mechanism with parameter
   # epsilon / (sensitivity * num_queries) is epsilon-DP (for num_queries
-- 
2.43.0


From 729259b73dde03c9f0b0d862f7132e67ae144366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 24/68] fix: advanced composition is accurate for tiny deltas
 and does not overflow for large losses

---
 .../dp_accounting/pld/accountant.py           | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 849a83c..6351201 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -16,7 +16,7 @@
 import math
 from typing import Callable, Optional
 
-from scipy import special
+import numpy as np
 
 from dp_accounting.pld import common
 from dp_accounting.pld import privacy_loss_distribution
@@ -262,17 +262,29 @@ def advanced_composition(
   k = num_queries
 
   # The calculation follows Theorem 3.3 of https://arxiv.org/pdf/1311.0776.pdf
+  # The summands are computed in log space so that they do not overflow, and the
+  # total delta without subtracting from one, so that it stays accurate when it
+  # is small.
   for i in range(k // 2, -1, -1):
     delta_i = 0
     for l in range(i):
-      delta_i += special.binom(k, l) * (
-          math.exp(epsilon * (k - l)) - math.exp(epsilon * (k - 2 * i + l)))
-    delta_i /= ((1 + math.exp(epsilon))**k)
-    if 1 - ((1 - delta) ** k) * (1 - delta_i) <= total_delta:
+      log_binom = (
+          math.lgamma(k + 1) - math.lgamma(l + 1) - math.lgamma(k - l + 1))
+      delta_i += math.exp(
+          log_binom - epsilon * l - k * math.log1p(math.exp(-epsilon))
+      ) * -math.expm1(-2 * epsilon * (i - l))
+    if _total_delta(delta, k, delta_i) <= total_delta:
       return epsilon * (k - 2 * i)
   return None
 
 
+def _total_delta(delta: float, num_queries: int, delta_i: float = 0) -> float:
+  """Returns 1 - (1 - delta)^num_queries * (1 - delta_i)."""
+  if delta == 1 or delta_i >= 1:
+    return 1 if num_queries else 0
+  return -math.expm1(num_queries * math.log1p(-delta) + math.log1p(-delta_i))
+
+
 def get_smallest_epsilon_from_advanced_composition(
     total_privacy_parameters: common.DifferentialPrivacyParameters,
     num_queries: int,
@@ -298,12 +310,15 @@ def get_smallest_epsilon_from_advanced_composition(
     1 - (1 - delta)^num_queries for which no guarantee of
     total_privacy_parameters DP is possible for any value of epsilon.
   """
-  if 1 - ((1 - delta) ** num_queries) > total_privacy_parameters.delta:
+  if _total_delta(delta, num_queries) > total_privacy_parameters.delta:
     return None
 
+  lower_bound = total_privacy_parameters.epsilon / num_queries
+  # Due to rounding, composing lower_bound may give more than the total epsilon.
+  while lower_bound * num_queries > total_privacy_parameters.epsilon:
+    lower_bound = float(np.nextafter(lower_bound, 0))
   search_parameters = common.BinarySearchParameters(
-      total_privacy_parameters.epsilon / num_queries,
-      total_privacy_parameters.epsilon)
+      lower_bound, total_privacy_parameters.epsilon)
 
   def get_total_epsilon_for_epsilon(epsilon):
     privacy_parameters = common.DifferentialPrivacyParameters(epsilon, delta)
-- 
2.43.0


From ed3c5848aea7fb5d019540986ceaba20b48494ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 25/68] fix: clipping an empty set of points does not fail

---
 learning/clustering/clustering_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index 0c3de98..fe103e2 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -194,7 +194,7 @@ class Data():
       points = self.datapoints
     scale = self.radius / np.maximum(
         np.linalg.norm(points, axis=-1), self.radius).reshape(-1, 1)
-    if np.min(scale) < 1.0:
+    if np.any(scale < 1.0):
       logging.debug(
           "Found %s points outside of radius provided, rescaling them to "
           "have norm exactly equal to the radius.", np.sum(scale < 1.0))
-- 
2.43.0


From b7ac5813c16e4bbeb29d78ffd569d5ae2e52d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 26/68] fix: private average accepts points with integer
 coordinates

---
 learning/clustering/central_privacy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/central_privacy_utils.py b/learning/clustering/central_privacy_utils.py
index 2a4b2e3..27c78ff 100644
--- a/learning/clustering/central_privacy_utils.py
+++ b/learning/clustering/central_privacy_utils.py
@@ -62,7 +62,7 @@ def get_private_average(nonprivate_points: np.ndarray, private_count: int,
   sum_points = np.sum(nonprivate_points, axis=0)
 
   # Add noise.
-  sum_points += np.random.normal(
+  sum_points = sum_points + np.random.normal(
       scale=average_privacy_param.gaussian_standard_deviation, size=dim)
   return sum_points / private_count
 
-- 
2.43.0


From 9070e7caaaa3072cb8dc99390b1e29338af0f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 27/68] fix: smallest Gaussian noise is accurate relative to
 small sensitivities

Clustering of data with a small radius failed to find its noise: the search started from a bound that was too high.
---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 51deb02..d9ab006 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1183,7 +1183,9 @@ class GaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
         0,
         math.inf,
         initial_guess=math.sqrt(2 * math.log(1.5 / privacy_parameters.delta)) *
-        sensitivity / privacy_parameters.epsilon)
+        sensitivity / privacy_parameters.epsilon,
+        # The noise scales with the sensitivity, and so should its accuracy.
+        tolerance=1e-7 * min(1, sensitivity))
 
     def _get_delta_for_standard_deviation(current_standard_deviation):
       return GaussianPrivacyLoss(
-- 
2.43.0


From 254c9a6e638ec7abaf22d5831170d659824252d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 28/68] fix: thresholded count is consumed when it is below the
 pre-threshold (Go)

---
 go/dpagg/count.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 0925b8d..2282003 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -225,12 +225,6 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	if preThreshold < 1 {
 		preThreshold = 1
 	}
-	// Pre-thresholding guarantees that at least this number of unique contributions are in the
-	// partition.
-	if c.count < preThreshold {
-		return nil, nil
-	}
-
 	threshold, err := c.Noise.Threshold(c.l0Sensitivity, float64(c.lInfSensitivity), c.epsilon, c.delta, thresholdDelta)
 	if err != nil {
 		return nil, err
@@ -239,6 +233,12 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	if err != nil {
 		return nil, err
 	}
+	// Pre-thresholding guarantees that at least this number of unique contributions are in the
+	// partition. The object is consumed in either case, so that the outcome of this comparison
+	// is not followed by another release.
+	if c.count < preThreshold {
+		return nil, nil
+	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
 	if result < int64(math.Ceil(threshold))+(preThreshold-1) {
-- 
2.43.0


From 56cf976a17dc88a6a7538db5b2278ee30982652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 29/68] fix: quantile entries just below the upper bound are
 counted in the last leaf (Go)

---
 go/dpagg/quantiles.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index ed84df8..2a893a9 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -288,7 +288,8 @@ func (bq *BoundedQuantiles) Result(rank float64) (float64, error) {
 // the leaf nodes partition the range betwen lower and upper into intervals of equal size.
 func (bq *BoundedQuantiles) getIndex(value float64) int {
 	indexFromLeftmostLeaf := int((value - bq.lower) / (bq.upper - bq.lower) * float64(bq.numLeaves))
-	if value == bq.upper {
+	// The upper bound belongs to the last leaf, and so do values for which the above is rounded up.
+	if indexFromLeftmostLeaf >= bq.numLeaves {
 		indexFromLeftmostLeaf = bq.numLeaves - 1
 	}
 	return bq.leftmostLeafIndex + indexFromLeftmostLeaf
-- 
2.43.0


From 1ebf556112accf76947d1d5f3ff21f100ddb5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 30/68] fix: Laplace noise for integers rejects an L1
 sensitivity that overflows (Go)

---
 go/noise/laplace_noise.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index 1bc33fe..ef973b2 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -17,6 +17,7 @@
 package noise
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/google/differential-privacy/go/v3/checks"
@@ -71,7 +72,11 @@ func (laplace) AddNoiseInt64(x, l0Sensitivity, lInfSensitivity int64, epsilon, d
 	if err := checkArgsLaplace(l0Sensitivity, float64(lInfSensitivity), epsilon, delta); err != nil {
 		return 0, err
 	}
-	return addLaplaceInt64(x, epsilon, lInfSensitivity*l0Sensitivity /* l1Sensitivity */), nil
+	l1Sensitivity := lInfSensitivity * l0Sensitivity
+	if l1Sensitivity/l0Sensitivity != lInfSensitivity {
+		return 0, fmt.Errorf("L0Sensitivity (%d) and LInfSensitivity (%d) are too high - the L1 sensitivity overflows", l0Sensitivity, lInfSensitivity)
+	}
+	return addLaplaceInt64(x, epsilon, l1Sensitivity), nil
 }
 
 // Threshold returns the smallest threshold k to use in a differentially private
-- 
2.43.0


From 4d08a10cbca4398a3cce5fe5f58c45c30a77960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 31/68] fix: noise scales beyond the range of float64 are
 rejected instead of looping for ever (Go)

---
 go/noise/gaussian_noise.go    |  6 ++++++
 go/noise/laplace_noise.go     |  6 +++++-
 go/noise/secure_noise_math.go | 10 ++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/go/noise/gaussian_noise.go b/go/noise/gaussian_noise.go
index 3adc332..5d166a4 100644
--- a/go/noise/gaussian_noise.go
+++ b/go/noise/gaussian_noise.go
@@ -64,6 +64,9 @@ func (gaussian) AddNoiseFloat64(x float64, l0Sensitivity int64, lInfSensitivity,
 	}
 
 	sigma := SigmaForGaussian(l0Sensitivity, lInfSensitivity, epsilon, delta)
+	if err := checkNoiseScale(2.0*sigma, binomialBound); err != nil {
+		return 0, err
+	}
 	return addGaussianFloat64(x, sigma), nil
 }
 
@@ -334,6 +337,9 @@ func SigmaForGaussian(l0Sensitivity int64, lInfSensitivity, epsilon, delta float
 		lowerBound = upperBound
 		upperBound = upperBound * 2
 	}
+	if math.IsInf(upperBound, 1) {
+		return upperBound // σ_tight exceeds the range of float64, the search below would not terminate.
+	}
 
 	// Loop runtime:
 	//   O(log(1/σ_tight) + log(1/gaussianSigmaAccuracy)) if σ_tight < l2Sensitivity
diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index ef973b2..b38a0f2 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -62,7 +62,11 @@ func (laplace) AddNoiseFloat64(x float64, l0Sensitivity int64, lInfSensitivity,
 	if err := checkArgsLaplace(l0Sensitivity, lInfSensitivity, epsilon, delta); err != nil {
 		return 0, err
 	}
-	return addLaplaceFloat64(x, epsilon, lInfSensitivity*float64(l0Sensitivity) /* l1Sensitivity */), nil
+	l1Sensitivity := lInfSensitivity * float64(l0Sensitivity)
+	if err := checkNoiseScale(l1Sensitivity/epsilon, granularityParam); err != nil {
+		return 0, err
+	}
+	return addLaplaceFloat64(x, epsilon, l1Sensitivity), nil
 }
 
 // AddNoiseInt64 adds Laplace noise to the specified int64 x so that the
diff --git a/go/noise/secure_noise_math.go b/go/noise/secure_noise_math.go
index d318c5a..a6802d0 100644
--- a/go/noise/secure_noise_math.go
+++ b/go/noise/secure_noise_math.go
@@ -17,6 +17,7 @@
 package noise
 
 import (
+	"fmt"
 	"math"
 )
 
@@ -58,6 +59,15 @@ func ceilPowerOfTwo(x float64) float64 {
 	return math.Float64frombits(exponentBits + 0x0010000000000000)
 }
 
+// checkNoiseScale returns an error if noise of the given scale cannot be discretized at the given
+// resolution, because its granularity is not a positive finite float64. Sampling would not terminate.
+func checkNoiseScale(scale, resolution float64) error {
+	if math.IsNaN(ceilPowerOfTwo(scale / resolution)) {
+		return fmt.Errorf("noise of scale %e cannot be generated: sensitivity and privacy parameters exceed the range of float64", scale)
+	}
+	return nil
+}
+
 // roundToMultipleOfPowerOfTwo returns a multiple of granularity that is
 // closest to x. The value of granularity needs to be an exact power of 2,
 // otherwise the result might not be exact.
-- 
2.43.0


From bfc874b99f1fd99168bb4d06f1248bb571d529e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 32/68] fix: a partition selection object decoded from a second
 serialization is usable (Go)

---
 go/dpagg/select_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 4b67612..833d89b 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -428,7 +428,7 @@ func (s *PreAggSelectPartition) GobDecode(data []byte) error {
 		delta:         enc.Delta,
 		l0Sensitivity: enc.L0Sensitivity,
 		idCount:       enc.IDCount,
-		state:         enc.State,
+		state:         defaultState,
 		preThreshold:  enc.PreThreshold,
 	}
 	return nil
-- 
2.43.0


From cf0b2d67fd225cb04e6c203e3030ce4077a35525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 33/68] fix: keep probabilities of partition selection are
 accurate for small epsilon (Go)

---
 go/dpagg/select_partition.go | 37 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 833d89b..8d4b3ee 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -300,29 +300,15 @@ func sumExpPowers(epsilon float64, minPower, numPowers int64) (float64, error) {
 	// The typical closed form formula is:
 	//   exp(minPower*ε) * (exp(numPowers*ε) - 1) / (exp(ε) - 1)
 	//
-	// In our setting, it is OK to return +∞ but not OK to return NaN. We use the
-	// following mathematically equivalent formulas to avoid returning NaN when
-	// using our finite precision arithmetic:
-	//   exp((minPower-1)*ε) * (exp(numPowers*ε) - 1) / (1 - exp(-ε))               (1)
-	//   (exp((numPowers+minPower-1)*ε) - exp((minPower-1)*ε)) / (1 - exp(-ε))      (2)
+	// In our setting, it is OK to return +∞ but not OK to return NaN. Besides, the
+	// differences must not be computed by subtraction, because they lose all their
+	// significant digits when ε is close to 0. We use the following mathematically
+	// equivalent formula:
+	//   exp((numPowers+minPower-1)*ε) * (exp(-numPowers*ε) - 1) / (exp(-ε) - 1)
 	//
-	// We use (1) when minPower >= 1. In that case, (exp(numPowers*ε) - 1) is
-	// the only potentially infinite term. The other two terms satisfy
-	// exp((minPower-1) * ε) >= 1 and 0 < (1 - exp(-ε)) <= 1. The
-	// multiplication and division operations involving these other two
-	// terms increase the result. Thus, the result is never NaN, and +∞ is
-	// returned only when necessary.
-	//
-	// We use (2) when minPower < 1. In that case, 0 <= exp((minPower-1)*ε) < 1,
-	// so the numerator
-	//   (exp((numPowers+minPower-1)*ε) - exp((minPower-1)*ε))
-	// is never NaN, and is only +∞ when necessary. The denominator in (2)
-	// satisfies 0 < (1-exp(-ε)) <= 1. The result of (2) is never NaN and
-	// only achieves +∞ when necessary overall.
-	if minPower >= 1 {
-		return expEpsilonPow(minPower-1) * (expEpsilonPow(numPowers) - 1) / (1 - expEpsilonPow(-1)), nil
-	}
-	return (expEpsilonPow(numPowers+minPower-1) - expEpsilonPow(minPower-1)) / (1 - expEpsilonPow(-1)), nil
+	// Both differences are within [-1, 0), so the result is never NaN, and is only
+	// +∞ when necessary.
+	return expEpsilonPow(numPowers+minPower-1) * (math.Expm1(-float64(numPowers)*epsilon) / math.Expm1(-epsilon)), nil
 }
 
 // keepPartitionProbability calculates the value of keepPartitionProbability
@@ -341,8 +327,11 @@ func keepPartitionProbability(idCount, l0Sensitivity int64, epsilon, delta float
 	// region of the domain, (2) on the second region of the domain, and (3)
 	// (i.e., the value 1) on the highest region of the domain. We denote by nCr
 	// the crossover point in the domain from (1) to (2).
-	nCr := int64(1 + math.Floor((1/pEpsilon)*math.Log(
-		(1+math.Exp(-pEpsilon)*(2*pDelta-1))/(pDelta*(1+math.Exp(-pEpsilon))))))
+	//
+	// The usual closed form of its logarithm,
+	//   log((1 + exp(-ε) * (2δ-1)) / (δ * (1 + exp(-ε)))),
+	// is computed in a way that is accurate when ε is close to 0, and never negative.
+	nCr := int64(1 + math.Floor(math.Log1p((1-pDelta)/pDelta*math.Tanh(pEpsilon/2))/pEpsilon))
 
 	if idCount <= nCr {
 		// Closed form solution of keepPartitionProbability(n) on [0, nCr].
-- 
2.43.0


From 2bf04622869b039edb377187b2aac602a610a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 34/68] fix: hard threshold of partition selection includes the
 pre-threshold (Go)

---
 go/dpagg/select_partition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 8d4b3ee..dc80e35 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -373,7 +373,8 @@ func (s *PreAggSelectPartition) GetHardThreshold() (int, error) {
 			return 0, err
 		}
 		if prob >= 1 { // keepPartitionProbability converges to 1.
-			return int(i), nil
+			// Units up to the pre-threshold are not counted, see ShouldKeepPartition.
+			return int(i + s.preThreshold - 1), nil
 		}
 	}
 }
-- 
2.43.0


From e08e249e1c85464eb91a25def1308b2b8b0c482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 35/68] fix: thresholds beyond the range of int64 drop results
 instead of releasing all of them (Go)

---
 go/dpagg/count.go   |  8 ++------
 go/dpagg/helpers.go | 10 ++++++++++
 go/dpagg/sum.go     |  4 +---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 2282003..ff0b245 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -200,9 +200,7 @@ func (c *Count) ThresholdedResult(thresholdDelta float64) (*int64, error) {
 	if err != nil {
 		return nil, err
 	}
-	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
-	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold)) {
+	if isBelowThreshold(result, threshold, 0) {
 		return nil, nil
 	}
 	return &result, nil
@@ -239,9 +237,7 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	if c.count < preThreshold {
 		return nil, nil
 	}
-	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
-	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold))+(preThreshold-1) {
+	if isBelowThreshold(result, threshold, preThreshold-1) {
 		// PreThreshold is set to 1 as the default, we subtract it here so it has no effect.
 		// This subtraction also ensures that partition might be kept if preThreshold = count.
 		return nil, nil
diff --git a/go/dpagg/helpers.go b/go/dpagg/helpers.go
index 820fb75..9e48779 100644
--- a/go/dpagg/helpers.go
+++ b/go/dpagg/helpers.go
@@ -55,3 +55,13 @@ func ClampInt64(e, lower, upper int64) (int64, error) {
 	}
 	return e, nil
 }
+
+// isBelowThreshold returns whether a noised integer result is dropped by a threshold that was computed
+// for continuous noise, and is increased by offset >= 0.
+//
+// Thresholds are rounded up to ensure that no DP guarantees are
+// violated due to a result being returned that is less than the fractional threshold.
+func isBelowThreshold(result int64, threshold float64, offset int64) bool {
+	t := math.Ceil(threshold)
+	return t >= math.MaxInt64-float64(offset) || result < int64(t)+offset
+}
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index 2c1f8b4..0864e84 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -266,9 +266,7 @@ func (bs *BoundedSumInt64) ThresholdedResult(thresholdDelta float64) (*int64, er
 	if err != nil {
 		return nil, err
 	}
-	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
-	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold)) {
+	if isBelowThreshold(result, threshold, 0) {
 		return nil, nil
 	}
 	return &result, nil
-- 
2.43.0


From 4fcc6a36d7516f6d208e9a8e9e4fc34d37fef283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 36/68] fix: thresholds of integers account for the rounding of
 the noise (Go)

---
 go/dpagg/helpers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/go/dpagg/helpers.go b/go/dpagg/helpers.go
index 9e48779..f95a4ef 100644
--- a/go/dpagg/helpers.go
+++ b/go/dpagg/helpers.go
@@ -59,9 +59,10 @@ func ClampInt64(e, lower, upper int64) (int64, error) {
 // isBelowThreshold returns whether a noised integer result is dropped by a threshold that was computed
 // for continuous noise, and is increased by offset >= 0.
 //
-// Thresholds are rounded up to ensure that no DP guarantees are
+// The noise added to integers is rounded to the nearest integer, i.e., a result of k may stem from
+// a value of k-0.5 before rounding. Thresholds are rounded up to ensure that no DP guarantees are
 // violated due to a result being returned that is less than the fractional threshold.
 func isBelowThreshold(result int64, threshold float64, offset int64) bool {
-	t := math.Ceil(threshold)
+	t := math.Ceil(threshold + 0.5)
 	return t >= math.MaxInt64-float64(offset) || result < int64(t)+offset
 }
-- 
2.43.0


From 5806b94624ac0d87fe98873333698ce0b6016fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 37/68] fix: Gaussian noise for very large epsilon has a
 positive deviation (Go)

---
 go/noise/gaussian_noise.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go/noise/gaussian_noise.go b/go/noise/gaussian_noise.go
index 5d166a4..0a1d95a 100644
--- a/go/noise/gaussian_noise.go
+++ b/go/noise/gaussian_noise.go
@@ -282,14 +282,14 @@ func deltaForGaussian(sigma float64, l0Sensitivity int64, lInfSensitivity, epsil
 	b := epsilon * sigma / l2Sensitivity
 	c := math.Exp(epsilon)
 
-	if math.IsInf(c, +1) {
-		// δ(σ,s,ε) –> 0 as ε –> ∞, so return 0.
-		return 0
-	}
 	if math.IsInf(b, +1) {
 		// δ(σ,s,ε) –> 0 as the L2 sensitivity –> 0, so return 0.
 		return 0
 	}
+	if math.IsInf(c, +1) {
+		// cΦ(-a - b) cannot be computed. Leaving it out yields an upper bound of δ(σ,s,ε).
+		return distuv.UnitNormal.CDF(a - b)
+	}
 
 	return distuv.UnitNormal.CDF(a-b) - c*distuv.UnitNormal.CDF(-a-b)
 }
-- 
2.43.0


From cc76cdc1843c5ce4dfe84f80894e982a9a318f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 38/68] fix: confidence intervals of integers do not overflow
 (Go)

---
 go/noise/gaussian_noise.go |  6 +-----
 go/noise/laplace_noise.go  |  6 +-----
 go/noise/noise.go          | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/go/noise/gaussian_noise.go b/go/noise/gaussian_noise.go
index 0a1d95a..e9a1ae9 100644
--- a/go/noise/gaussian_noise.go
+++ b/go/noise/gaussian_noise.go
@@ -125,11 +125,7 @@ func (gaussian) ComputeConfidenceIntervalInt64(noisedX, l0Sensitivity, lInfSensi
 	// interval bounds more accurately. The reason is that the resolution of float64 values is most
 	// fine grained around zero.
 	confIntAroundZero := computeConfidenceIntervalGaussian(0, sigma, alpha).roundToInt64()
-	// Adding noisedX after converting the interval bounds to int64 ensures that no precision is lost
-	// due to the coarse resolution of float64 values for large instances of noisedX.
-	lowerBound := nextSmallerFloat64(int64(confIntAroundZero.LowerBound) + noisedX)
-	upperBound := nextLargerFloat64(int64(confIntAroundZero.UpperBound) + noisedX)
-	return ConfidenceInterval{LowerBound: lowerBound, UpperBound: upperBound}, nil
+	return confIntAroundZero.addInt64(noisedX), nil
 }
 
 // ComputeConfidenceIntervalFloat64 computes a confidence interval that contains the raw value x from which float64
diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index b38a0f2..e5f3f96 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -178,11 +178,7 @@ func (laplace) ComputeConfidenceIntervalInt64(noisedX, l0Sensitivity, lInfSensit
 	// interval bounds more accurately. The reason is that the resolution of float64 values is most
 	// fine grained around zero.
 	confIntAroundZero := computeConfidenceIntervalLaplace(0, lambda, alpha).roundToInt64()
-	// Adding noisedX after converting the interval bounds to int64 ensures that no precision is lost
-	// due to the coarse resolution of float64 values for large instances of noisedX.
-	lowerBound := nextSmallerFloat64(int64(confIntAroundZero.LowerBound) + noisedX)
-	upperBound := nextLargerFloat64(int64(confIntAroundZero.UpperBound) + noisedX)
-	return ConfidenceInterval{LowerBound: lowerBound, UpperBound: upperBound}, nil
+	return confIntAroundZero.addInt64(noisedX), nil
 }
 
 // ComputeConfidenceIntervalFloat64 computes a confidence interval that contains the raw value x from which float64
diff --git a/go/noise/noise.go b/go/noise/noise.go
index 7791684..327cc5a 100644
--- a/go/noise/noise.go
+++ b/go/noise/noise.go
@@ -75,6 +75,25 @@ func (confInt ConfidenceInterval) roundToInt64() ConfidenceInterval {
 	return ConfidenceInterval{LowerBound: math.Round(confInt.LowerBound), UpperBound: math.Round(confInt.UpperBound)}
 }
 
+// addInt64 shifts a ConfidenceInterval struct with integer bounds by n. The bounds are rounded outwards
+// if they are not representable.
+func (confInt ConfidenceInterval) addInt64(n int64) ConfidenceInterval {
+	const limit = 1 << 62
+	if math.Abs(confInt.LowerBound) >= limit || math.Abs(confInt.UpperBound) >= limit || n >= limit || n <= -limit {
+		// The sum may exceed the range of int64.
+		return ConfidenceInterval{
+			LowerBound: math.Nextafter(confInt.LowerBound+float64(n), math.Inf(-1)),
+			UpperBound: math.Nextafter(confInt.UpperBound+float64(n), math.Inf(1)),
+		}
+	}
+	// Adding n after converting the interval bounds to int64 ensures that no precision is lost
+	// due to the coarse resolution of float64 values for large instances of n.
+	return ConfidenceInterval{
+		LowerBound: nextSmallerFloat64(int64(confInt.LowerBound) + n),
+		UpperBound: nextLargerFloat64(int64(confInt.UpperBound) + n),
+	}
+}
+
 // Noise is an interface for primitives that add noise to data to make it differentially private.
 type Noise interface {
 	// AddNoiseInt64 noise to the specified int64 x so that the output is ε-differentially
-- 
2.43.0


From 125f386b7391dfe1e991038e5a55eec352dff3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 39/68] fix: variance over integer ranges uses exact midpoints
 (C++)

---
 cc/algorithms/bounded-variance.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cc/algorithms/bounded-variance.h b/cc/algorithms/bounded-variance.h
index de82899..60fedd6 100644
--- a/cc/algorithms/bounded-variance.h
+++ b/cc/algorithms/bounded-variance.h
@@ -159,9 +159,10 @@ class BoundedVariance : public Algorithm<T> {
   static double MidpointOfSquares(T lower, T upper) {
     DCHECK_GE(upper, lower);
     if (0 > lower && 0 < upper) {
-      return std::max(lower * lower, upper * upper) / 2;
+      return static_cast<double>(std::max(lower * lower, upper * upper)) / 2;
     }
-    return lower * lower + (upper * upper - lower * lower) / 2;
+    return lower * lower +
+           static_cast<double>(upper * upper - lower * lower) / 2;
   }
 
   // Friend class for testing only
@@ -245,7 +246,8 @@ class BoundedVarianceWithFixedBounds : public BoundedVariance<T> {
 
  protected:
   absl::StatusOr<Output> GenerateResult(double noise_interval_level) override {
-    const double sum_midpoint = lower_ + ((upper_ - lower_) / 2);
+    const double sum_midpoint =
+        lower_ + (static_cast<double>(upper_ - lower_) / 2);
     const double sum_of_squares_midpoint =
         BoundedVariance<T>::MidpointOfSquares(lower_, upper_);
 
@@ -482,7 +484,8 @@ class BoundedVarianceWithApproxBounds : public BoundedVariance<T> {
     const double noised_count = count_mechanism_->AddNoise(partial_count_);
 
     // Calculate noised normalized sum
-    const T sum_midpoint = lower + ((upper - lower) / 2);
+    const double sum_midpoint =
+        lower + (static_cast<double>(upper - lower) / 2);
     ASSIGN_OR_RETURN(
         std::unique_ptr<NumericalMechanism> sum_mechanism,
         BoundedVariance<T>::BuildSumMechanism(
-- 
2.43.0


From 61b3e90ca47dc5b0eecd7b92b6ed9358374a0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 40/68] fix: Laplace thresholds of large deltas (C++)

---
 cc/algorithms/partition-selection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/algorithms/partition-selection.h b/cc/algorithms/partition-selection.h
index e6808dd..0ee3e86 100644
--- a/cc/algorithms/partition-selection.h
+++ b/cc/algorithms/partition-selection.h
@@ -402,7 +402,7 @@ class LaplacePartitionSelection : public PartitionSelectionStrategy {
     ASSIGN_OR_RETURN(double adjusted_delta,
                      CalculateAdjustedDelta(delta, max_partitions_contributed));
 
-    if (delta > 0.5) {
+    if (adjusted_delta > 0.5) {
       return 1 + CalculateDiversity(epsilon, max_partitions_contributed) *
                      std::log(2 * (1 - adjusted_delta));
     } else {
-- 
2.43.0


From d1bc6caeec3d852705450655b0290aa59a28f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 41/68] fix: keep probability does not become NaN for large
 epsilon (C++)

---
 cc/algorithms/partition-selection.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cc/algorithms/partition-selection.h b/cc/algorithms/partition-selection.h
index 0ee3e86..592954f 100644
--- a/cc/algorithms/partition-selection.h
+++ b/cc/algorithms/partition-selection.h
@@ -231,10 +231,12 @@ class NearTruncatedGeometricPartitionSelection
     if (num_users < GetPreThreshold()) {
       return 0;
     } else if (num_users <= crossover_1_) {
-      return (
-          (std::expm1((num_users - GetPreThreshold() + 1) * adjusted_epsilon_) /
-           std::expm1(adjusted_epsilon_)) *
-          adjusted_delta);
+      // Numerically stable equivalent of expm1(n * epsilon) / expm1(epsilon).
+      const double n = num_users - GetPreThreshold() + 1;
+      return std::exp((n - 1) * adjusted_epsilon_) *
+             (std::expm1(-n * adjusted_epsilon_) /
+              std::expm1(-adjusted_epsilon_)) *
+             adjusted_delta;
     } else if (num_users > crossover_1_ && num_users <= crossover_2_) {
       const double m = num_users - crossover_1_;
       const double p_crossover = ProbabilityOfKeep(crossover_1_);
-- 
2.43.0


From edda76199936ef0fdb56bcbffc1c337edaa00d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 42/68] fix: intervals and variance of Gaussian noise with a
 given deviation (C++)

---
 cc/algorithms/numerical-mechanisms.cc | 2 +-
 cc/algorithms/numerical-mechanisms.h  | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/cc/algorithms/numerical-mechanisms.cc b/cc/algorithms/numerical-mechanisms.cc
index 7db1dd1..a4cb0ba 100644
--- a/cc/algorithms/numerical-mechanisms.cc
+++ b/cc/algorithms/numerical-mechanisms.cc
@@ -349,7 +349,7 @@ int64_t GaussianMechanism::MemoryUsed() {
 NumericalMechanism::NoiseConfidenceIntervalResult
 GaussianMechanism::UncheckedNoiseConfidenceInterval(
     double confidence_level, double noised_result) const {
-  const double stddev = CalculateStddev(GetEpsilon(), delta_, l2_sensitivity_);
+  const double stddev = CalculateStddev();
   // calculated using the symmetric properties of the Gaussian distribution
   // and the cumulative distribution function for the distribution
   double bound =
diff --git a/cc/algorithms/numerical-mechanisms.h b/cc/algorithms/numerical-mechanisms.h
index c261c42..2d0c326 100644
--- a/cc/algorithms/numerical-mechanisms.h
+++ b/cc/algorithms/numerical-mechanisms.h
@@ -425,8 +425,7 @@ class GaussianMechanism : public NumericalMechanism {
   double GetL2Sensitivity() const { return l2_sensitivity_; }
 
   double GetVariance() const override {
-    return std::pow(CalculateStddev(GetEpsilon(), GetDelta(), l2_sensitivity_),
-                    2);
+    return std::pow(CalculateStddev(), 2);
   }
 
   double Cdf(double x) const override {
-- 
2.43.0


From 9b146bd21e90d8e862fdcb2d45dcced80f477bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 43/68] fix: Gaussian noise does not vanish when exp(epsilon)
 overflows (C++)

---
 cc/algorithms/internal/gaussian-stddev-calculator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cc/algorithms/internal/gaussian-stddev-calculator.cc b/cc/algorithms/internal/gaussian-stddev-calculator.cc
index e97d691..af249bd 100644
--- a/cc/algorithms/internal/gaussian-stddev-calculator.cc
+++ b/cc/algorithms/internal/gaussian-stddev-calculator.cc
@@ -67,6 +67,11 @@ double CalculateDeltaForGaussianStddev(double epsilon, double l2_sensitivity,
     // delta goes to 0.
     return 0;
   }
+  if (std::isinf(c)) {
+    // e^epsilon does not fit into a double. Leaving the second term out can
+    // only overestimate delta.
+    return StandardGaussianCDF(a - b);
+  }
   return StandardGaussianCDF(a - b) - c * StandardGaussianCDF(-a - b);
 }
 
-- 
2.43.0


From bf85d4cb6bd53f99ae807725a53ed89191978b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:29 +0000
Subject: [PATCH 44/68] fix: quantile trees: an interval does not store counts
 without noise (C++)

---
 cc/algorithms/quantile-tree.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cc/algorithms/quantile-tree.h b/cc/algorithms/quantile-tree.h
index 854d4a8..ae609ba 100644
--- a/cc/algorithms/quantile-tree.h
+++ b/cc/algorithms/quantile-tree.h
@@ -377,10 +377,15 @@ class QuantileTree<T>::Privatized {
 
       std::unordered_map<int, ConfidenceInterval> child_confidence_intervals;
       for (int i = leftmost_child_index; i <= rightmost_child_index; i++) {
+        // Does not insert nodes without noise into the tree: results are
+        // computed from it.
+        const auto noised_node = noised_tree_.find(i);
+        const double noised_count =
+            noised_node == noised_tree_.end() ? 0 : noised_node->second;
         ConfidenceInterval ci;
-        ci.set_lower_bound(noised_tree_[i] +
+        ci.set_lower_bound(noised_count +
                            zero_confidence_interval.lower_bound());
-        ci.set_upper_bound(noised_tree_[i] +
+        ci.set_upper_bound(noised_count +
                            zero_confidence_interval.upper_bound());
         child_confidence_intervals[i] = ci;
       }
-- 
2.43.0


From 33652f83733008fe2cc4eb1048c33b95be278795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 45/68] fix: privacy loss masses are not negative (C++)

---
 cc/accounting/privacy_loss_distribution.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cc/accounting/privacy_loss_distribution.cc b/cc/accounting/privacy_loss_distribution.cc
index 6938e9f..204085c 100644
--- a/cc/accounting/privacy_loss_distribution.cc
+++ b/cc/accounting/privacy_loss_distribution.cc
@@ -126,9 +126,12 @@ PrivacyLossDistribution::CreateForAdditiveNoise(
     double rounded_down_value = std::floor(
         mechanism_privacy_loss.PrivacyLoss(lower_x) / discretization_interval);
     while (lower_x < tail.upper_x_truncation) {
-      upper_x = std::min(tail.upper_x_truncation,
-                         mechanism_privacy_loss.InversePrivacyLoss(
-                             discretization_interval * rounded_down_value));
+      // Because of rounding, discretization_interval * rounded_down_value may be
+      // slightly above the privacy loss at lower_x.
+      upper_x = std::max(
+          lower_x, std::min(tail.upper_x_truncation,
+                            mechanism_privacy_loss.InversePrivacyLoss(
+                                discretization_interval * rounded_down_value)));
       // Each x in [lower_x, upper_x] results in privacy loss that lies in
       // [discretization_interval * rounded_down_value,
       // discretization_interval * (rounded_down_value + 1)]
-- 
2.43.0


From 794c9ed5de913b946366c8acc9690dd9cb7ba279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 46/68] fix: convolutions of truncated and empty functions
 (C++)

---
 cc/accounting/convolution.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cc/accounting/convolution.cc b/cc/accounting/convolution.cc
index 1fe9c11..e45105c 100644
--- a/cc/accounting/convolution.cc
+++ b/cc/accounting/convolution.cc
@@ -52,6 +52,8 @@ UnpackedProbabilityMassFunction UnpackProbabilityMassFunction(
 
 ProbabilityMassFunction CreateProbabilityMassFunction(
     const UnpackedProbabilityMassFunction& input, double tail_mass_truncation) {
+  if (input.items.empty()) return ProbabilityMassFunction();
+
   int lower_truncation_index = -1;
   double lower_truncation_mass = 0;
   do {
@@ -80,6 +82,8 @@ ProbabilityMassFunction CreateProbabilityMassFunction(
 ProbabilityMassFunction Convolve(const ProbabilityMassFunction& x,
                                  const ProbabilityMassFunction& y,
                                  double tail_mass_truncation) {
+  if (x.empty() || y.empty()) return ProbabilityMassFunction();
+
   UnpackedProbabilityMassFunction x_map = UnpackProbabilityMassFunction(x);
   UnpackedProbabilityMassFunction y_map = UnpackProbabilityMassFunction(y);
 
@@ -169,19 +173,30 @@ ConvolutionTruncationBounds ComputeConvolutionTruncationBounds(
 
 ProbabilityMassFunction Convolve(const ProbabilityMassFunction& x,
                                  int num_times, double tail_mass_truncation) {
+  if (num_times == 0) return {{0, 1}};
+  if (x.empty()) return ProbabilityMassFunction();
+
   UnpackedProbabilityMassFunction x_map = UnpackProbabilityMassFunction(x);
 
   const ConvolutionTruncationBounds truncation_bounds =
       ComputeConvolutionTruncationBounds(x_map, num_times,
                                          tail_mass_truncation);
+  if (truncation_bounds.upper_bound < truncation_bounds.lower_bound) {
+    // All the mass may be truncated.
+    return ProbabilityMassFunction();
+  }
   const int output_size =
       truncation_bounds.upper_bound - truncation_bounds.lower_bound + 1;
   KissFftWrapper wrapper(output_size);
   const int real_size = wrapper.EfficientRealSize();
   const int complex_size = wrapper.ComplexSize();
 
+  // Due to the truncation, the output may be smaller than the input. The result
+  // is computed modulo real_size, so is the input.
   std::vector<double> x_input(real_size, 0.0);
-  absl::c_copy(x_map.items, x_input.begin());
+  for (int i = 0; i < x_map.items.size(); ++i) {
+    x_input[i % real_size] += x_map.items[i];
+  }
 
   std::vector<complex<double>> x_transformed(complex_size, 0.0);
   wrapper.ForwardTransform(x_input.data(), x_transformed.data());
-- 
2.43.0


From 7b6ebd35b464b5a6d310f343d997436c8e95f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 47/68] fix: the infinity mass is at most one (C++)

---
 cc/accounting/privacy_loss_distribution.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc/accounting/privacy_loss_distribution.cc b/cc/accounting/privacy_loss_distribution.cc
index 204085c..841ced0 100644
--- a/cc/accounting/privacy_loss_distribution.cc
+++ b/cc/accounting/privacy_loss_distribution.cc
@@ -290,7 +290,7 @@ absl::Status PrivacyLossDistribution::Compose(
   if (estimate_type_ == EstimateType::kPessimistic) {
     // In the pessimistic case, the truncated probability mass needs to be
     // treated as if they were infinity.
-    new_infinity_mass += tail_mass_truncation;
+    new_infinity_mass = std::min(1.0, new_infinity_mass + tail_mass_truncation);
   }
 
   ProbabilityMassFunction new_pmf = Convolve(
@@ -357,7 +357,8 @@ void PrivacyLossDistribution::Compose(int num_times,
       probability_mass_function_, num_times, effective_tail_mass_truncation);
 
   probability_mass_function_ = new_pmf;
-  infinity_mass_ = new_infinity_mass + effective_tail_mass_truncation;
+  infinity_mass_ =
+      std::min(1.0, new_infinity_mass + effective_tail_mass_truncation);
 }
 
 double PrivacyLossDistribution::GetDeltaForEpsilon(double epsilon) const {
-- 
2.43.0


From dde2abffd7db7f2767eef15ca4350ac2e8ff9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 48/68] fix: deltas of composed distributions with large losses
 (C++)

---
 cc/accounting/privacy_loss_distribution.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cc/accounting/privacy_loss_distribution.cc b/cc/accounting/privacy_loss_distribution.cc
index 841ced0..d47448b 100644
--- a/cc/accounting/privacy_loss_distribution.cc
+++ b/cc/accounting/privacy_loss_distribution.cc
@@ -317,8 +317,11 @@ PrivacyLossDistribution::GetDeltaForEpsilonForComposedPLD(
   // summation in equation (4).
 
   double other_cumulative_upper_mass = 0;
+  // To avoid overflow, this is multiplied by exp(lower_mass_anchor).
   double other_cumulative_lower_mass = 0;
   int current_idx = other_pmf.items.size() - 1;
+  double lower_mass_anchor =
+      other_pld.discretization_interval_ * (current_idx + other_pmf.min_key);
   double delta = 0;
 
   for (int this_idx = 0; this_idx < this_pmf.items.size(); ++this_idx) {
@@ -330,13 +333,20 @@ PrivacyLossDistribution::GetDeltaForEpsilonForComposedPLD(
                                   (current_idx + other_pmf.min_key);
       if (other_privacy_loss + this_privacy_loss <= epsilon) break;
       other_cumulative_upper_mass += other_pmf.items[current_idx];
+      if (lower_mass_anchor - other_privacy_loss > 500) {
+        other_cumulative_lower_mass *=
+            std::exp(other_privacy_loss - lower_mass_anchor);
+        lower_mass_anchor = other_privacy_loss;
+      }
       other_cumulative_lower_mass +=
-          other_pmf.items[current_idx] / std::exp(other_privacy_loss);
+          other_pmf.items[current_idx] *
+          std::exp(lower_mass_anchor - other_privacy_loss);
       --current_idx;
     }
-    delta += this_probability_mass * (other_cumulative_upper_mass -
-                                      std::exp(epsilon - this_privacy_loss) *
-                                          other_cumulative_lower_mass);
+    delta += this_probability_mass *
+             (other_cumulative_upper_mass -
+              std::exp(epsilon - this_privacy_loss - lower_mass_anchor +
+                       std::log(other_cumulative_lower_mass)));
   }
 
   // The probability that the composed privacy loss is infinite.
-- 
2.43.0


From 58761cbcc837ee00284c1d78e0cc08f9667d721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 49/68] fix: epsilon of deltas with vanishing lower mass (C++)

---
 cc/accounting/privacy_loss_distribution.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc/accounting/privacy_loss_distribution.cc b/cc/accounting/privacy_loss_distribution.cc
index d47448b..72ba58d 100644
--- a/cc/accounting/privacy_loss_distribution.cc
+++ b/cc/accounting/privacy_loss_distribution.cc
@@ -408,9 +408,10 @@ double PrivacyLossDistribution::GetEpsilonForDelta(double delta) const {
     mass_upper += pmf_val;
     mass_lower += std::exp(-val) * pmf_val;
 
-    if (mass_upper >= delta && mass_lower == 0) {
+    if (mass_upper >= delta &&
+        mass_lower < std::numeric_limits<double>::min()) {
       // This only occurs when val is very large, which results in exp(-val)
-      // being treated as zero.
+      // being treated as zero or losing its precision.
       return std::max(0.0, val);
     }
   }
-- 
2.43.0


From f53372408767787bc6a25586a047889c888e5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 50/68] fix: delta of additive noise when exp(epsilon)
 overflows (C++)

---
 cc/accounting/privacy_loss_mechanism.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc/accounting/privacy_loss_mechanism.h b/cc/accounting/privacy_loss_mechanism.h
index 8cc3532..0086967 100644
--- a/cc/accounting/privacy_loss_mechanism.h
+++ b/cc/accounting/privacy_loss_mechanism.h
@@ -90,8 +90,9 @@ class AdditiveNoisePrivacyLoss {
   // (epsilon, delta)-DP.
   virtual double GetDeltaForEpsilon(double epsilon) const {
     const double x_cutoff = InversePrivacyLoss(epsilon);
+    // Sums in the exponent as std::exp(epsilon) may overflow.
     return NoiseCdf(x_cutoff) -
-           std::exp(epsilon) * NoiseCdf(x_cutoff - sensitivity_);
+           std::exp(epsilon + std::log(NoiseCdf(x_cutoff - sensitivity_)));
   }
 
   double Sensitivity() const { return sensitivity_; }
-- 
2.43.0


From 7ca6c867de81b1319eae2d1a62fbd165fdaa29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 51/68] fix: inverse loss of discrete Gaussian noise stays
 where it is infinite (C++)

---
 cc/accounting/privacy_loss_mechanism.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cc/accounting/privacy_loss_mechanism.cc b/cc/accounting/privacy_loss_mechanism.cc
index 45d0893..3d61c47 100644
--- a/cc/accounting/privacy_loss_mechanism.cc
+++ b/cc/accounting/privacy_loss_mechanism.cc
@@ -321,8 +321,11 @@ DiscreteGaussianPrivacyLoss::Create(const EpsilonDelta& epsilon_delta,
 
 double DiscreteGaussianPrivacyLoss::InversePrivacyLoss(
     double privacy_loss) const {
-  return std::floor(0.5 * sensitivity_ -
-                    privacy_loss * (std::pow(sigma_, 2) / sensitivity_));
+  // The privacy loss is infinite below sensitivity_ - truncation_bound_.
+  return std::max<double>(
+      sensitivity_ - truncation_bound_ - 1,
+      std::floor(0.5 * sensitivity_ -
+                 privacy_loss * (std::pow(sigma_, 2) / sensitivity_)));
 }
 
 double DiscreteGaussianPrivacyLoss::NoiseCdf(double x) const {
-- 
2.43.0


From 817b09349d4b88254bb0cbe61bcc607778b79c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 52/68] fix: default truncation of discrete Gaussian noise
 covers the sensitivity (C++)

---
 cc/accounting/privacy_loss_mechanism.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc/accounting/privacy_loss_mechanism.cc b/cc/accounting/privacy_loss_mechanism.cc
index 3d61c47..2c39647 100644
--- a/cc/accounting/privacy_loss_mechanism.cc
+++ b/cc/accounting/privacy_loss_mechanism.cc
@@ -256,7 +256,8 @@ DiscreteGaussianPrivacyLoss::Create(double sigma, int sensitivity,
   // truncated is at most 1e-30. (See Proposition 1 in the supplementary
   // material.)
   int truncation_bound_value =
-      truncation_bound.value_or(std::ceil(11.6 * sigma));
+      truncation_bound.value_or(std::max<int>(std::ceil(11.6 * sigma),
+                                              (sensitivity + 1) / 2));
   if (truncation_bound_value * 2 < sensitivity) {
     return absl::InvalidArgumentError(
         "Truncation bound should be at least half of sensitivity");
-- 
2.43.0


From f25c195c9f86f96d3f06edc00f786ca1cfe41815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 53/68] fix: quantile entries just below the upper bound are
 counted in the last leaf (Java)

---
 .../privacy/differentialprivacy/BoundedQuantiles.java | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
index fde81f6..afd654b 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
@@ -134,9 +134,14 @@ public class BoundedQuantiles {
     return leftmostLeafIndex
         + (value == params.upper()
             ? numberOfLeaves - 1
-            : (int)
-                Math.floor(
-                    (value - params.lower()) / (params.upper() - params.lower()) * numberOfLeaves));
+            // Rounding may yield numberOfLeaves for values just below the upper bound.
+            : min(
+                (int)
+                    Math.floor(
+                        (value - params.lower())
+                            / (params.upper() - params.lower())
+                            * numberOfLeaves),
+                numberOfLeaves - 1));
   }
 
   /**
-- 
2.43.0


From ec5a98f58d2acb84ee8c06caafbbe54f3fab10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 54/68] fix: quantiles reject a number of partitions whose
 sensitivity overflows (Java)

---
 .../privacy/differentialprivacy/BoundedQuantiles.java     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
index afd654b..18e5fa3 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
@@ -688,6 +688,13 @@ public class BoundedQuantiles {
             treeHeight >= 1, "Tree height must be at least 1. Provided value: %s", treeHeight);
       }
 
+      private static void checkL0SensitivityOverflow(int treeHeight, int maxPartitionsContributed) {
+        checkArgument(
+            maxPartitionsContributed <= Integer.MAX_VALUE / treeHeight,
+            "maxPartitionsContributed is too high - the L0Sensitivity overflows. Provided value: %s",
+            maxPartitionsContributed);
+      }
+
       private static void checkBranchingFactor(int branchingFactor) {
         checkArgument(
             branchingFactor >= 2,
@@ -708,6 +715,7 @@ public class BoundedQuantiles {
         DpPreconditions.checkBoundsNotEqual(params.lower(), params.upper());
         checkTreeHeight(params.treeHeight());
         checkBranchingFactor(params.branchingFactor());
+        checkL0SensitivityOverflow(params.treeHeight(), params.maxPartitionsContributed());
 
         return new BoundedQuantiles(params);
       }
-- 
2.43.0


From d89c6db52344a234845b8c684b65b0117b7baafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 55/68] fix: keep probabilities of partition selection are
 accurate for small epsilon (Java)

---
 .../PreAggSelectPartition.java                | 38 ++++++-------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java b/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java
index 64d3cb6..e9ed023 100644
--- a/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java
+++ b/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java
@@ -229,14 +229,15 @@ public class PreAggSelectPartition {
     // lowest region of the domain, (2) on the second region of the domain, and (3) (i.e., the
     // value 1) on the highest region of the domain. We denote by nCr the
     // crossover point in the domain from (1) to (2).
+    //
+    // The usual closed form of its logarithm,
+    //   log((1 + e^(-ε) * (2δ - 1)) / (δ * (1 + e^(-ε)))),
+    // is computed in a way that is accurate when ε is close to 0, and never negative.
     long nCr =
         (long)
             (1
                 + Math.floor(
-                    (1 / pEpsilon)
-                        * Math.log(
-                            (1 + Math.exp(-pEpsilon) * (2 * pDelta - 1))
-                                / (pDelta * (1 + Math.exp(-pEpsilon))))));
+                    Math.log1p((1 - pDelta) / pDelta * Math.tanh(pEpsilon / 2)) / pEpsilon));
 
     if (idsCount <= nCr) {
       // Closed form solution of selectPartitionPr(n) on (0, nCr].
@@ -276,31 +277,16 @@ public class PreAggSelectPartition {
 
     The typical closed form formula is: e^(minPower*ε) * (e^(numPowers*ε) - 1) / (e^(ε) - 1).
 
-    In our setting, it is OK to return +∞ but not OK to return NaN. We use the following
-    mathematically equivalent formulas to avoid returning NaN when using our finite precision
-    arithmetic:
+    In our setting, it is OK to return +∞ but not OK to return NaN. Besides, the differences must not
+    be computed by subtraction, because they lose all their significant digits when ε is close to 0.
+    We use the following mathematically equivalent formula:
 
-    e^((minPower - 1)*ε) * (e^(numPowers*ε) - 1) / (1 - e^(-ε))                     (1)
-    (e^((numPowers+minPower - 1) * ε) - e^((minPower - 1) * ε)) / (1 - e^(-ε))      (2)
+    e^((numPowers + minPower - 1) * ε) * (e^(-numPowers*ε) - 1) / (e^(-ε) - 1)
 
-    We use (1) when minPower >= 1. In that case, (e^(numPowers*ε) - 1) is the only potentially
-    infinite term. The other two terms satisfy e^((minPower-1) * ε) >= 1 and 0 < (1 - exp(-ε)) <= 1.
-    The multiplication and division operations involving these other two terms increase the result.
-    Thus, the result is never NaN, and +∞ is returned only when necessary.
-
-    We use (2) when minPower < 1. In that case, 0 <= exp((minPower-1)*ε) < 1, so the numerator
-    (e^((numPowers + minPower - 1) * ε) - exp((minPower - 1) * ε)) is never NaN, and is only +∞ when
-    necessary. The denominator in (2) satisfies 0 < (1-exp(-ε)) <= 1. The result of (2) is never NaN
-    and only achieves +∞ when necessary overall.
+    Both differences are within [-1, 0), so the result is never NaN, and is only +∞ when necessary.
     */
-    if (minPower >= 1) {
-      return Math.exp((minPower - 1) * epsilon)
-          * (Math.expm1(numPowers * epsilon))
-          / (1 - Math.exp(-epsilon));
-    }
-
-    return (Math.exp((numPowers + minPower - 1) * epsilon) - Math.exp((minPower - 1) * epsilon))
-        / (1 - Math.exp(-epsilon));
+    return Math.exp((numPowers + minPower - 1) * epsilon)
+        * (Math.expm1(-numPowers * epsilon) / Math.expm1(-epsilon));
   }
 
   private void checkMergeParametersAreEqual(PreAggSelectPartitionSummary otherCount) {
-- 
2.43.0


From a3740d632ce769c5cf31281a2a977172fecd1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 56/68] fix: approximate bounds do not throw when a uniform
 draw is zero (Java)

---
 .../differentialprivacy/ApproximateBounds.java        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java b/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java
index bf88aca..fdca94e 100644
--- a/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java
+++ b/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java
@@ -257,6 +257,15 @@ public class ApproximateBounds {
     return rightBinBoundaries[bin];
   }
 
+  /** Draws from (0, 1): quantiles of rank 0 do not exist. */
+  private double nextPositiveDouble() {
+    double result = random.nextDouble();
+    while (result == 0.0) {
+      result = random.nextDouble();
+    }
+    return result;
+  }
+
   private double[] addNoise(long[] bins) {
     double[] noisyBins = new double[bins.length];
     for (int i = 0; i < bins.length; i++) {
@@ -267,7 +276,7 @@ public class ApproximateBounds {
       // can use a faster randomness generation method.
       noisyBins[i] =
           LaplaceNoise.computeQuantile(
-              /* rank= */ random.nextDouble(),
+              /* rank= */ nextPositiveDouble(),
               /* x= */ (double) bins[i],
               /* l1Sensitivity= */ params.maxContributions(),
               params.epsilon());
-- 
2.43.0


From 3e2748850b410973f3956ea029fdf837550f52c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 57/68] fix: sums of integers reject bounds whose sensitivity
 overflows (Java)

---
 .../differentialprivacy/LongBoundedSum.java        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java b/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java
index 6d804a8..cad271e 100644
--- a/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java
+++ b/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java
@@ -225,7 +225,12 @@ public class LongBoundedSum {
   }
 
   private static long getLInfSensitivity(long lower, long upper, int maxContributionsPerPartition) {
-    return max(abs(lower), abs(upper)) * maxContributionsPerPartition;
+    return getMaxAbsoluteBound(lower, upper) * maxContributionsPerPartition;
+  }
+
+  private static long getMaxAbsoluteBound(long lower, long upper) {
+    // The absolute value of Long.MIN_VALUE is not representable.
+    return max(abs(max(lower, -Long.MAX_VALUE)), abs(max(upper, -Long.MAX_VALUE)));
   }
 
   @AutoValue
@@ -248,9 +253,8 @@ public class LongBoundedSum {
     public abstract static class Builder {
       private static void checkLInfSensitivityOverflow(
           long lower, long upper, int maxContributionsPerPartition) {
-        long lInfSensitivity = getLInfSensitivity(lower, upper, maxContributionsPerPartition);
         Preconditions.checkArgument(
-            Long.compare(lInfSensitivity, Long.MAX_VALUE) <= 0,
+            getMaxAbsoluteBound(lower, upper) <= Long.MAX_VALUE / maxContributionsPerPartition,
             "bounds and maxContributionsPerPartition are too high - the LInfSensitivity "
                 + " overflows. Provided values: lower bound = %s, upper bound = %s,"
                 + " maxContributionsPerPartition = %s",
@@ -360,6 +364,8 @@ public class LongBoundedSum {
         DpPreconditions.checkMaxPartitionsContributed(params.maxPartitionsContributed());
         DpPreconditions.checkMaxContributionsPerPartition(params.maxContributionsPerPartition());
         DpPreconditions.checkBounds(params.lower(), params.upper());
+        checkLInfSensitivityOverflow(
+            params.lower(), params.upper(), params.maxContributionsPerPartition());
 
         switch (params.noise().getMechanismType()) {
           case LAPLACE:
@@ -379,8 +385,6 @@ public class LongBoundedSum {
           default:
             break;
         }
-        checkLInfSensitivityOverflow(
-            params.lower(), params.upper(), params.maxContributionsPerPartition());
 
         return new LongBoundedSum(params);
       }
-- 
2.43.0


From 941b794e7d92bdacc4a4550f60ef6745c84145dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 58/68] fix: Laplace noise for integers rejects an L1
 sensitivity that overflows (Java)

---
 .../differentialprivacy/DiscreteLaplaceNoise.java      | 10 ++++++++--
 .../privacy/differentialprivacy/LaplaceNoise.java      |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/DiscreteLaplaceNoise.java b/java/main/com/google/privacy/differentialprivacy/DiscreteLaplaceNoise.java
index d755975..0c6c48e 100644
--- a/java/main/com/google/privacy/differentialprivacy/DiscreteLaplaceNoise.java
+++ b/java/main/com/google/privacy/differentialprivacy/DiscreteLaplaceNoise.java
@@ -16,6 +16,8 @@
 
 package com.google.privacy.differentialprivacy;
 
+import static com.google.common.base.Preconditions.checkArgument;
+
 import com.google.privacy.differentialprivacy.proto.SummaryOuterClass.MechanismType;
 import java.security.SecureRandom;
 import java.util.Random;
@@ -64,8 +66,12 @@ public class DiscreteLaplaceNoise implements Noise {
       long x, int l0Sensitivity, long lInfSensitivity, double epsilon, double delta) {
     DpPreconditions.checkSensitivities(l0Sensitivity, lInfSensitivity);
 
-    return addNoise(
-        x, (long) Noise.getL1Sensitivity(l0Sensitivity, lInfSensitivity), epsilon, delta);
+    double l1Sensitivity = Noise.getL1Sensitivity(l0Sensitivity, lInfSensitivity);
+    checkArgument(
+        l1Sensitivity <= Long.MAX_VALUE,
+        "l1Sensitivity must not exceed the range of long. Provided value: %s",
+        l1Sensitivity);
+    return addNoise(x, (long) l1Sensitivity, epsilon, delta);
   }
 
   /**
diff --git a/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java b/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java
index 861cde1..4bfedc8 100644
--- a/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java
+++ b/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java
@@ -121,8 +121,12 @@ public class LaplaceNoise implements Noise {
       long x, int l0Sensitivity, long lInfSensitivity, double epsilon, double delta) {
     DpPreconditions.checkSensitivities(l0Sensitivity, lInfSensitivity);
 
-    return addNoise(
-        x, (long) Noise.getL1Sensitivity(l0Sensitivity, lInfSensitivity), epsilon, delta);
+    double l1Sensitivity = Noise.getL1Sensitivity(l0Sensitivity, lInfSensitivity);
+    checkArgument(
+        l1Sensitivity <= Long.MAX_VALUE,
+        "l1Sensitivity must not exceed the range of long. Provided value: %s",
+        l1Sensitivity);
+    return addNoise(x, (long) l1Sensitivity, epsilon, delta);
   }
 
   /**
-- 
2.43.0


From 59aa5d396a60c20bb0c51d7776db4f636bda819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 59/68] fix: Gaussian noise for very large epsilon has a
 positive deviation (Java)

---
 .../google/privacy/differentialprivacy/GaussianNoise.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java b/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java
index 0472345..2e3653c 100644
--- a/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java
+++ b/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java
@@ -358,10 +358,14 @@ public class GaussianNoise implements Noise {
     double b = epsilon * sigma / l2Sensitivity;
     double c = Math.exp(epsilon);
 
-    if (b == Double.POSITIVE_INFINITY || c == Double.POSITIVE_INFINITY) {
-      // If either l2Sensitivity goes to 0 or e^epsilon goes to infinity, delta goes to 0.
+    if (b == Double.POSITIVE_INFINITY) {
+      // If l2Sensitivity goes to 0, delta goes to 0.
       return 0;
     }
+    if (c == Double.POSITIVE_INFINITY) {
+      // c * CDF(-a - b) cannot be computed. Leaving it out yields an upper bound of delta.
+      return NORMAL_DISTRIBUTION.cumulativeProbability(a - b);
+    }
     return NORMAL_DISTRIBUTION.cumulativeProbability(a - b)
         - c * NORMAL_DISTRIBUTION.cumulativeProbability(-a - b);
   }
-- 
2.43.0


From 9495e7b485a53055724ac1b1d45d41bf98591261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 60/68] fix: confidence intervals of integers do not overflow
 (Java)

---
 .../differentialprivacy/GaussianNoise.java    |  6 +-----
 .../differentialprivacy/LaplaceNoise.java     |  6 +-----
 .../differentialprivacy/SecureNoiseMath.java  | 20 +++++++++++++++++++
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java b/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java
index 2e3653c..d03a258 100644
--- a/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java
+++ b/java/main/com/google/privacy/differentialprivacy/GaussianNoise.java
@@ -228,11 +228,7 @@ public class GaussianNoise implements Noise {
     // fine grained around zero.
     ConfidenceInterval confIntAroundZero =
         computeConfidenceInterval(0.0, l0Sensitivity, lInfSensitivity, epsilon, delta, alpha);
-    // Adding noisedX after converting the interval bounds to long ensures that no precision is lost
-    // due to the coarse resolution of double values for large instances of noisedX.
-    return ConfidenceInterval.create(
-        SecureNoiseMath.nextSmallerDouble(Math.round(confIntAroundZero.lowerBound()) + noisedX),
-        SecureNoiseMath.nextLargerDouble(Math.round(confIntAroundZero.upperBound()) + noisedX));
+    return SecureNoiseMath.shiftRounded(confIntAroundZero, noisedX);
   }
 
   /**
diff --git a/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java b/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java
index 4bfedc8..77376d8 100644
--- a/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java
+++ b/java/main/com/google/privacy/differentialprivacy/LaplaceNoise.java
@@ -220,11 +220,7 @@ public class LaplaceNoise implements Noise {
     // fine grained around zero.
     ConfidenceInterval confIntAroundZero =
         computeConfidenceInterval(0.0, l0Sensitivity, lInfSensitivity, epsilon, delta, alpha);
-    // Adding noisedX after converting the interval bounds to long ensures that no precision is lost
-    // due to the coarse resolution of double values for large instances of noisedX.
-    return ConfidenceInterval.create(
-        SecureNoiseMath.nextSmallerDouble(Math.round(confIntAroundZero.lowerBound()) + noisedX),
-        SecureNoiseMath.nextLargerDouble(Math.round(confIntAroundZero.upperBound()) + noisedX));
+    return SecureNoiseMath.shiftRounded(confIntAroundZero, noisedX);
   }
 
   /**
diff --git a/java/main/com/google/privacy/differentialprivacy/SecureNoiseMath.java b/java/main/com/google/privacy/differentialprivacy/SecureNoiseMath.java
index 5a6d185..4041ef6 100644
--- a/java/main/com/google/privacy/differentialprivacy/SecureNoiseMath.java
+++ b/java/main/com/google/privacy/differentialprivacy/SecureNoiseMath.java
@@ -128,4 +128,24 @@ final class SecureNoiseMath {
     long dif = (long) result - n;
     return dif <= 0 ? result : Math.nextDown(result);
   }
+
+  /**
+   * Rounds the bounds of {@code confInt} to integers and adds {@code n} to them. The bounds are
+   * rounded outwards if they are not representable.
+   */
+  static ConfidenceInterval shiftRounded(ConfidenceInterval confInt, long n) {
+    double limit = (double) (1L << 62);
+    if (Math.abs(confInt.lowerBound()) >= limit
+        || Math.abs(confInt.upperBound()) >= limit
+        || Math.abs((double) n) >= limit) {
+      // The sum may exceed the range of long.
+      return ConfidenceInterval.create(
+          Math.nextDown(confInt.lowerBound() + n), Math.nextUp(confInt.upperBound() + n));
+    }
+    // Adding n after converting the interval bounds to long ensures that no precision is lost due to
+    // the coarse resolution of double values for large instances of n.
+    return ConfidenceInterval.create(
+        nextSmallerDouble(Math.round(confInt.lowerBound()) + n),
+        nextLargerDouble(Math.round(confInt.upperBound()) + n));
+  }
 }
-- 
2.43.0


From da8cdcdc1c09665bcaa1e3439d08c21bd0155dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 61/68] fix: the private mean is noised when the noisy count is
 negative

---
 python/dp_auditorium/dp_auditorium/mechanisms/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/mechanisms/mean.py b/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
index 5a20584..c6dea2d 100644
--- a/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
+++ b/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
@@ -102,7 +102,7 @@ class MeanMechanism:
         * np.abs(self._max_value - self._min_value)
         / self._epsilon_budget_scale
         / self._epsilon
-        / counts_for_noise_scale
+        / np.abs(counts_for_noise_scale)
     )
     noise_scale = np.maximum(_ZERO_TOLERANCE, noise_scale)
     return value_sum / counts_for_mean + self._noise_function(
-- 
2.43.0


From 5cfe329295ffe68e6fbe73c4bc1f1c1744903c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 62/68] fix: an empty sample cannot be split into training and
 test samples

---
 .../dp_auditorium/testers/property_tester_utils.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
index dbe283f..069d909 100644
--- a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
+++ b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
@@ -40,7 +40,7 @@ def split_train_test_samples(
     ValueError if samples has less than 2 elements.
   """
   n = samples.shape[0]
-  if n == 1:
+  if n < 2:
     raise ValueError(
         'Must have at least 2 elements in sample to generate '
         'training and test samples'
-- 
2.43.0


From 68bd7f2a7bba7afc80b810fdbd9aa26818d925f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 63/68] fix: a trial result of zero is reported to Vizier

---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index 574a90f..ca0e277 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -219,7 +219,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     Returns:
       Array with Vizier suggestions for new neighboring datasets.
     """
-    if last_trial_result:
+    if last_trial_result is not None:
       self._complete_trial(last_trial_result)
 
     self._load_trial()
-- 
2.43.0


From ddaff80424fcaecfd0085aff5be98717677bd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 64/68] fix: a study without further suggestions raises the
 documented error

---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index ca0e277..21760c7 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -38,7 +38,7 @@ def _get_trial(
     the value false if Vizier did not suggest a new trial and true otherwise.
   """
   suggestions = study_client.suggest(count=1)
-  new_trial = suggestions[-1]
+  new_trial = suggestions[-1] if suggestions else None
   loaded_new_trial = new_trial is not None
   return new_trial, loaded_new_trial
 
-- 
2.43.0


From 3bd3146e33d3568a61545ea96a79d51288f3ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 65/68] fix: suggested labels are classes of the dataset

---
 .../generators/classification_dataset_generator.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
index 5036617..2f8e5cd 100644
--- a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
@@ -79,7 +79,7 @@ def _initialize_vizier_problem_and_params_lookup_table(
     problem.search_space.root.add_int_param(
         idx_to_str[i],
         min_value=0,
-        max_value=num_classes,
+        max_value=num_classes - 1,
     )
   return problem, str_to_idx
 
-- 
2.43.0


From 772507fcec21dfeafe2fca0f181f81391164ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 66/68] fix: the hockey-stick tester uses as many samples of
 both distributions

---
 .../dp_auditorium/testers/hockey_stick_tester.py          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
index 1b61eae..1423612 100644
--- a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
+++ b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
@@ -170,8 +170,12 @@ class HockeyStickPropertyTester(divergence_tester.DivergencePropertyTester):
     if len(samples1.shape) == 1:
       samples1 = samples1.reshape(-1, 1)
       samples2 = samples2.reshape(-1, 1)
-    samples1_final_ix = int(sample_cutoff_fraction * len(samples1))
-    samples2_initial_ix = int(sample_cutoff_fraction * len(samples2))
+    # The two classes have their intended weights only for samples of one size.
+    num_samples = min(len(samples1), len(samples2))
+    samples1 = samples1[:num_samples]
+    samples2 = samples2[:num_samples]
+    samples1_final_ix = int(sample_cutoff_fraction * num_samples)
+    samples2_initial_ix = samples1_final_ix
     samples1 = samples1[0:samples1_final_ix, ...]
     samples2 = samples2[samples2_initial_ix:, ...]
 
-- 
2.43.0


From 6c13028c67991706e138ba709342d29d0c4b1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:12 +0000
Subject: [PATCH 67/68] fix: declare the key type, not the value type, as the
 output of dropping values in SelectPartitions and DistinctPerKey

---
 privacy-on-beam/pbeam/distinct_per_key.go  | 2 +-
 privacy-on-beam/pbeam/select_partitions.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/privacy-on-beam/pbeam/distinct_per_key.go b/privacy-on-beam/pbeam/distinct_per_key.go
index 4dec25e..9274b36 100644
--- a/privacy-on-beam/pbeam/distinct_per_key.go
+++ b/privacy-on-beam/pbeam/distinct_per_key.go
@@ -215,7 +215,7 @@ func DistinctPerKey(s beam.Scope, pcol PrivatePCollection, params DistinctPerKey
 
 	// Drop V's, each <privacyKey, partitionKey> pair now corresponds to a unique V.
 	sampled = beam.SwapKV(s, sampled) // PCollection<ID, kv.Pair{K,V}>.
-	idK := beam.ParDo(s, &dropValuesFn{pcol.codec}, sampled, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.VType.T})
+	idK := beam.ParDo(s, &dropValuesFn{pcol.codec}, sampled, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.KType.T})
 
 	// Perform DP count.
 	pcol.col = idK
diff --git a/privacy-on-beam/pbeam/select_partitions.go b/privacy-on-beam/pbeam/select_partitions.go
index 93cd968..8e72052 100644
--- a/privacy-on-beam/pbeam/select_partitions.go
+++ b/privacy-on-beam/pbeam/select_partitions.go
@@ -73,7 +73,7 @@ func SelectPartitions(s beam.Scope, pcol PrivatePCollection, params SelectPartit
 		if pcol.codec == nil {
 			log.Fatalf("SelectPartitions: no codec found for the input PrivatePCollection.")
 		}
-		partitions = beam.ParDo(s, &dropValuesFn{pcol.codec}, pcol.col, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.VType.T})
+		partitions = beam.ParDo(s, &dropValuesFn{pcol.codec}, pcol.col, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.KType.T})
 	}
 
 	// Second, we keep one contribution per user for each partition.
-- 
2.43.0


From 869ac5eb9cb662565168dc0cdfa304a286060d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:12 +0000
Subject: [PATCH 68/68] fix: consume the privacy budget in SumPerKey,
 MeanPerKey, QuantilesPerKey and VariancePerKey

---
 privacy-on-beam/pbeam/mean.go      | 4 ++--
 privacy-on-beam/pbeam/quantiles.go | 4 ++--
 privacy-on-beam/pbeam/sum.go       | 4 ++--
 privacy-on-beam/pbeam/variance.go  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/privacy-on-beam/pbeam/mean.go b/privacy-on-beam/pbeam/mean.go
index 4a373fa..d3c63c9 100644
--- a/privacy-on-beam/pbeam/mean.go
+++ b/privacy-on-beam/pbeam/mean.go
@@ -142,12 +142,12 @@ func MeanPerKey(s beam.Scope, pcol PrivatePCollection, params MeanParams) beam.P
 	// Get privacy parameters.
 	spec := pcol.privacySpec
 	var err error
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(params.AggregationEpsilon, params.AggregationDelta)
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for Mean: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for Mean: %v", err)
 		}
diff --git a/privacy-on-beam/pbeam/quantiles.go b/privacy-on-beam/pbeam/quantiles.go
index b5f9334..b804d61 100644
--- a/privacy-on-beam/pbeam/quantiles.go
+++ b/privacy-on-beam/pbeam/quantiles.go
@@ -158,12 +158,12 @@ func QuantilesPerKey(s beam.Scope, pcol PrivatePCollection, params QuantilesPara
 	spec := pcol.privacySpec
 	var err error
 
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(params.AggregationEpsilon, params.AggregationDelta)
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for Quantiles: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for Quantiles: %v", err)
 		}
diff --git a/privacy-on-beam/pbeam/sum.go b/privacy-on-beam/pbeam/sum.go
index 25287bc..f8bdf5d 100644
--- a/privacy-on-beam/pbeam/sum.go
+++ b/privacy-on-beam/pbeam/sum.go
@@ -138,12 +138,12 @@ func SumPerKey(s beam.Scope, pcol PrivatePCollection, params SumParams) beam.PCo
 	// Get privacy parameters.
 	spec := pcol.privacySpec
 	var err error
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(params.AggregationEpsilon, params.AggregationDelta)
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for SumPerKey: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for SumPerKey: %v", err)
 		}
diff --git a/privacy-on-beam/pbeam/variance.go b/privacy-on-beam/pbeam/variance.go
index 83f055d..c3cf62d 100644
--- a/privacy-on-beam/pbeam/variance.go
+++ b/privacy-on-beam/pbeam/variance.go
@@ -166,13 +166,13 @@ func VarianceStatisticsPerKey(s beam.Scope, pcol PrivatePCollection, params Vari
 	// Get privacy parameters.
 	spec := pcol.privacySpec
 	var err error
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(
 		params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for VarianceStatistics: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(
 			params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for VarianceStatistics: %v", err)
-- 
2.43.0

