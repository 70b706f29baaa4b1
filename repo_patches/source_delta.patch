From 97f61eb89884531e9442845690a37494eadfc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 01/90] fix: tail never returned for x within rounding of one

---
 pyrichlet/weight_models/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..7a74b87 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -115,7 +115,8 @@ class BaseWeight(ABC):
             raise ValueError("Tail parameter not in range [0,1)")
         if len(self.w) == 0:
             self.random(1)
-        while self.w.sum() < x:
+        # The sum is only meaningful up to its rounding error
+        while x - self.w.sum() > np.finfo(np.float64).eps * len(self.w):
             self.complete(len(self.w) + 1)
         return self.w
 
-- 
2.43.0


From 1d6cbc7fb22d0f042580827efe39c6dd8c52f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 02/90] fix: random_assignment failed without a size

---
 pyrichlet/weight_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 7a74b87..4f25fbf 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -156,7 +156,7 @@ class BaseWeight(ABC):
         inverse_sampling = np.greater.outer(
             u, self.get_normalized_cumulative_weights()
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From 2535d18ebd4124181a27678e66e889c4645b83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 03/90] fix: DirichletDistribution with a vector alpha had the
 wrong dimension

---
 pyrichlet/mixture_models/_dirichlet_distribution_mixture.py | 2 +-
 pyrichlet/weight_models/_dirichlet_distribution.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py b/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py
index f4c222e..f924bd5 100644
--- a/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py
+++ b/pyrichlet/mixture_models/_dirichlet_distribution_mixture.py
@@ -5,5 +5,5 @@ from ..weight_models import DirichletDistribution
 class DirichletDistributionMixture(BaseGaussianMixture):
     def __init__(self, *, n=1, alpha=1, rng=None, **kwargs):
         weight_model = DirichletDistribution(n=n, alpha=alpha, rng=rng)
-        self.n = n
+        self.n = weight_model.n
         super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..a649bf1 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -13,9 +13,9 @@ class DirichletDistribution(BaseWeight):
         assert type(n) == int, "parameter n must be of type int"
         self.n = n
         if type(alpha) in (list, np.ndarray):
-            self.n = n
+            self.n = len(alpha)
             self.alpha = np.array(alpha, dtype=np.float64)
-        elif type(alpha) in (int, float):
+        else:
             self.alpha = np.array([alpha] * self.n, dtype=np.float64)
 
     def weighting_log_likelihood(self):
-- 
2.43.0


From 433e84669182330338422c910477347f5a4cf2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 04/90] fix: DirichletDistribution variational mean of log w_j

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index a649bf1..0a0792b 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -56,7 +56,8 @@ class DirichletDistribution(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum() -
+                             self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
-- 
2.43.0


From 977a3799ee1a81487aa290845f432d037bf805c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 05/90] fix: DirichletDistribution variational mean of log p(w)

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 0a0792b..209a913 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -76,8 +76,8 @@ class DirichletDistribution(BaseWeight):
             raise NotFittedError
         log_sum_w_j = 0
         for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
+            log_sum_w_j += ((self.alpha[j] - 1) *
+                            self.variational_mean_log_w_j(j))
         res = self._log_normalization_constant(self.alpha)
         res += log_sum_w_j
         return res
-- 
2.43.0


From a027b15dcb97942bf1e02569e404d0ff71c508e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 06/90] fix: DirichletProcess variational mean of log p(w)
 counted the last stick

---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..318d09e 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From eaa2022da06bf189c457bd012cb185adbf20a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 07/90] fix: PitmanYorProcess stick fractions were shifted by
 one position

---
 pyrichlet/weight_models/_pitman_yor_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..7ad1c72 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = np.arange(1, size + 1)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +44,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = np.arange(1, len(a_c) + 1)
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +58,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From d6f40bd54185db1ea3d8f3c65adb2faf4177f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 08/90] fix: PitmanYorProcess variational mean of log p(w)

---
 pyrichlet/weight_models/_pitman_yor_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 7ad1c72..16d33fa 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -116,7 +116,7 @@ class PitmanYorProcess(BaseWeight):
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
-- 
2.43.0


From 08c862e89ab20e543ab1129f923802652eb969ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 09/90] fix: GeometricProcess tail stopped short of the
 requested mass

---
 pyrichlet/weight_models/_geometric_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..902afd9 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -40,9 +40,9 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
-        size = int(np.log(1 - x) / np.log(1 - self.p))
+        size = int(np.ceil(np.log(1 - x) / np.log(1 - self.p)))
         self.complete(size)
-        return self.w
+        return super().tail(x)
 
     def fit_variational(self, variational_d):
         self.variational_d = variational_d
-- 
2.43.0


From 16cc125f47bb6ae24f3c4878083e345609a07f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 10/90] fix: GeometricProcess variational parameters missed one
 observation

---
 pyrichlet/weight_models/_geometric_process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 902afd9..827e7dc 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -48,8 +48,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + len(self.variational_d[0])
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
-- 
2.43.0


From 68cacd23d1e937d249b65aa06f93990d27b2c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 11/90] fix: GeometricProcess variational mean of log p(d|w)

---
 pyrichlet/weight_models/_geometric_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 827e7dc..d0156a8 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -80,7 +80,7 @@ class GeometricProcess(BaseWeight):
                                     self.variational_params[0]
                                     )
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += nj * j * e_log_v_bar
         return res
 
     def variational_mean_log_p_w(self):
-- 
2.43.0


From c22c7a440cd2b2edbadb89c2bd30cd0b1553efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 12/90] fix: GeometricProcess variational mean of w_j

---
 pyrichlet/weight_models/_geometric_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index d0156a8..f1ed752 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -3,7 +3,7 @@ from ..exceptions import NotFittedError
 from ..utils.functions import mean_log_beta, log_likelihood_beta
 
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import betaln, loggamma
 
 
 class GeometricProcess(BaseWeight):
@@ -106,8 +106,8 @@ class GeometricProcess(BaseWeight):
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
             return 1
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+        a, b = self.variational_params
+        return np.exp(betaln(a + 1, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
         if j > self.variational_k:
-- 
2.43.0


From 8b186a5f451ef14f6c194df86291425aff1dcd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 13/90] fix: EqualWeighting variational mean of log p(d|w) had
 the wrong sign

---
 pyrichlet/weight_models/_equal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..127f585 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -33,7 +33,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self.n)
 
     def variational_mean_log_p_w(self):
         return 0
-- 
2.43.0


From 84d8e0914a5405ec690256201dfa53a1bc71c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 14/90] fix: FrequencyWeighting took the number of observations
 for the number of groups

---
 pyrichlet/weight_models/_frequency.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..bbc4d33 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,9 +25,7 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
-- 
2.43.0


From 94c0ca122b90d6d8ab3b509f6407e5dad9191b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 15/90] fix: FrequencyWeighting variational expectations used
 the frequency for its logarithm

---
 pyrichlet/weight_models/_frequency.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index bbc4d33..6cf4cbf 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -2,6 +2,7 @@ from ._base import BaseWeight
 from ..exceptions import NotFittedError
 
 import numpy as np
+from scipy.special import xlogy
 
 
 class FrequencyWeighting(BaseWeight):
@@ -32,19 +33,14 @@ class FrequencyWeighting(BaseWeight):
             raise NotFittedError
         if j >= self.variational_k:
             return -np.inf
-        if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
-        return np.log(1 / self.variational_k)
+        return np.log(self._variational_w()[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
             if self.variational_d is None:
                 raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
-        return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
-                                                    self.variational_d.sum()))
+        return np.sum(xlogy(variational_d.sum(1), self._variational_w()))
 
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
@@ -59,9 +55,14 @@ class FrequencyWeighting(BaseWeight):
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
             return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return self._variational_w()[j]
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return self._variational_w()[j]
+
+    def _variational_w(self):
+        if self.variational_d.shape[1] == 0:
+            return np.repeat(1 / self.variational_k, self.variational_k)
+        return self.variational_d.sum(1) / self.variational_d.sum()
-- 
2.43.0


From 23444bf552183878ef7dc4ba70e5838df7565a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 16/90] fix: BetaInBeta never drew the inner parameter of a
 prior structure

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..40fb180 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From ebee014d99f5b4f9ab543463753309c00d775c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 17/90] fix: BetaInBeta discarded the fractions before using
 them to draw p

---
 pyrichlet/weight_models/_beta_in_beta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 40fb180..2b91961 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -42,12 +42,13 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
             if self.x > 0:
                 self.random_p()
+            self.v = self.v[:0]
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
 
-- 
2.43.0


From c988bd5e1f524e13c71179471514a666f44a39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 18/90] fix: BetaInBeta log likelihood of its two limiting
 models

---
 pyrichlet/weight_models/_beta_in_beta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 2b91961..be31d0e 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,6 +24,8 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
+        if self.x == 1:
+            return self._internal_beta_log_likelihood()
         v = self.w[0]
         beta_a = 1 + self.x / (1 - self.x) * self.p
         beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
@@ -33,7 +35,8 @@ class BetaInBeta(BaseWeight):
             v = wj / prod_v
             ret += log_likelihood_beta(v, beta_a, beta_b)
             prod_v *= (1 - v)
-        ret += self._internal_beta_log_likelihood()
+        if self.x > 0:
+            ret += self._internal_beta_log_likelihood()
         return ret
 
     def _internal_beta_log_likelihood(self):
-- 
2.43.0


From c0cd42b531973cf81b3d862d4f086421c3e1fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 19/90] fix: BetaInDirichlet.complete did not return the
 weights

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..6367a29 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -102,6 +102,7 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
@@ -120,3 +121,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From 07e885721cb118a9ffb38d10760a7b982fa0c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 20/90] fix: BetaInDirichlet failed when all observations share
 one group

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 6367a29..ad9d790 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -62,7 +62,7 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
             new_base = False
             for dd in range(k + 2):
-- 
2.43.0


From 69cb3bdca98887389e32ab311caf4a1d759d6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 21/90] fix: BetaInDirichlet probability of a new inner weight
 lacked a factor

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index ad9d790..0cf0587 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -70,7 +70,8 @@ class BetaInDirichlet(BaseWeight):
                 if base_count == 0 and not new_base:
                     new_base = True
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
-- 
2.43.0


From 6aaab32393a3dcafa98abc0ba410b433f916f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 22/90] fix: BetaInDirichlet drew new inner weights from the
 prior or reused stale ones

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 0cf0587..fe629b9 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -92,9 +92,13 @@ class BetaInDirichlet(BaseWeight):
                 self._d_base = np.append(self._d_base,
                                          gumbel_max_sampling(log_prob,
                                                              rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            # A new inner weight is drawn given its only assignation
+            if not np.any(d_base_reduced == self._d_base[j]):
+                self._v_base = np.resize(
+                    self._v_base,
+                    max(len(self._v_base), self._d_base[j] + 1))
+                self._v_base[self._d_base[j]] = self._rng.beta(
+                    a=1 + a_c[j], b=self.alpha + b_c[j])
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From 77bd1c24347e2cf21dd637d6c75de718ea8e5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 23/90] fix: BetaInDirichlet ignored the size of a posterior
 draw

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index fe629b9..2eee7a8 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -101,9 +101,11 @@ class BetaInDirichlet(BaseWeight):
                     a=1 + a_c[j], b=self.alpha + b_c[j])
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
-        self.v = self._v_base[self._d_base]
+        self.v = self._v_base[self._d_base[:size]]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From 2387553e0a367aa113f7023321dc68fd5aaadea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 24/90] fix: BetaInDirichlet log likelihood was undefined for
 a=0

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2eee7a8..ecbff8e 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -21,7 +21,8 @@ class BetaInDirichlet(BaseWeight):
         ret = 0
         for vj in v_unique:
             ret += log_likelihood_beta(vj, 1, self.alpha)
-        ret += dirichlet_log_eppf(self.a, v_counts)
+        if self.a > 0:
+            ret += dirichlet_log_eppf(self.a, v_counts)
         return ret
 
     def random(self, size=None, u=None):
-- 
2.43.0


From 1d5ade03d5fa0c4a39aca0f2bc90a1fb07021095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 25/90] fix: BetaBernoulli posterior of the change indicators
 was not the conditional one and failed

---
 pyrichlet/weight_models/_beta_bernoulli.py | 63 ++++++++++------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..973c785 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,7 +1,8 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import betaln, logsumexp, xlog1py, xlogy
 
+from ..mixture_models._utils import gumbel_max_sampling
 from ..utils.functions import log_likelihood_beta
 
 
@@ -84,37 +85,31 @@ class BetaBernoulli(BaseWeight):
         return self.w
 
     def _random_bernoullis(self, size):
-        bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
-        self.bernoullis[0] = 1
-        if len(self.d) > 0:
-            size_fit = self.d.max()
-            a_c = np.bincount(self.d)
-            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
-                k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
-                k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
-                bernoullis[j] = self._rng.binomial(n=1, p=p)
-        self.bernoullis = bernoullis
+        if len(self.d) == 0:
+            self.bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
+            return self.bernoullis
+        a_c = np.bincount(self.d)
+        b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
+        n = len(a_c)
+        a_c = np.concatenate(([0], np.cumsum(a_c)))
+        b_c = np.concatenate(([0], np.cumsum(b_c)))
+        # log_prob[j][i] is the log-probability, up to a constant, of the
+        # groups from j on when the groups j, ..., j + i share the same v and
+        # the next one does not
+        log_prob = [None] * n
+        log_tail = np.zeros(n + 1)
+        for j in range(n - 1, -1, -1):
+            end = np.arange(j + 1, n + 1)
+            log_prob[j] = (betaln(1 + a_c[end] - a_c[j],
+                                  self.alpha + b_c[end] - b_c[j])
+                           - betaln(1, self.alpha)
+                           + xlog1py(end - j - 1, -self.p)
+                           + xlogy(end < n, self.p)
+                           + log_tail[end])
+            log_tail[j] = logsumexp(log_prob[j])
+        self.bernoullis = np.zeros(n, dtype=int)
+        j = 0
+        while j < n:
+            self.bernoullis[j] = j > 0
+            j += 1 + gumbel_max_sampling(log_prob[j], rng=self._rng)
         return self.bernoullis
-- 
2.43.0


From f71ab74cd2973e1bbf2b7cb1378a66372e24563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 26/90] fix: BetaBernoulli ignored the size of a posterior draw
 with fewer weights than groups

---
 pyrichlet/weight_models/_beta_bernoulli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 973c785..9275790 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -39,7 +39,6 @@ class BetaBernoulli(BaseWeight):
             if len(self.d) == 0:
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
-            size = 1
         self.v = self.v[:0]
         if len(self.d) == 0:
             self._random_bernoullis(size)
@@ -60,10 +59,12 @@ class BetaBernoulli(BaseWeight):
             b_c = np.bincount(mask_change, b_c)
 
             self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)
-            self.v = self.v[mask_change]
+            self.bernoullis = self.bernoullis[:size]
+            self.v = self.v[mask_change[:size]]
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-            self.complete(size)
+            if size is not None:
+                self.complete(size)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From 7a25ee12825475b17a5afcc3faeae4d89b528400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 27/90] fix: BetaBernoulli log likelihood omitted the unchanged
 fractions

---
 pyrichlet/weight_models/_beta_bernoulli.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9275790..0c8281a 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -20,12 +20,8 @@ class BetaBernoulli(BaseWeight):
         return ret
 
     def _bernoulli_structure_log_likelihood(self):
-        ret = 0
-        if self.p == 0:
-            return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
-        return ret
+        b = self.bernoullis[1:]
+        return np.sum(xlogy(b, self.p) + xlog1py(1 - b, -self.p))
 
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
-- 
2.43.0


From 17e136918831da84abed4249ab36ef95e56954d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 28/90] fix: BetaBinomial posterior of the binomials was not
 the conditional one

---
 pyrichlet/weight_models/_beta_binomial.py | 34 +++++++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..8d63179 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -1,6 +1,8 @@
 from ._base import BaseWeight
 import numpy as np
+from scipy.special import betaln, logsumexp
 
+from ..mixture_models._utils import gumbel_max_sampling
 from ..utils.functions import log_likelihood_beta, log_likelihood_beta_binom, \
     log_likelihood_binom
 
@@ -41,9 +43,12 @@ class BetaBinomial(BaseWeight):
             self._random_binomials()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            beta_phased = self.binomials[:-1] + self.binomials[1:]
+            # Every v but the last one has two neighbouring binomials
+            beta_phased = self.binomials + np.append(self.binomials[1:], 0)
+            n_phased = np.repeat(2 * self.n, len(a_c))
+            n_phased[-1] = self.n
             a = 1 + a_c + beta_phased
-            b = self.alpha + b_c + 2 * self.n - beta_phased
+            b = self.alpha + b_c + n_phased - beta_phased
             self.v = self._rng.beta(a=a, b=b)
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
@@ -74,8 +79,25 @@ class BetaBinomial(BaseWeight):
     def _random_binomials(self):
         a_c = np.bincount(self.d)
         b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-        a_c = np.append(0, a_c)
-        b_c = np.append(0, b_c)
-        beta_rv = self._rng.beta(1 + a_c, self.alpha + b_c)
-        self.binomials = self._rng.binomial(self.n, beta_rv)
+        b = np.arange(self.n + 1)
+        log_comb = -betaln(1 + b, 1 + self.n - b)
+        log_norm = betaln(1 + b, self.alpha + self.n - b)
+        # log_tail is the log-probability of the groups from j on given the
+        # j-th binomial and log_prob that of the pairs of binomials j and j+1,
+        # both up to a constant
+        log_tail = betaln(1 + b + a_c[-1],
+                          self.alpha + self.n - b + b_c[-1]) - log_norm
+        log_prob = []
+        for a_j, b_j in zip(a_c[-2::-1], b_c[-2::-1]):
+            b_sum = np.add.outer(b, b)
+            log_prob.append(betaln(1 + a_j + b_sum,
+                                   self.alpha + b_j + 2 * self.n - b_sum)
+                            - log_norm[:, None] + log_comb + log_tail)
+            log_tail = logsumexp(log_prob[-1], axis=1)
+        binomials = [gumbel_max_sampling(log_comb + log_norm + log_tail,
+                                         rng=self._rng)]
+        for log_prob_j in log_prob[::-1]:
+            binomials.append(gumbel_max_sampling(log_prob_j[binomials[-1]],
+                                                 rng=self._rng))
+        self.binomials = np.array(binomials)
         return self.binomials
-- 
2.43.0


From a1d323712b369a60f8be99ac46d988a9ead130bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 29/90] fix: BetaBinomial ignored the size of a posterior draw
 with fewer weights than groups

---
 pyrichlet/weight_models/_beta_binomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 8d63179..84c3513 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -35,7 +35,6 @@ class BetaBinomial(BaseWeight):
             if len(self.d) == 0:
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
-            size = 1
         self.v = self.v[:0]
         if len(self.d) == 0:
             self.complete(size)
@@ -49,7 +48,8 @@ class BetaBinomial(BaseWeight):
             n_phased[-1] = self.n
             a = 1 + a_c + beta_phased
             b = self.alpha + b_c + n_phased - beta_phased
-            self.v = self._rng.beta(a=a, b=b)
+            self.v = self._rng.beta(a=a, b=b)[:size]
+            self.binomials = self.binomials[:size]
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
             if size is not None:
-- 
2.43.0


From 936e33ebd69722e19acd04659c240d7ffba63d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 30/90] fix: BetaBinomial log likelihood skipped the first
 fraction

---
 pyrichlet/weight_models/_beta_binomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 84c3513..1d5a349 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -19,8 +19,8 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
-            v = self.v[j]
+        for j in range(1, len(self.v)):
+            v = self.v[j - 1]
             res += log_likelihood_beta(v, 1 + b,
                                        self.alpha + self.n - b)
             b = self.binomials[j]
-- 
2.43.0


From 23cc2519698f9bbe3d16084f59314c0ac0322f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 31/90] fix: BetaBernoulli.complete failed to draw a single
 weight from scratch

---
 pyrichlet/weight_models/_beta_bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 0c8281a..ab50415 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -75,7 +75,8 @@ class BetaBernoulli(BaseWeight):
             mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha,
+                               size=mask_change.max(initial=0))))
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From c2f7e449f1620adb8bf0d1d8a5a68dffacd43078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 32/90] fix: BetaBernoulli log likelihood took the kept
 fractions for the redrawn ones

---
 pyrichlet/weight_models/_beta_bernoulli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index ab50415..34c76fb 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -26,7 +26,7 @@ class BetaBernoulli(BaseWeight):
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
-- 
2.43.0


From 0023a2bc3e70f524c98ac90793193d2e6ae51ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 33/90] fix: random_assignment could return an index out of
 range or of null weight

---
 pyrichlet/weight_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 4f25fbf..ed9c76a 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -143,7 +143,9 @@ class BaseWeight(ABC):
 
     def get_normalized_cumulative_weights(self):
         """Returns the normalized cumulative weights"""
-        return np.cumsum(self.get_normalized_weights())
+        cumulative_weights = np.cumsum(self.w)
+        # The last entry is exactly one
+        return cumulative_weights / cumulative_weights[-1:]
 
     def get_size(self):
         """Returns the size of the truncated weighting structure"""
@@ -153,7 +155,7 @@ class BaseWeight(ABC):
         """Returns a sample draw of the categorical assignment from the current
         state normalized weighting structure"""
         u = self._rng.uniform(size=size)
-        inverse_sampling = np.greater.outer(
+        inverse_sampling = np.greater_equal.outer(
             u, self.get_normalized_cumulative_weights()
         )
         return np.sum(inverse_sampling, axis=-1)
-- 
2.43.0


From 94a74d10095afca7bb0dccd0e27e0d57eefa9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 34/90] fix: rejection_sample with a size accepted points of
 other proposals

---
 pyrichlet/mixture_models/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..b9ffbbe 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -55,9 +55,11 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
     else:
         x = rng.uniform(a, b, size)
         y = rng.uniform(0, max_y, size)
-        while np.any(y > f(x)):
-            x[y > f(x)] = rng.uniform(a, b, np.sum(y > f(x)))
-            y[y > f(x)] = rng.uniform(0, max_y, np.sum(y > f(x)))
+        rejected = y > f(x)
+        while np.any(rejected):
+            x[rejected] = rng.uniform(a, b, np.sum(rejected))
+            y[rejected] = rng.uniform(0, max_y, np.sum(rejected))
+            rejected = y > f(x)
         return x
 
 
-- 
2.43.0


From 94a6c9def324d90b6ab761100eec81b07b70c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 35/90] fix: a Series could not be fitted

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..cd993d9 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -709,7 +709,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.y = y.to_numpy()
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy().reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
-- 
2.43.0


From 472b7e384e40e69c1e0add8d581679afbb4e3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 36/90] fix: queries did not accept a Series or a NumPy scalar

---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index cd993d9..7426c46 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1102,17 +1102,19 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
                     _y = _y.reshape(-1, 1)
             elif isinstance(y, np.ndarray):
-                if y.ndim == 1:
+                if y.ndim <= 1:
                     _y = y.copy()
                     _y = y.reshape(-1, 1)
                 else:
                     _y = y
-            elif isinstance(y, (int, float)):
+            elif isinstance(y, (int, float, np.integer, np.floating)):
                 _y = np.array([[y]])
             else:
                 raise TypeError("Invalid type for variable y")
-- 
2.43.0


From 788e842281e83cbbc0f0debe2ff72a124c0d841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 37/90] fix: psi_prior shared its memory with the array of the
 caller

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 7426c46..c0c443e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -738,7 +738,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if self.psi_prior is None:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
         else:
-            self.psi_prior = np.atleast_2d(self.psi_prior)
+            self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
 
-- 
2.43.0


From 7f72a12778b49ea5a19f0d92ec398a4e08f84b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 38/90] fix: refitting other data kept the priors taken from
 the previous data

---
 pyrichlet/mixture_models/_base.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c0c443e..72e71c1 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        # The priors that were taken from the data
+        self._data_priors = {}
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -133,7 +135,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -204,7 +206,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -701,10 +703,16 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def get_sim_params(self):
         return self.sim_params
 
-    def _initialize_common_params(self, y):
+    def _initialize_common_params(self, y, warm_start=False):
         """
         Initialize the prior variables if not given
         """
+        if not warm_start:
+            # Forget the priors that were taken from the data of other fit
+            for name, value in self._data_priors.items():
+                if getattr(self, name) is value:
+                    setattr(self, name, None)
+            self._data_priors = {}
         if isinstance(y, pd.DataFrame):
             self.y = y.to_numpy()
             self._column_names = y.columns
@@ -733,14 +741,17 @@ class BaseGaussianMixture(metaclass=ABCMeta):
 
         if self.mu_prior is None:
             self.mu_prior = self.y.mean(axis=0)
-        else:
+            self._data_priors['mu_prior'] = self.mu_prior
+        elif self.mu_prior is not self._data_priors.get('mu_prior'):
             self.mu_prior = np.array(self.mu_prior)
         if self.psi_prior is None:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
-        else:
+            self._data_priors['psi_prior'] = self.psi_prior
+        elif self.psi_prior is not self._data_priors.get('psi_prior'):
             self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
+            self._data_priors['nu_prior'] = self.nu_prior
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
-- 
2.43.0


From 8bf40e495fce103895fa9606766df9322f9e3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 39/90] fix: a new Gibbs fit kept the MAP state of the previous
 one

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 72e71c1..00eeb5b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -788,6 +788,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From 365fae7cfc63beac5678fc72cdb462f657bd64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 40/90] fix: a new Gibbs fit started from the weights fitted to
 the previous data

---
 pyrichlet/mixture_models/_base.py             | 3 +++
 pyrichlet/weight_models/_beta_in_dirichlet.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 00eeb5b..2d17cfb 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -795,6 +795,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
+        # Start from a new realization of the prior weights
+        self.weight_model.reset()
+        self.weight_model.random(1)
         if init_groups is None:
             self.weight_model.tail(1 - min(self.u))
         else:
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index ecbff8e..e42a617 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -34,6 +34,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
-- 
2.43.0


From d8b455b90224b06f3781c6960c9c7ba9fbac0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 41/90] fix: the initial state had weights without an atom

---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2d17cfb..8187905 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -874,6 +874,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
+        # Draw the missing atoms of the initial state
+        for j in range(self.weight_model.get_size()):
+            self.theta[j]
         return {"w": self.weight_model.get_weights(),
                 "theta": dict(self.theta),
                 "u": self.u,
-- 
2.43.0


From f2748ce1599e060a7d6f161423e2ba4825e428c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 42/90] fix: the density was zero for a dim that was a tuple or
 a NumPy integer

---
 pyrichlet/mixture_models/_utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index b9ffbbe..03cb1e5 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,4 +1,4 @@
-from scipy.stats import invwishart, multivariate_normal, norm
+from scipy.stats import invwishart, multivariate_normal
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
 import numpy as np
@@ -77,15 +77,12 @@ def mixture_density(x, w, theta, dim=None, component=None):
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        else:
+            dims = np.atleast_1d(dim)
             ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0][dim],
-                                               theta[j][1][:, dim][dim, :],
+                                               theta[j][0][dims],
+                                               theta[j][1][:, dims][dims, :],
                                                1)*w[j])
-        elif type(dim) is int:
-            ret.append(norm.pdf(x[:, 0],
-                                theta[j][0][dim],
-                                np.sqrt(theta[j][1][dim, dim]))*w[j])
     ret = np.array(ret).T
     ret = np.atleast_2d(ret).sum(1)
     return ret
-- 
2.43.0


From 49146659bebba207039601b431c0198b6fa698c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 43/90] fix: the marginal Gibbs densities of the fitted data
 used other coordinates

---
 pyrichlet/mixture_models/_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 8187905..b3c04f4 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -260,7 +260,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -296,7 +296,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -1115,9 +1115,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, dim=None):
         if y is None:
             _y = self.y
+            if dim is not None:
+                _y = _y[:, np.atleast_1d(dim)]
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
-- 
2.43.0


From 8751040b6f1411e5653513136b322894101d3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 44/90] fix: clustering of points far from every component

---
 pyrichlet/mixture_models/_utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 03cb1e5..71e827d 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -92,12 +92,15 @@ def cluster(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
-    assign_prob = np.array(assign_prob).T
-    assign_prob = assign_prob * w
+        assign_prob.append(multivariate_normal.logpdf(x,
+                                                      theta[j][0],
+                                                      theta[j][1],
+                                                      1))
+    with np.errstate(divide='ignore'):
+        assign_prob = np.array(assign_prob).T + np.log(w)
+    # Far points would have null density in every component
+    assign_prob -= assign_prob.max(1)[:, None]
+    assign_prob = np.exp(assign_prob)
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
-- 
2.43.0


From 7f4bf66422674099c55185988039ddb6afeef63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 45/90] fix: clustering of a single point failed

---
 pyrichlet/mixture_models/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 71e827d..69e3f89 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -97,7 +97,7 @@ def cluster(x, w, theta):
                                                       theta[j][1],
                                                       1))
     with np.errstate(divide='ignore'):
-        assign_prob = np.array(assign_prob).T + np.log(w)
+        assign_prob = np.array(assign_prob).reshape(k, -1).T + np.log(w)
     # Far points would have null density in every component
     assign_prob -= assign_prob.max(1)[:, None]
     assign_prob = np.exp(assign_prob)
-- 
2.43.0


From 47810e52caf274c3f2d2b2e9c44e699048c2dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 46/90] fix: variational densities used the norm of the
 precision for its determinant

---
 pyrichlet/utils/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..49e77ef 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From 59d4441b32a30f5a451c40ef96b9eef6f61cdb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 47/90] fix: Wishart expectations used the norm of the scale
 for its determinant

---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 69e3f89..7817d58 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -110,7 +110,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -121,7 +121,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
-- 
2.43.0


From 164a8653d0af9e136b596d2733c7b273b8f8b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 48/90] fix: the marginals of the variational EAP density were
 those of the precision

---
 pyrichlet/mixture_models/_base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b3c04f4..488ca9f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -512,13 +512,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         if dim is None:
             dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        dim = np.atleast_1d(dim)
+        n_feats = self.y.shape[1]
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -527,12 +525,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            # The marginal takes the rows and columns of the covariance
+            v_precision_j = np.linalg.inv(
+                np.linalg.inv(v_precision_j)[:, dim][dim, :])
             f_x += density_students_t(
                 _y, v_mu_j,
                 v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                                 n_feats) * v_lambda_j / (1 + v_lambda_j),
+                v_scale_j + 1 - n_feats
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
-- 
2.43.0


From b73aa412661bb63962b016e62da5e54f6fa08908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 49/90] fix: the variational MAP density failed without dim and
 had wrong marginals

---
 pyrichlet/mixture_models/_base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 488ca9f..102f7ec 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -554,11 +554,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim)
+        if dim is None:
+            dim = np.arange(_y.shape[1])
+        dim = np.atleast_1d(dim)
+        n_feats = self.y.shape[1]
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -567,9 +567,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            # The marginal takes the rows and columns of the covariance
+            v_precision_j = np.linalg.inv(
+                np.linalg.inv(v_precision_j)[:, dim][dim, :])
             map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_precision = (v_scale_j - n_feats) * v_precision_j
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
-- 
2.43.0


From cd6548809d066b6f1bf7a1d5433baa6344e5fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 50/90] fix: the variational scale was updated with the mean of
 the scatter

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 102f7ec..936ab04 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1018,7 +1018,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             )
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
-- 
2.43.0


From c0e627290a78ce8a70ae2c7ae3c18bdba183b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 51/90] fix: the variational scale was updated with the norm of
 the mean deviation

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 936ab04..46f0b85 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1026,8 +1026,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From e858e70f8393502a8a1bf386087e9fdb9ae629ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 52/90] fix: an empty k-means group made the variational
 parameters undefined

---
 pyrichlet/mixture_models/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 46f0b85..6261bae 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1015,7 +1015,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         var_theta = []
         for vd_j in self.var_d:
             n_j = vd_j.sum()
-            x_bar_j = (vd_j / n_j) @ self.y
+            if n_j > 0:
+                x_bar_j = (vd_j / n_j) @ self.y
+            else:
+                x_bar_j = np.zeros(self.y.shape[1])
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
                              )
-- 
2.43.0


From e55c898c00a28e47c8b957dee7a6ab475ea9f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 53/90] fix: the likelihood term of the evidence bound lacked
 the group sizes

---
 pyrichlet/mixture_models/_base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 6261bae..2874433 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1063,13 +1063,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
+            res += n_j * _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res -= n_j * dim / v_lambda_j
+            res -= n_j * v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res -= (n_j * v_scale_j *
                     (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
                     )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res -= n_j * dim * np.log(2 * np.pi)
         res /= 2
         return res
 
-- 
2.43.0


From 94dc719ce1b161f563f06cfc80ff583285b5f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 54/90] fix: the evidence bound took the weights prior for
 their entropy

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2874433..ed35a5c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1106,7 +1106,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return np.sum(self.var_d * np.log(self.var_d))
 
     def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
-- 
2.43.0


From 3bc8c26fdf701354a5c8ba1fc86b4d2c47ae0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 55/90] fix: the evidence bound had wrong Normal-Wishart
 entropies

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index ed35a5c..0ac852f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1115,8 +1115,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
             res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
             res += dim * (np.log(v_lambda_j / (2 * np.pi)))
-            res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
+            res -= 2 * _utils.entropy_wishart(v_precision_j, v_scale_j)
+        res -= dim * self.var_k
         res /= 2
         return res
 
-- 
2.43.0


From 888e05b7d3213563b2b41817c34c767a513b51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 56/90] fix: var_converged was never reset

---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 0ac852f..9fa487f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -232,8 +232,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
+        self.var_converged = iterations < self.total_iter
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From b5a7b5cbda593cc322c93dd2ac060245419bef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 57/90] fix: var_map_cluster overflowed far from some component

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9fa487f..c17593b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -685,7 +685,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  v_precision_j @ (_y - v_mu_j).T)).sum(0)
                          )
             var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
+        var_d -= var_d.max(0)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(0)
-- 
2.43.0


From 03eb76b1b178a628ae4673039bbed895c9b79188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 58/90] fix: var_map_cluster returned other uncertainties for
 new points

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c17593b..d6c6294 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -693,7 +693,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
-- 
2.43.0


From 7b05f88eafc0a37814518006ba8997da8926cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 59/90] fix: var_eap_affinity_matrix did not cast its
 observations

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index d6c6294..e3853b3 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -598,8 +598,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
+            dim = _y.shape[1]
+            var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
                 v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
                 log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -608,8 +608,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 log_d_ji -= dim * np.log(2 * np.pi) / 2
                 log_d_ji -= dim / v_lambda_j / 2
                 log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
+                             ((_y - v_mu_j).T * (
+                                     v_precision_j @ (_y - v_mu_j).T)).sum(
                                  0)
                              ) / 2
                 var_d[j, :] = log_d_ji
-- 
2.43.0


From 63fdf145b6052bec41c0bc4ae70674571f6314e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 60/90] fix: the consensus clusterings drew from the global
 random generator

---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index e3853b3..d2966a3 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -352,7 +352,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
 
     def gibbs_map_cluster(self, y=None, full=False):
@@ -641,7 +642,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.var_eap_affinity_matrix(y))
 
     def var_map_cluster(self, y=None, full=False):
-- 
2.43.0


From bb4d703f517ce6eebfd71a6b5ff1beaa443a1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 61/90] fix: the k-means initialization failed with fewer
 observations than groups

---
 pyrichlet/mixture_models/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 7817d58..05d869a 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -140,7 +140,7 @@ def kmeans_cluster_size_biased(y, k, rng):
     # TODO wait for sklearn to implement Generator as random_state
     # input https://github.com/scikit-learn/scikit-learn/issues/16988
     km = KMeans(
-        n_clusters=k,
+        n_clusters=min(k, len(y)),
         n_init=10,
         random_state=np.random.RandomState(rng.bit_generator)
     )
-- 
2.43.0


From d46b426f273a5b426e3e59772d77d185ba67a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 62/90] fix: the fitted observations shared their memory with
 the frame of the caller

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index d2966a3..be4bc7b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -717,10 +717,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     setattr(self, name, None)
             self._data_priors = {}
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy().reshape(-1, 1)
+            self.y = y.to_numpy(copy=True).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
-- 
2.43.0


From c36764bdb567441dac22ad970734ceddc519bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 63/90] fix: the variational initialization lost the column
 names

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index be4bc7b..614617a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -818,8 +818,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         elif method == "random":
             self.d = self.weight_model.random_assignment(len(self.y))
         elif method == "variational":
+            column_names = self._column_names
             self.fit_variational(self.y,
                                  n_groups=self.weight_model.get_size())
+            self._column_names = column_names
             self.d = self.var_map_cluster()
         else:
             raise AttributeError("init_method param must be one of 'kmeans', "
-- 
2.43.0


From 3dfd39c1d7fd36719fa2cbdd131ff5f4cf1992dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 64/90] fix: the weighting models kept the responsibilities of
 the caller by reference

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 +-
 pyrichlet/weight_models/_dirichlet_process.py      | 2 +-
 pyrichlet/weight_models/_equal.py                  | 2 +-
 pyrichlet/weight_models/_frequency.py              | 2 +-
 pyrichlet/weight_models/_geometric_process.py      | 2 +-
 pyrichlet/weight_models/_pitman_yor_process.py     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 209a913..9fbc102 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -49,7 +49,7 @@ class DirichletDistribution(BaseWeight):
                                              "Dirichlet distribution's" \
                                              "dimension"
         self.variational_k = self.n
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_params = self.alpha + np.sum(self.variational_d, 1)
 
     def variational_mean_log_w_j(self, j):
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 318d09e..11ef33e 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -57,7 +57,7 @@ class DirichletProcess(BaseWeight):
         return self.w
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty((self.variational_k, 2),
                                            dtype=np.float64)
diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 127f585..bf96e98 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -20,7 +20,7 @@ class EqualWeighting(BaseWeight):
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.n = self.variational_d.shape[0]
         self.variational_k = self.n
 
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 6cf4cbf..29554fe 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,7 +25,7 @@ class FrequencyWeighting(BaseWeight):
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index f1ed752..9c4ffd4 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -45,7 +45,7 @@ class GeometricProcess(BaseWeight):
         return super().tail(x)
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
         self.variational_params[0] = self.a + len(self.variational_d[0])
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 16d33fa..b2bcb18 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -71,7 +71,7 @@ class PitmanYorProcess(BaseWeight):
         return self.w
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty((self.variational_k, 2),
                                            dtype=np.float64)
-- 
2.43.0


From c5223f2b22577c30aa2cb02e1d378200031a6248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 65/90] fix: a variational fit changed the number of weights of
 EqualWeighting

---
 pyrichlet/weight_models/_equal.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index bf96e98..f08311e 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -21,11 +21,11 @@ class EqualWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = np.array(variational_d)
-        self.n = self.variational_d.shape[0]
-        self.variational_k = self.n
+        self.variational_k = self.variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        k = self._variational_k()
+        return np.log(1 / k) * (j < k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +33,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return -_variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self._variational_k())
 
     def variational_mean_log_p_w(self):
         return 0
@@ -42,7 +42,14 @@ class EqualWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        k = self._variational_k()
+        return 1 / k * (j < k)
 
     def variational_mode_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        k = self._variational_k()
+        return 1 / k * (j < k)
+
+    def _variational_k(self):
+        if self.variational_k is None:
+            return self.n
+        return self.variational_k
-- 
2.43.0


From 8c3265eec6a3d6ace4f921dfc107c304495b67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 66/90] fix: assignation_log_likelihood refused labels of other
 integer types and tuples

---
 pyrichlet/weight_models/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index ed9c76a..3b8397b 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -124,7 +124,8 @@ class BaseWeight(ABC):
         """Returns the log-likelihood of an assignment `d` given the weights"""
         if d is None:
             d = self.d
-        self.complete(max(d) + 1)
+        d = np.asarray(d)
+        self.complete(int(d.max()) + 1)
         with np.errstate(divide='ignore'):
             ret = np.sum(np.log(self.w[d]))
         return ret
-- 
2.43.0


From 238f2d3edf988c47088eb67958499335a1deabef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 67/90] fix: EqualWeighting and FrequencyWeighting accepted
 sizes that are no integer

---
 pyrichlet/weight_models/_equal.py     | 1 +
 pyrichlet/weight_models/_frequency.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index f08311e..f2daf16 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -17,6 +17,7 @@ class EqualWeighting(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 29554fe..010e7e1 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -22,6 +22,7 @@ class FrequencyWeighting(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-- 
2.43.0


From 6aaf421d4d954a20eed7131cc79c8ea60d802acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 68/90] fix: variational weights of unfitted models raised
 TypeError

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++++
 pyrichlet/weight_models/_dirichlet_process.py      | 4 ++++
 pyrichlet/weight_models/_frequency.py              | 4 ++++
 pyrichlet/weight_models/_geometric_process.py      | 4 ++++
 pyrichlet/weight_models/_pitman_yor_process.py     | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 9fbc102..7a1f84d 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -95,11 +95,15 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         alpha = self.variational_params.sum()
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 11ef33e..6a75b8c 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -114,6 +114,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -126,6 +128,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 010e7e1..6bc2a79 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -54,11 +54,15 @@ class FrequencyWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self._variational_w()[j]
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self._variational_w()[j]
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 9c4ffd4..c2945c3 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -104,12 +104,16 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 1
         a, b = self.variational_params
         return np.exp(betaln(a + 1, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return
         if self.variational_params[0] <= 1:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index b2bcb18..9af4417 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -132,6 +132,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         res = 1
@@ -142,6 +144,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         res = 1
-- 
2.43.0


From c7203cdb11f83cc0df578937d9ce4578998dd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 69/90] fix: log p(d|w) of some unfitted models raised other
 errors than NotFittedError

---
 pyrichlet/weight_models/_frequency.py         | 4 ++--
 pyrichlet/weight_models/_geometric_process.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 6bc2a79..e06d73d 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -37,9 +37,9 @@ class FrequencyWeighting(BaseWeight):
         return np.log(self._variational_w()[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
-            if self.variational_d is None:
-                raise NotFittedError
             variational_d = self.variational_d
         return np.sum(xlogy(variational_d.sum(1), self._variational_w()))
 
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index c2945c3..afe5f50 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -67,10 +67,10 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
             _variational_d = self.variational_d
-            if _variational_d is None:
-                raise NotFittedError
         else:
             _variational_d = variational_d
         res = mean_log_beta(self.variational_params[0],
-- 
2.43.0


From 5dc5f3b3cec1ac4f240db75babefdb95a528deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 70/90] fix: repeated consensus clusterings of the same
 affinity could differ

---
 pyrichlet/mixture_models/_base.py  | 11 ++++-------
 pyrichlet/mixture_models/_utils.py | 11 +++++++++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 614617a..6933d97 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1,4 +1,3 @@
-from sklearn.cluster import SpectralClustering
 from scipy.stats import multivariate_normal
 from collections import defaultdict
 import pandas as pd
@@ -352,9 +351,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
-                                random_state=0)
-        return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
+        return _utils.spectral_cluster(self.gibbs_eap_affinity_matrix(y),
+                                       n_clusters)
 
     def gibbs_map_cluster(self, y=None, full=False):
         """
@@ -642,9 +640,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
-                                random_state=0)
-        return sc.fit_predict(self.var_eap_affinity_matrix(y))
+        return _utils.spectral_cluster(self.var_eap_affinity_matrix(y),
+                                       n_clusters)
 
     def var_map_cluster(self, y=None, full=False):
         """
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 05d869a..9914671 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,4 +1,6 @@
 from scipy.stats import invwishart, multivariate_normal
+from scipy.linalg import eigh
+from scipy.sparse.csgraph import laplacian
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
 import numpy as np
@@ -150,3 +152,12 @@ def kmeans_cluster_size_biased(y, k, rng):
     # the label 0, and so on
     d = np.argsort(np.argsort(-d_count))[d]
     return d
+
+
+def spectral_cluster(affinity, k):
+    # The ARPACK solver of SpectralClustering draws from an unseeded generator
+    # when the eigenvalues are degenerate, as those of block affinities are
+    lap, dd = laplacian(affinity, normed=True, return_diag=True)
+    _, eigenvectors = eigh(lap, subset_by_index=[0, k - 1])
+    km = KMeans(n_clusters=k, n_init=10, random_state=0)
+    return km.fit_predict(eigenvectors / dd[:, None])
-- 
2.43.0


From d82a993d69fea79ed2ba8fcadb75cd4193e02b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 71/90] fix: weighting models refused fitted labels of other
 integer types

---
 pyrichlet/weight_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 3b8397b..11c9cee 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -92,6 +92,8 @@ class BaseWeight(ABC):
             An array of integers representing the assigned group
         """
         self.d = np.array(d)
+        if np.issubdtype(self.d.dtype, np.integer):
+            self.d = self.d.astype(np.int64)
 
     def tail(self, x):
         """Return an array of weights such that the sum is greater than `x`
-- 
2.43.0


From 7c8001b49d823d41647894ee4792c44fdb2ab4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 72/90] fix: gibbs_map_pairplot of an unfitted mixture raised
 IndexError

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 6933d97..25b393b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -390,6 +390,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         from scipy.stats import chi2
         from scipy.linalg import ldl
 
+        if not self.gibbs_fitted:
+            raise NotFittedError("Object must be fitted with fit_gibbs method")
         names = self._column_names
         n_feats = self.y.shape[1]
         grp = self.gibbs_map_cluster()
-- 
2.43.0


From a606beaac13ffa67b91859e71efb7b44c1af375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 73/90] fix: gibbs_map_pairplot failed for a single feature

---
 pyrichlet/mixture_models/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 25b393b..270cd27 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -397,7 +397,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         grp = self.gibbs_map_cluster()
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
-                                 figsize=(n_feats * 2, n_feats * 2))
+                                 figsize=(n_feats * 2, n_feats * 2),
+                                 squeeze=False)
         fig.set_dpi(150)
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
-- 
2.43.0


From 9d1f77709fb90ba231456e636ae2576bcdec49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 74/90] fix: gibbs_map_pairplot failed with eleven groups

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 270cd27..adf0a05 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -403,7 +403,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
         color = plt.get_cmap('tab10')
-        if max(grp) > 10:
+        if max(grp) >= 10:
             color = color(np.linspace(0, 1, len(np.unique(grp)) + 1))
         else:
             color = color(np.linspace(0, 1, 10))
-- 
2.43.0


From 3da08729db710cbc1ac2de09d7c2794d20618fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 75/90] fix: the ellipses of gibbs_map_pairplot were no
 contours of the components

---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index adf0a05..e7307e2 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -478,8 +478,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                         sigma = self.map_sim_params['theta'][j][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
-                        sig_sq = ldl_sigma[0] @ np.sqrt(
-                            ldl_sigma[1]) @ ldl_sigma[0].T
+                        sig_sq = np.sqrt(ldl_sigma[1]) @ ldl_sigma[0].T
                         circle_points = np.array(
                             [np.cos(np.linspace(0, 2 * np.pi, 100)),
                              np.sin(np.linspace(0, 2 * np.pi,
-- 
2.43.0


From 6f3433efe1c22428db9b61c2ffead25f2cf02eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 76/90] fix: gibbs_map_pairplot drew other components than
 those of the groups

---
 pyrichlet/mixture_models/_base.py  | 15 +++++++++------
 pyrichlet/mixture_models/_utils.py |  7 ++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index e7307e2..300f88e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -395,6 +395,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         names = self._column_names
         n_feats = self.y.shape[1]
         grp = self.gibbs_map_cluster()
+        # The components of the groups
+        components = np.unique(_utils.most_probable_component(
+            self.y, self.map_sim_params['w'], self.map_sim_params['theta'])[0])
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
                                  figsize=(n_feats * 2, n_feats * 2),
@@ -449,14 +452,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     y_range = np.linspace(y_min - y_ptp / 4,
                                           y_max + y_ptp / 4,
                                           100)
-                    for j in np.unique(grp):
+                    for j, component in enumerate(components):
                         dens = self.gibbs_map_density(y_range, dim=it,
-                                                      component=j)
+                                                      component=component)
                         # ax.plot(y_range, dens, c=color[j])
                         ax.fill_between(y_range, dens, interpolate=True,
                                         color=color[j], alpha=0.5)
                     for j in range(len(self.map_sim_params['w'])):
-                        if j in grp:
+                        if j in components:
                             continue
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
@@ -472,10 +475,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 else:
                     ax.scatter(self.y[:, it], self.y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
-                    for j in np.unique(grp):
-                        mu = self.map_sim_params['theta'][j][0]
+                    for j, component in enumerate(components):
+                        mu = self.map_sim_params['theta'][component][0]
                         mu = mu[[it, it2]]
-                        sigma = self.map_sim_params['theta'][j][1]
+                        sigma = self.map_sim_params['theta'][component][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
                         sig_sq = np.sqrt(ldl_sigma[1]) @ ldl_sigma[0].T
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 9914671..82dad9b 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -90,7 +90,7 @@ def mixture_density(x, w, theta, dim=None, component=None):
     return ret
 
 
-def cluster(x, w, theta):
+def most_probable_component(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
@@ -106,6 +106,11 @@ def cluster(x, w, theta):
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
+    return grp, uncertainty
+
+
+def cluster(x, w, theta):
+    grp, uncertainty = most_probable_component(x, w, theta)
     u_grp, ret = np.unique(grp, return_inverse=True)
     return ret, uncertainty
 
-- 
2.43.0


From 3c89aa38563d29ec5f6c80e6318ad79dc4e56610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 77/90] fix: fit_gibbs failed for a single observation

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 300f88e..94b74c4 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -951,7 +951,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                             self.theta[j][1],
                                             1)
                  for j in range(self.weight_model.get_size())]
-            )
+            ).reshape(-1, len(self.y))
             log_probability += np.log(np.greater.outer(
                 self.weight_model.get_weights(),
                 self.u))
-- 
2.43.0


From 1570e108e61cdd02e99ba4d1ecafee3be94bfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 78/90] fix: Gibbs fitted mixtures could not be pickled, and
 their copies used the original

---
 pyrichlet/mixture_models/_base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 94b74c4..53208c7 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -778,17 +778,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
                 parameters as initialization
         """
-
-        def atom_generator():
-            mu, sigma = _utils.random_normal_invw(
-                mu=self.mu_prior,
-                lam=self.lambda_prior,
-                psi=self.psi_prior,
-                nu=self.nu_prior,
-                rng=self.rng
-            )
-            return np.atleast_1d(mu), np.atleast_2d(sigma)
-
         self.sim_params = []
         self.n_groups = []
         self.n_atoms = []
@@ -796,7 +785,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.map_sim_params = None
         self.map_log_likelihood = -np.inf
 
-        self.theta = defaultdict(atom_generator)
+        # A bound method, so that the object can be pickled and copied
+        self.theta = defaultdict(self._random_atom)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
@@ -880,6 +870,16 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  "'random'")
         self.weight_model.fit_variational(self.var_d)
 
+    def _random_atom(self):
+        mu, sigma = _utils.random_normal_invw(
+            mu=self.mu_prior,
+            lam=self.lambda_prior,
+            psi=self.psi_prior,
+            nu=self.nu_prior,
+            rng=self.rng
+        )
+        return np.atleast_1d(mu), np.atleast_2d(sigma)
+
     def _get_run_params(self):
         # Draw the missing atoms of the initial state
         for j in range(self.weight_model.get_size()):
-- 
2.43.0


From 1896794df114b8bec62bee5eecb1ce3e206697a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 79/90] fix: variational densities took the number of features
 from the data of a later Gibbs fit

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 53208c7..fc1713c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -519,7 +519,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if dim is None:
             dim = np.arange(_y.shape[1])
         dim = np.atleast_1d(dim)
-        n_feats = self.y.shape[1]
+        n_feats = len(self.var_theta[0][0])
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -561,7 +561,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if dim is None:
             dim = np.arange(_y.shape[1])
         dim = np.atleast_1d(dim)
-        n_feats = self.y.shape[1]
+        n_feats = len(self.var_theta[0][0])
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
-- 
2.43.0


From d4cd90c19eff04145d23723730423c81516156d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 80/90] fix: queries about the fitted data used the data of the
 other method's fit

---
 pyrichlet/mixture_models/_base.py | 42 ++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index fc1713c..41441c1 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -73,6 +73,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model = weight_model
         self.y = np.array([])
         self._column_names = None
+        # The data of the last fit by each method
+        self._gibbs_y = self.y
+        self._gibbs_column_names = None
+        self._var_y = self.y
 
         # Variables used in Gibbs sampler
         self.d = np.array([])
@@ -135,6 +139,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             parameters as initialization
         """
         self._initialize_common_params(y, warm_start)
+        self._gibbs_y = self.y
+        self._gibbs_column_names = self._column_names
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -206,6 +212,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if show_progress is not None:
             self.show_progress = show_progress
         self._initialize_common_params(y, warm_start)
+        self._var_y = self.y
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -258,7 +265,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y, dim)
+        _y = self._cast_observations(y, self._gibbs_y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -294,7 +301,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y, dim)
+        _y = self._cast_observations(y, self._gibbs_y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -321,7 +328,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 "Object must be fitted with the fit_gibbs method")
         if y is None:
             return self.affinity_matrix / self.total_saved_steps
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._gibbs_y)
         affinity_matrix = np.zeros((len(_y), len(_y)))
         for params in self.sim_params:
             grouping = _utils.cluster(_y, params["w"], params["theta"])[0]
@@ -375,7 +382,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._gibbs_y)
         ret = _utils.cluster(_y,
                              self.map_sim_params["w"],
                              self.map_sim_params["theta"])
@@ -392,12 +399,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
 
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        names = self._column_names
-        n_feats = self.y.shape[1]
+        names = self._gibbs_column_names
+        n_feats = self._gibbs_y.shape[1]
         grp = self.gibbs_map_cluster()
         # The components of the groups
         components = np.unique(_utils.most_probable_component(
-            self.y, self.map_sim_params['w'], self.map_sim_params['theta'])[0])
+            self._gibbs_y, self.map_sim_params['w'],
+            self.map_sim_params['theta'])[0])
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
                                  figsize=(n_feats * 2, n_feats * 2),
@@ -446,8 +454,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 ticks[-1].label1.set_visible(False)
                 ax.grid(color='lightgray', linestyle='--', alpha=0.5)
                 if it == it2:
-                    y_min = self.y[:, it].min()
-                    y_max = self.y[:, it].max()
+                    y_min = self._gibbs_y[:, it].min()
+                    y_max = self._gibbs_y[:, it].max()
                     y_ptp = y_max - y_min
                     y_range = np.linspace(y_min - y_ptp / 4,
                                           y_max + y_ptp / 4,
@@ -473,8 +481,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     else:
                         ax.yaxis.set_major_formatter(FormatStrFormatter('%.2g'))
                 else:
-                    ax.scatter(self.y[:, it], self.y[:, it2], s=10,
-                               c=color[grp], alpha=0.5)
+                    ax.scatter(self._gibbs_y[:, it], self._gibbs_y[:, it2],
+                               s=10, c=color[grp], alpha=0.5)
                     for j, component in enumerate(components):
                         mu = self.map_sim_params['theta'][component][0]
                         mu = mu[[it, it2]]
@@ -515,7 +523,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y, dim)
+        _y = self._cast_observations(y, self._var_y, dim)
         if dim is None:
             dim = np.arange(_y.shape[1])
         dim = np.atleast_1d(dim)
@@ -557,7 +565,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y, dim)
+        _y = self._cast_observations(y, self._var_y, dim)
         if dim is None:
             dim = np.arange(_y.shape[1])
         dim = np.atleast_1d(dim)
@@ -601,7 +609,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if y is None:
             var_d = self.var_d
         else:
-            _y = self._cast_observations(y)
+            _y = self._cast_observations(y, self._var_y)
             dim = _y.shape[1]
             var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
@@ -676,7 +684,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             else:
                 d = self.var_d.argmax(0)
                 return d, 1 - self.var_d[d, range(len(d))]
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._var_y)
         dim = _y.shape[1]
         var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
         for j, vt_j in enumerate(self.var_theta):
@@ -1125,9 +1133,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y, dim=None):
+    def _cast_observations(self, y, fitted_y, dim=None):
         if y is None:
-            _y = self.y
+            _y = fitted_y
             if dim is not None:
                 _y = _y[:, np.atleast_1d(dim)]
         else:
-- 
2.43.0


From 64363b89932566c44e9e4ac9747d9a430bf0572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 81/90] fix: a fit that broke off left a mixture of old and new
 results

---
 pyrichlet/mixture_models/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 41441c1..49df971 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -139,6 +139,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             parameters as initialization
         """
         self._initialize_common_params(y, warm_start)
+        if not warm_start:
+            # The earlier fit is lost even if this one does not complete
+            self.gibbs_fitted = False
         self._gibbs_y = self.y
         self._gibbs_column_names = self._column_names
         if not warm_start:
@@ -212,6 +215,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if show_progress is not None:
             self.show_progress = show_progress
         self._initialize_common_params(y, warm_start)
+        if not warm_start:
+            # The earlier fit is lost even if this one does not complete
+            self.var_fitted = False
+            self.var_converged = False
         self._var_y = self.y
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
-- 
2.43.0


From 12e487c484c536e3aaafb9f11a9ea89764436756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 82/90] fix: draws of an invalid size were refused after the
 weights had changed

---
 pyrichlet/weight_models/_beta_bernoulli.py     | 3 ++-
 pyrichlet/weight_models/_beta_binomial.py      | 2 ++
 pyrichlet/weight_models/_beta_in_beta.py       | 2 ++
 pyrichlet/weight_models/_geometric_process.py  | 2 ++
 pyrichlet/weight_models/_pitman_yor_process.py | 2 ++
 5 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 34c76fb..3f8146a 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -35,7 +35,6 @@ class BetaBernoulli(BaseWeight):
             if len(self.d) == 0:
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
             self._random_bernoullis(size)
             mask_change = self.bernoullis
@@ -45,6 +44,8 @@ class BetaBernoulli(BaseWeight):
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         else:
+            # Refuse an invalid size before anything changes
+            super().complete(size)
             self._random_bernoullis(self.d.max() + 1)
             mask_change = self.bernoullis
             mask_change = np.cumsum(mask_change)
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 1d5a349..10bca6a 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -35,6 +35,8 @@ class BetaBinomial(BaseWeight):
             if len(self.d) == 0:
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
+        # Refuse an invalid size before anything changes
+        super().complete(size)
         self.v = self.v[:0]
         if len(self.d) == 0:
             self.complete(size)
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index be31d0e..084e68d 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -45,6 +45,8 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
+        # Refuse an invalid size before anything changes
+        super().complete(size)
         if len(self.d) == 0:
             self.v = self.v[:0]
             self.complete(size)
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index afe5f50..f780f61 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -24,6 +24,8 @@ class GeometricProcess(BaseWeight):
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is None:
             size = max(self.d) + 1
+        # Refuse an invalid size before anything changes
+        super().complete(size)
         self.v = self.v[:0]
         self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
         self.complete(size)
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 9af4417..6558d52 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -37,6 +37,8 @@ class PitmanYorProcess(BaseWeight):
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         else:
+            # Refuse an invalid size before anything changes
+            super().complete(size)
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
 
-- 
2.43.0


From 27d64fbe786e501a628b22f702fc53f34e295a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 83/90] fix: weights beyond the truncation of a variational fit
 were one, missing or an error

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++--
 pyrichlet/weight_models/_equal.py                  | 2 +-
 pyrichlet/weight_models/_geometric_process.py      | 6 +++---
 pyrichlet/weight_models/_pitman_yor_process.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 7a1f84d..c7ad6a8 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -97,14 +97,14 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index f2daf16..b1116c5 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -26,7 +26,7 @@ class EqualWeighting(BaseWeight):
 
     def variational_mean_log_w_j(self, j):
         k = self._variational_k()
-        return np.log(1 / k) * (j < k)
+        return np.where(j < k, np.log(1 / k), -np.inf)[()]
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index f780f61..702b7f7 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -109,15 +109,15 @@ class GeometricProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         if j >= self.variational_k:
-            return 1
+            return 0
         a, b = self.variational_params
         return np.exp(betaln(a + 1, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 6558d52..8ee5943 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -136,7 +136,7 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -148,7 +148,7 @@ class PitmanYorProcess(BaseWeight):
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
-- 
2.43.0


From b994d3fb23396fc25229357c75695dc52d9d5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 84/90] fix: variational densities left the range of floats
 with many features in small or large units

---
 pyrichlet/utils/functions.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 49e77ef..a9d8d1a 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -30,18 +30,20 @@ def mean_log_beta(a, b):
 
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
-    density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
-    density *= (1 + np.einsum('ij,jk,ik->i',
-                              x - mu, precision, x - mu
-                              ) / nu) ** (-(nu + dim) / 2)
-    return density
+    # The determinant may be out of range even if the density is not
+    log_density = loggamma((nu + dim) / 2) - loggamma(nu / 2)
+    log_density += (np.linalg.slogdet(precision)[1] -
+                    dim * np.log(nu * np.pi)) / 2
+    log_density = log_density - np.log1p(
+        np.einsum('ij,jk,ik->i', x - mu, precision, x - mu) / nu
+    ) * (nu + dim) / 2
+    return np.exp(log_density)
 
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
-    density *= np.exp(- np.einsum('ij,jk,ik->i',
-                                  x - mu, precision, x - mu
-                                  ) / 2)
-    return density
+    # The determinant may be out of range even if the density is not
+    log_density = (np.linalg.slogdet(precision)[1] -
+                   dim * np.log(2 * np.pi)) / 2
+    return np.exp(log_density - np.einsum('ij,jk,ik->i',
+                                          x - mu, precision, x - mu) / 2)
-- 
2.43.0


From d68db20b229a89eeb8989f7757c299e56b6454e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 85/90] fix: fit_gibbs documented another default of
 init_method

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 49df971..7ac8f1b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -132,7 +132,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             If show_progress is True, a progress bar from the tqdm library is
             displayed.
 
-        init_method: str, default="random"
+        init_method: str, default="kmeans"
             "random": does a random initialization based on the prior models
             "kmeans": does a kmeans initialization
             "variational": fits the variational distribution an uses the MAP
-- 
2.43.0


From 50287c09de7d852e5621697bfd5f083477936c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:35 +0000
Subject: [PATCH 86/90] fix: Gibbs densities and assignments ignored features
 in relatively small units

---
 pyrichlet/mixture_models/_base.py  | 15 +++++--------
 pyrichlet/mixture_models/_utils.py | 35 +++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 7ac8f1b..c453a81 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1,4 +1,3 @@
-from scipy.stats import multivariate_normal
 from collections import defaultdict
 import pandas as pd
 import numpy as np
@@ -961,10 +960,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _d_log_likelihood_vector(self):
         with np.errstate(divide='ignore'):
             log_probability = np.array(
-                [multivariate_normal.logpdf(self.y,
-                                            self.theta[j][0],
-                                            self.theta[j][1],
-                                            1)
+                [_utils.log_density_normal(self.y,
+                                           self.theta[j][0],
+                                           self.theta[j][1])
                  for j in range(self.weight_model.get_size())]
             ).reshape(-1, len(self.y))
             log_probability += np.log(np.greater.outer(
@@ -983,10 +981,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         ret = 0
         with np.errstate(divide='ignore'):
             for j in np.unique(self.d):
-                ret += np.sum(multivariate_normal.logpdf(self.y[self.d == j],
-                                                         self.theta[j][0],
-                                                         self.theta[j][1],
-                                                         1))
+                ret += np.sum(_utils.log_density_normal(self.y[self.d == j],
+                                                        self.theta[j][0],
+                                                        self.theta[j][1]))
         return ret
 
     def _d_log_likelihood(self):
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 82dad9b..d34e791 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,5 +1,5 @@
 from scipy.stats import invwishart, multivariate_normal
-from scipy.linalg import eigh
+from scipy.linalg import eigh, solve_triangular
 from scipy.sparse.csgraph import laplacian
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
@@ -16,6 +16,21 @@ def random_normal_invw(mu, lam, psi, nu, rng=None):
     return ret_mu, ret_sigma
 
 
+def log_density_normal(x, mu, sigma):
+    """Log density of a normal distribution at the rows of x
+
+    The density of scipy takes the directions with a relatively small variance,
+    as that of features in other units, for null.
+    """
+    try:
+        chol = np.linalg.cholesky(sigma)
+    except np.linalg.LinAlgError:
+        return np.atleast_1d(multivariate_normal.logpdf(x, mu, sigma, True))
+    z = solve_triangular(chol, (x - mu).T, lower=True)
+    return (-np.sum(z ** 2, axis=0) / 2 - np.sum(np.log(np.diag(chol))) -
+            len(mu) * np.log(2 * np.pi) / 2)
+
+
 def log_likelihood_normal_invw(mu, sigma, mu0, lam0, psi0, nu0):
     log_sigma = invwishart.logpdf(sigma, nu0, psi0)
     log_mu = multivariate_normal.logpdf(mu, mu0, sigma / lam0)
@@ -75,16 +90,13 @@ def mixture_density(x, w, theta, dim=None, component=None):
         iterator = [component]
     for j in iterator:
         if dim is None:
-            ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0],
-                                               theta[j][1],
-                                               1)*w[j])
+            ret.append(np.exp(log_density_normal(x,
+                                                 theta[j][0],
+                                                 theta[j][1]))*w[j])
         else:
             dims = np.atleast_1d(dim)
-            ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0][dims],
-                                               theta[j][1][:, dims][dims, :],
-                                               1)*w[j])
+            ret.append(np.exp(log_density_normal(
+                x, theta[j][0][dims], theta[j][1][:, dims][dims, :]))*w[j])
     ret = np.array(ret).T
     ret = np.atleast_2d(ret).sum(1)
     return ret
@@ -94,10 +106,7 @@ def most_probable_component(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.logpdf(x,
-                                                      theta[j][0],
-                                                      theta[j][1],
-                                                      1))
+        assign_prob.append(log_density_normal(x, theta[j][0], theta[j][1]))
     with np.errstate(divide='ignore'):
         assign_prob = np.array(assign_prob).reshape(k, -1).T + np.log(w)
     # Far points would have null density in every component
-- 
2.43.0


From 5f70314ee3e8f10b1879de2f85fc4cf6c24a7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 87/90] fix: conditioned weights completed from a shorter draw,
 or by a tail, ignored the labels

---
 pyrichlet/weight_models/_base.py               | 6 ++++++
 pyrichlet/weight_models/_beta_in_beta.py       | 6 +++---
 pyrichlet/weight_models/_dirichlet_process.py  | 4 ++--
 pyrichlet/weight_models/_pitman_yor_process.py | 6 ++++--
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 11c9cee..a46b782 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -154,6 +154,12 @@ class BaseWeight(ABC):
         """Returns the size of the truncated weighting structure"""
         return len(self.w)
 
+    def _label_counts(self, start, stop):
+        """Labels equal to and larger than each group from start to stop"""
+        a_c = np.bincount(self.d.astype(np.int64), minlength=stop)
+        b_c = len(self.d) - np.cumsum(a_c)
+        return a_c[start:stop], b_c[start:stop]
+
     def random_assignment(self, size=None):
         """Returns a sample draw of the categorical assignment from the current
         state normalized weighting structure"""
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 084e68d..b470159 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -84,10 +84,10 @@ class BetaInBeta(BaseWeight):
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
+                a_c, b_c = self._label_counts(len(self.v), size)
                 concat_value = self._rng.beta(
-                    a=1 + self.x / (1 - self.x) * self.p,
-                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p),
-                    size=size - len(self.v)
+                    a=1 + self.x / (1 - self.x) * self.p + a_c,
+                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c
                 )
             else:
                 concat_value = np.repeat(self.p, size - len(self.v))
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 6a75b8c..e223e8c 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -49,9 +49,9 @@ class DirichletProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
+            a_c, b_c = self._label_counts(len(self.v), size)
             self.v = np.concatenate(
-                (self.v,
-                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))))
+                (self.v, self._rng.beta(a=1 + a_c, b=self.alpha + b_c)))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         return self.w
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 8ee5943..69012b6 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -60,12 +60,14 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
+            a_c, b_c = self._label_counts(self.get_size(), size)
             pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
-                    self._rng.beta(a=1 - self.pyd,
-                                   b=self.alpha + pitman_yor_bias * self.pyd)
+                    self._rng.beta(
+                        a=1 - self.pyd + a_c,
+                        b=self.alpha + pitman_yor_bias * self.pyd + b_c)
                 )
             )
             self.w = self.v * np.cumprod(np.concatenate(([1],
-- 
2.43.0


From 4264b4d2130c9de42c27dbb9974cffa37c7589ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 88/90] fix: a conditioned GeometricProcess ignored the labels
 when first completed or asked for a tail

---
 pyrichlet/weight_models/_geometric_process.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 702b7f7..b2234c1 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -27,13 +27,16 @@ class GeometricProcess(BaseWeight):
         # Refuse an invalid size before anything changes
         super().complete(size)
         self.v = self.v[:0]
-        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
+        if len(self.d) == 0:
+            self._random_p()
         self.complete(size)
         return self.w
 
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
+            if len(self.v) == 0 and len(self.d) > 0:
+                self._random_p()
             self.v = np.repeat(self.p, size)
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
@@ -42,10 +45,15 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random(1)
         size = int(np.ceil(np.log(1 - x) / np.log(1 - self.p)))
         self.complete(size)
         return super().tail(x)
 
+    def _random_p(self):
+        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
+
     def fit_variational(self, variational_d):
         self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
-- 
2.43.0


From 2c2bd49cc72ddf7951eb4500244fd0aa8aac44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 89/90] fix: conditioned BetaBernoulli and BetaBinomial weights
 ignored the labels when completed from a shorter draw

---
 pyrichlet/weight_models/_beta_bernoulli.py | 15 ++++++++++++++-
 pyrichlet/weight_models/_beta_binomial.py  | 13 ++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 3f8146a..1e7fe15 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -13,6 +13,8 @@ class BetaBernoulli(BaseWeight):
         self.alpha = alpha
         self.v = np.array([], dtype=np.float64)
         self.bernoullis = np.array([1], dtype=int)
+        # The structure last drawn over all the fitted groups
+        self._fitted = self.v, self.bernoullis
 
     def weighting_log_likelihood(self):
         ret = self._bernoulli_structure_log_likelihood()
@@ -41,6 +43,7 @@ class BetaBernoulli(BaseWeight):
             mask_change = np.cumsum(mask_change)
             self.v = self._rng.beta(a=1, b=self.alpha, size=mask_change[-1] + 1)
             self.v = self.v[mask_change]
+            self._fitted = self.v, self.bernoullis
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         else:
@@ -56,8 +59,10 @@ class BetaBernoulli(BaseWeight):
             b_c = np.bincount(mask_change, b_c)
 
             self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)
+            self.v = self.v[mask_change]
+            self._fitted = self.v, self.bernoullis
             self.bernoullis = self.bernoullis[:size]
-            self.v = self.v[mask_change[:size]]
+            self.v = self.v[:size]
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
             if size is not None:
@@ -66,6 +71,14 @@ class BetaBernoulli(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) < size and len(self.d) > 0:
+            if len(self.v) == 0:
+                self.random()
+            elif len(self.v) < len(self._fitted[0]):
+                # The rest of the fitted groups
+                self.v, self.bernoullis = [x[:size] for x in self._fitted]
+                self.w = self.v * np.cumprod(np.concatenate(([1],
+                                                             1 - self.v[:-1])))
         if len(self.v) < size:
             if len(self.v) == 0:
                 self.v = self._rng.beta(a=1, b=self.alpha, size=1)
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 10bca6a..3a2d279 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -15,6 +15,8 @@ class BetaBinomial(BaseWeight):
 
         self.v = np.array([], dtype=np.float64)
         self.binomials = np.array([], dtype=int)
+        # The structure last drawn over all the fitted groups
+        self._fitted = self.v, self.binomials
 
     def weighting_log_likelihood(self):
         b = self.binomials[0]
@@ -39,6 +41,7 @@ class BetaBinomial(BaseWeight):
         super().complete(size)
         self.v = self.v[:0]
         if len(self.d) == 0:
+            self._fitted = self.v, self.binomials[:0]
             self.complete(size)
         else:
             self._random_binomials()
@@ -50,7 +53,9 @@ class BetaBinomial(BaseWeight):
             n_phased[-1] = self.n
             a = 1 + a_c + beta_phased
             b = self.alpha + b_c + n_phased - beta_phased
-            self.v = self._rng.beta(a=a, b=b)[:size]
+            self.v = self._rng.beta(a=a, b=b)
+            self._fitted = self.v, self.binomials
+            self.v = self.v[:size]
             self.binomials = self.binomials[:size]
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
@@ -60,6 +65,12 @@ class BetaBinomial(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) < size and len(self.d) > 0:
+            if len(self.v) == 0:
+                self.random()
+            elif len(self.v) < len(self._fitted[0]):
+                # The rest of the fitted groups
+                self.v, self.binomials = [x[:size] for x in self._fitted]
         if len(self.v) == 0:
             v0 = self._rng.beta(1, self.alpha)
             self.binomials = self._rng.binomial(self.n, v0, size=1)
-- 
2.43.0


From 8c8426ec381a5631007fb5a02eff5ed5dafbf7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 90/90] fix: a conditioned BetaInDirichlet ignored the labels
 when completed from a shorter draw

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index e42a617..9b52459 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -112,9 +112,15 @@ class BetaInDirichlet(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and 0 < size and len(self.d) > 0:
+            self.random()
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
+        if len(self.v) < len(self._d_base):
+            # The rest of the fitted groups
+            self.v = np.append(
+                self.v, self._v_base[self._d_base[len(self.v):size]])
         while len(self.v) < size:
             p = np.array(self._count_base + [self.a], dtype=np.float64)
             p /= p.sum()
-- 
2.43.0

