From cf7755527c80d6fd2e9926bdeeb3b78267b78e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 01/44] fix: ZeroInflatedNegativeBinomial without psi stays
 undefined instead of using psi=nan

---
 preliz/distributions/zi_negativebinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/zi_negativebinomial.py b/preliz/distributions/zi_negativebinomial.py
index 3f383cb..cec1cca 100644
--- a/preliz/distributions/zi_negativebinomial.py
+++ b/preliz/distributions/zi_negativebinomial.py
@@ -101,7 +101,7 @@ class ZeroInflatedNegativeBinomial(Discrete):
         self.mu = mu
         self.alpha = alpha
         self.params = (self.psi, self.mu, self.alpha)
-        if all_not_none(mu, alpha):
+        if all_not_none(psi, mu, alpha):
             self._update(psi, mu, alpha)
 
     def _from_p_n(self, p, n):
-- 
2.43.0


From bf95e4bb6a807b70bbbbe4cfe701ba894d562898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 02/44] fix: Wald with phi alone names a parametrization that
 contains phi, and accepts arrays with phi

---
 preliz/distributions/wald.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preliz/distributions/wald.py b/preliz/distributions/wald.py
index db85873..f1c4006 100644
--- a/preliz/distributions/wald.py
+++ b/preliz/distributions/wald.py
@@ -74,11 +74,11 @@ class Wald(Continuous):
 
         if phi is not None:
             self.phi = phi
-            if (mu and phi) is not None:
+            self.param_names = ("mu", "phi")
+            if mu is not None:
                 lam = self._from_mu_phi(mu, phi)
-                self.param_names = ("mu", "phi")
 
-            elif (lam and phi) is not None:
+            elif lam is not None:
                 mu = self._from_lam_phi(lam, phi)
                 self.param_names = ("lam", "phi")
 
-- 
2.43.0


From 6d75d7542305c2c90fdb8b4ce946d2723c970c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 03/44] fix: Kumaraswamy accepts array parameters

---
 preliz/distributions/kumaraswamy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preliz/distributions/kumaraswamy.py b/preliz/distributions/kumaraswamy.py
index 93efad4..a13748d 100644
--- a/preliz/distributions/kumaraswamy.py
+++ b/preliz/distributions/kumaraswamy.py
@@ -2,7 +2,7 @@ import numpy as np
 from pytensor_distributions import kumaraswamy as ptd_kumaraswamy
 
 from preliz.distributions.distributions import Continuous
-from preliz.internal.distribution_helper import eps, pytensor_jit, pytensor_rng_jit
+from preliz.internal.distribution_helper import all_not_none, eps, pytensor_jit, pytensor_rng_jit
 from preliz.internal.optimization import optimize_mean_sigma, optimize_ml
 
 
@@ -53,7 +53,7 @@ class Kumaraswamy(Continuous):
         self.params = (self.a, self.b)
         self.param_names = ("a", "b")
         self.params_support = ((eps, np.inf), (eps, np.inf))
-        if (a and b) is not None:
+        if all_not_none(a, b):
             self._update(a, b)
 
     def _update(self, a, b):
-- 
2.43.0


From 162f2a2b429d630ea4a7e1822b2d69d77f069d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 04/44] fix: Truncated discrete laws with a non-integer lower
 bound stay normalised

---
 preliz/distributions/truncated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/truncated.py b/preliz/distributions/truncated.py
index 265479c..b82bf32 100644
--- a/preliz/distributions/truncated.py
+++ b/preliz/distributions/truncated.py
@@ -159,5 +159,5 @@ class Truncated(DistributionTransformer):
 
 def adjust_lower(kind, lower):
     if kind == "discrete":
-        lower -= 1
+        lower = np.ceil(lower) - 1
     return lower
-- 
2.43.0


From 2313222ec4c93b2c56215b0d5a128c6e61e32244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 05/44] fix: Censored cdf reaches one at the upper censoring
 point

---
 preliz/distributions/censored.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/censored.py b/preliz/distributions/censored.py
index e7ce4f4..040f589 100644
--- a/preliz/distributions/censored.py
+++ b/preliz/distributions/censored.py
@@ -175,7 +175,7 @@ class Censored(DistributionTransformer):
     def cdf(self, x):
         x = np.asarray(x)
         vals = self.dist.cdf(x)
-        return np.where(x < self.lower, 0, np.where(x > self.upper, 1, vals))
+        return np.where(x < self.lower, 0, np.where(x >= self.upper, 1, vals))
 
     def ppf(self, q):
         return np.clip(self.dist.ppf(q), self.lower, self.upper)
-- 
2.43.0


From a43ec2965e7fb4da4534f40457f5cf97c4861f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 06/44] fix: Censored skewness and kurtosis of the uncensored
 part are taken about the censored mean

---
 preliz/distributions/censored.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/preliz/distributions/censored.py b/preliz/distributions/censored.py
index 040f589..9c9cdbd 100644
--- a/preliz/distributions/censored.py
+++ b/preliz/distributions/censored.py
@@ -139,7 +139,10 @@ class Censored(DistributionTransformer):
         mean_trunc = trunc.mean()
         std_trunc = trunc.std()
 
-        skew_trunc = trunc.skewness() + ((mean_trunc - mean) / std_trunc) ** 3
+        shift = mean_trunc - mean
+        skew_trunc = (
+            trunc.skewness() * std_trunc**3 + 3 * shift * std_trunc**2 + shift**3
+        ) / std**3
         return (
             xprody(((self.lower - mean) / std) ** 3, p_low)
             + skew_trunc * p_int
@@ -159,7 +162,13 @@ class Censored(DistributionTransformer):
         mean_trunc = trunc.mean()
         std_trunc = trunc.std()
 
-        kurt_trunc = trunc.kurtosis() + 3 + ((mean_trunc - mean) / std_trunc) ** 4
+        shift = mean_trunc - mean
+        kurt_trunc = (
+            (trunc.kurtosis() + 3) * std_trunc**4
+            + 4 * shift * trunc.skewness() * std_trunc**3
+            + 6 * shift**2 * std_trunc**2
+            + shift**4
+        ) / std**4
         return (
             xprody(((self.lower - mean) / std) ** 4, p_low)
             + kurt_trunc * p_int
-- 
2.43.0


From d48545d049fb21e9e8dfcc64e174386d6a8fdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 07/44] fix: Censored entropy of discrete distributions
 replaces the terms of the censoring points

---
 preliz/distributions/censored.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preliz/distributions/censored.py b/preliz/distributions/censored.py
index 9c9cdbd..3a4bff1 100644
--- a/preliz/distributions/censored.py
+++ b/preliz/distributions/censored.py
@@ -210,8 +210,8 @@ class Censored(DistributionTransformer):
             p_u = np.nan_to_num(self.dist.pdf(self.upper))
             p_low = p_low_inc - p_l
             p_up_inc = p_up + p_u
-            xlogx_pl = xlogx(p_low)
-            xlogx_pu = xlogx(p_up)
+            xlogx_pl = xlogx(p_l)
+            xlogx_pu = xlogx(p_u)
         else:
             p_low = p_low_inc
             p_up_inc = p_up
-- 
2.43.0


From c5a007bb0eb9043ced7d011e330c87d3555a90f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 08/44] fix: Hurdle cdf is zero below zero

---
 preliz/distributions/hurdle.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/preliz/distributions/hurdle.py b/preliz/distributions/hurdle.py
index 640bfc7..aee10f3 100644
--- a/preliz/distributions/hurdle.py
+++ b/preliz/distributions/hurdle.py
@@ -121,16 +121,12 @@ class Hurdle(DistributionTransformer):
             )
 
     def cdf(self, x):
+        x = np.asarray(x)
         if self.dist == "discrete":
-            return np.where(
-                x <= 0, 1 - self.psi, 1 - self.psi * (1 - self.dist.cdf(x)) / (1 - self.dist.cdf(0))
-            )
+            vals = 1 - self.psi * (1 - self.dist.cdf(x)) / (1 - self.dist.cdf(0))
         else:
-            return np.where(
-                x <= 0,
-                1 - self.psi,
-                1 - self.psi * (1 - self.dist.cdf(x)) / (1 - self.dist.cdf(eps)),
-            )
+            vals = 1 - self.psi * (1 - self.dist.cdf(x)) / (1 - self.dist.cdf(eps))
+        return np.where(x < 0, 0, np.where(x == 0, 1 - self.psi, vals))
 
     def ppf(self, q):
         if self.kind == "discrete":
-- 
2.43.0


From 2536a411daac230dd5a106bf27c2e0e5205fce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 09/44] fix: Hurdle variance includes the mass at zero exactly
 once

---
 preliz/distributions/hurdle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/hurdle.py b/preliz/distributions/hurdle.py
index aee10f3..f2386b8 100644
--- a/preliz/distributions/hurdle.py
+++ b/preliz/distributions/hurdle.py
@@ -101,7 +101,7 @@ class Hurdle(DistributionTransformer):
         if self.kind == "discrete":
             return np.sum((x_values - self.mean()) ** 2 * pdf)
         else:
-            return np.trapezoid((x_values - self.mean()) ** 2 * pdf, x_values)
+            return np.trapezoid(x_values**2 * pdf, x_values) - self.mean() ** 2
 
     def std(self):
         return self.var() ** 0.5
-- 
2.43.0


From 302f4ab3cf56daf69d338703e2aeb104058a082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 10/44] fix: Hurdle without psi is not a fully defined
 distribution

---
 preliz/distributions/hurdle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/hurdle.py b/preliz/distributions/hurdle.py
index f2386b8..8d504c8 100644
--- a/preliz/distributions/hurdle.py
+++ b/preliz/distributions/hurdle.py
@@ -69,7 +69,7 @@ class Hurdle(DistributionTransformer):
         self.param_names = (*self.dist.param_names, "psi")
         if all_not_none(*dist_params):
             self.dist._parametrization(**kwargs)
-            self.is_frozen = True
+            self.is_frozen = self.psi is not None
 
         self.support = self.dist.support
         self.params_support = (*self.dist.params_support, (0, 1))
-- 
2.43.0


From 913f5b4fbaff0385d393822d73f602df74574bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 11/44] fix: Hurdle queries accept lists and integer
 probabilities

---
 preliz/distributions/hurdle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preliz/distributions/hurdle.py b/preliz/distributions/hurdle.py
index 8d504c8..bb550c5 100644
--- a/preliz/distributions/hurdle.py
+++ b/preliz/distributions/hurdle.py
@@ -111,6 +111,7 @@ class Hurdle(DistributionTransformer):
         return self.ppf(random_state.uniform(size=size))
 
     def pdf(self, x):
+        x = np.asarray(x)
         if self.dist == "discrete":
             return np.where(
                 x == 0, 1 - self.psi, self.psi * self.dist.pdf(x) / (1 - self.dist.cdf(0))
@@ -133,7 +134,7 @@ class Hurdle(DistributionTransformer):
             lower = 0
         else:
             lower = eps
-        q = np.asarray(q)
+        q = np.asarray(q, dtype=float)
         psi = self.psi
         lcdf = self.dist.cdf(lower)
         vals = np.zeros_like(q)
@@ -143,6 +144,7 @@ class Hurdle(DistributionTransformer):
         return np.where((q < 0) | (q > 1), np.nan, vals)
 
     def logpdf(self, x):
+        x = np.asarray(x)
         if self.dist == "discrete":
             pdf_values = np.where(
                 x == 0,
-- 
2.43.0


From 9e870273f03ee6a21ad23c33b409d4519d6a7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 12/44] fix: the support of a Hurdle of a discrete distribution
 contains zero

---
 preliz/distributions/hurdle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preliz/distributions/hurdle.py b/preliz/distributions/hurdle.py
index bb550c5..dfce797 100644
--- a/preliz/distributions/hurdle.py
+++ b/preliz/distributions/hurdle.py
@@ -72,6 +72,8 @@ class Hurdle(DistributionTransformer):
             self.is_frozen = self.psi is not None
 
         self.support = self.dist.support
+        if self.kind == "discrete":
+            self.support = (min(0, self.support[0]), max(0, self.support[1]))
         self.params_support = (*self.dist.params_support, (0, 1))
 
     def mean(self):
-- 
2.43.0


From 54d6b1b7b11c0981043364d84c708f3972d14b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 13/44] fix: Hurdle keeps psi when its moments are fitted

---
 preliz/distributions/hurdle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preliz/distributions/hurdle.py b/preliz/distributions/hurdle.py
index dfce797..1b3cbd3 100644
--- a/preliz/distributions/hurdle.py
+++ b/preliz/distributions/hurdle.py
@@ -171,4 +171,5 @@ class Hurdle(DistributionTransformer):
 
     def _fit_moments(self, mean, sigma):
         self.dist._fit_moments(mean, sigma)
-        self._parametrization(**dict(zip(self.dist.param_names, self.dist.params)))
+        psi = 0.5 if self.psi is None else self.psi
+        self._parametrization(psi, **dict(zip(self.dist.param_names, self.dist.params)))
-- 
2.43.0


From 4b48f562c56abcccf7b8e21311fd2531e8df8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 14/44] fix: quantiles of a Mixture of discrete distributions
 are points of its support

---
 preliz/internal/optimization.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 41077eb..e6d5ea9 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -585,10 +585,10 @@ def find_discrete_mode(dist):
 
 
 def find_ppf(dist, q):
-    q = np.atleast_1d(q)
+    q = np.asarray(q, dtype=float)
     ppf = np.zeros_like(q)
     lower, upper = dist.support
-    for idx, q_i in enumerate(q):
+    for idx, q_i in np.ndenumerate(q):
         if q_i < 0:
             ppf[idx] = np.nan
         elif q_i > 1:
@@ -600,11 +600,11 @@ def find_ppf(dist, q):
                 ppf[idx] = lower
         elif q_i == 1:
             ppf[idx] = upper
-        elif dist.__class__.__name__ in ["HyperGeometric", "BetaBinomial"]:
-            ppf[idx] = _ppf_single(dist, q_i) + 1
+        elif dist.kind == "discrete":
+            ppf[idx] = _ppf_single_discrete(dist, q_i)
         else:
             ppf[idx] = _ppf_single(dist, q_i)
-    return ppf[0] if len(ppf) == 1 else ppf
+    return ppf[()]
 
 
 def _ppf_single(dist, q):
@@ -625,6 +625,16 @@ def _ppf_single(dist, q):
     return brentq(func, left, right, args=(dist, q))
 
 
+def _ppf_single_discrete(dist, q):
+    """Smallest integer whose cdf is not smaller than q."""
+    x = np.floor(_ppf_single(dist, q))
+    while x < dist.support[1] and dist.cdf(x) < q:
+        x += 1
+    while dist.cdf(x - 1) >= q:
+        x -= 1
+    return x
+
+
 def get_weighted_rvs(target, size, rng):
     targets = [t[0] for t in target]
     weights = [t[1] for t in target]
-- 
2.43.0


From e1b7a409dc9aa38ef4e18f4b4934bf8b89179b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 15/44] fix: Mixture draws keep the requested shape and are not
 grouped by component

---
 preliz/distributions/mixture.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/preliz/distributions/mixture.py b/preliz/distributions/mixture.py
index 6ff1c62..f6cea7e 100644
--- a/preliz/distributions/mixture.py
+++ b/preliz/distributions/mixture.py
@@ -135,13 +135,14 @@ class Mixture(DistributionTransformer):
 
     def rvs(self, size=None, random_state=None):
         random_state = np.random.default_rng(random_state)
-        dist_idx = random_state.choice(len(self.dist), size=size, p=self.weights)
-        samples = []
+        dist_idx = np.asarray(random_state.choice(len(self.dist), size=size, p=self.weights))
+        samples = np.zeros(dist_idx.shape, dtype=int if self.kind == "discrete" else float)
         for idx, dist in enumerate(self.dist):
-            n_samples = np.sum(dist_idx == idx)
+            from_dist = dist_idx == idx
+            n_samples = np.sum(from_dist)
             if n_samples:
-                samples.append(dist.rvs(n_samples, random_state=random_state))
-        return np.concatenate(samples)
+                samples[from_dist] = dist.rvs(n_samples, random_state=random_state)
+        return samples[()]
 
     def _fit_moments(self, mean, sigma):
         for dist in self.dist:
-- 
2.43.0


From 1cb208a36be1267ee2561115f8b99f739103eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 16/44] fix: Mixture lists one support per parameter

---
 preliz/distributions/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/mixture.py b/preliz/distributions/mixture.py
index f6cea7e..5ac33cb 100644
--- a/preliz/distributions/mixture.py
+++ b/preliz/distributions/mixture.py
@@ -58,7 +58,7 @@ class Mixture(DistributionTransformer):
             else:
                 self.params.extend(dist.params)
             self.param_names.extend(dist.param_names)
-            self.params_support.append(dist.params_support)
+            self.params_support.extend(dist.params_support)
 
         self.params.append(weights)
         self.param_names.append("weights")
-- 
2.43.0


From d1ee93c31a00d6a8428ecefc2f16d2199235b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 17/44] fix: Mixture parameters follow its components when
 moments are fitted

---
 preliz/distributions/mixture.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preliz/distributions/mixture.py b/preliz/distributions/mixture.py
index 5ac33cb..6866944 100644
--- a/preliz/distributions/mixture.py
+++ b/preliz/distributions/mixture.py
@@ -147,5 +147,4 @@ class Mixture(DistributionTransformer):
     def _fit_moments(self, mean, sigma):
         for dist in self.dist:
             dist._fit_moments(mean, sigma)
-        self.is_frozen = True
-        self.weights = np.ones(len(self.dist)) / len(self.dist)
+        self._parametrization(np.ones(len(self.dist)) / len(self.dist))
-- 
2.43.0


From 3aaaf9877217c044b9e9dc78c33149c731551431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 18/44] fix: the hdi of a Censored continuous distribution
 contains the requested mass

---
 preliz/internal/optimization.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index e6d5ea9..ca90cf0 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -280,7 +280,10 @@ def optimize_dirichlet_mode(lower_bounds, mode, target_mass, _dist):
 def find_hdi(dist, mass):
     """Find the highest density interval (HDI) for a distribution."""
     if dist.kind == "continuous":
-        lower, upper = continuous_hdi(dist, mass)
+        if dist.__class__.__name__ == "Censored":
+            lower, upper = censored_hdi(dist, mass)
+        else:
+            lower, upper = continuous_hdi(dist, mass)
     else:
         x_vals = dist.xvals("full")
         if len(x_vals) < 199:
@@ -319,7 +322,7 @@ def continuous_hdi(dist, mass):
 
     def interval_loss(params):
         cdf = dist.cdf(params)
-        loss = (cdf[1] - cdf[0] + censored_mass) - mass
+        loss = (cdf[1] - cdf[0]) - mass
         return loss
 
     def interval_short(params):
@@ -332,11 +335,6 @@ def continuous_hdi(dist, mass):
         "fun": interval_loss,
     }
     lower, upper = dist.support
-    name = dist.__class__.__name__
-    if name in ["Censored"]:
-        censored_mass = dist.pdf(lower) + dist.pdf(upper)
-    else:
-        censored_mass = 0
     init_vals = dist.eti(mass=mass, fmt="none")
     bounds = [(lower, upper)]
     opt = minimize(interval_short, x0=init_vals, bounds=bounds, constraints=cons)
@@ -344,6 +342,23 @@ def continuous_hdi(dist, mass):
     return opt.x
 
 
+def censored_hdi(dist, mass):
+    """Find the shortest interval for a censored continuous distribution."""
+    from preliz.distributions.truncated import Truncated
+
+    lower, upper = dist.support
+    # intervals that include the mass at one of the censoring points
+    intervals = [(lower, dist.ppf(mass)), (dist.ppf(1 - mass), upper)]
+
+    # interval between the censoring points
+    inner_mass = dist.dist.cdf(upper) - dist.dist.cdf(lower)
+    if inner_mass > mass:
+        truncated = Truncated(dist.dist, lower, upper)
+        intervals.append(continuous_hdi(truncated, mass / inner_mass))
+
+    return min(intervals, key=lambda interval: interval[1] - interval[0])
+
+
 def optimize_pymc_model(
     fmodel,
     target,
-- 
2.43.0


From 61ca519d0846193ccea94884648df9f0edcb536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 19/44] fix: VonMises keeps mu when an interval cannot be
 computed

---
 preliz/distributions/vonmises.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/preliz/distributions/vonmises.py b/preliz/distributions/vonmises.py
index a4346ab..28cc1a9 100644
--- a/preliz/distributions/vonmises.py
+++ b/preliz/distributions/vonmises.py
@@ -130,15 +130,19 @@ class VonMises(Continuous):
     def eti(self, mass=None, fmt=".2f"):
         mean = self.mu
         self.mu = 0
-        hdi_min, hdi_max = super().eti(mass=mass, fmt=fmt)
-        self.mu = mean
+        try:
+            hdi_min, hdi_max = super().eti(mass=mass, fmt=fmt)
+        finally:
+            self.mu = mean
         return _warp_interval(hdi_min, hdi_max, self.mu, fmt)
 
     def hdi(self, mass=None, fmt=".2f"):
         mean = self.mu
         self.mu = 0
-        hdi_min, hdi_max = super().hdi(mass=mass, fmt=fmt)
-        self.mu = mean
+        try:
+            hdi_min, hdi_max = super().hdi(mass=mass, fmt=fmt)
+        finally:
+            self.mu = mean
         return _warp_interval(hdi_min, hdi_max, self.mu, fmt)
 
 
-- 
2.43.0


From 135ae1ad66f63bbfe42a593decd82e991bf79fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 20/44] fix: Binomial fitted by maximum likelihood allows every
 observed count

---
 preliz/distributions/binomial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preliz/distributions/binomial.py b/preliz/distributions/binomial.py
index 7c50a45..581f96d 100644
--- a/preliz/distributions/binomial.py
+++ b/preliz/distributions/binomial.py
@@ -230,6 +230,9 @@ def nb_fit_mle(sample):
     # see https://doi.org/10.1016/j.jspi.2004.02.019 for details
     x_bar, x_std = mean_and_std(sample)
     x_max = np.max(sample)
-    n = np.ceil(x_max ** (1.5) * x_std / (x_bar**0.5 * (x_max - x_bar) ** 0.5))
-    p = x_bar / n
+    # the number of trials can not be smaller than the number of successes
+    n = max(x_max, 1.0)
+    if x_max > x_bar:
+        n = max(n, np.ceil(x_max ** (1.5) * x_std / (x_bar**0.5 * (x_max - x_bar) ** 0.5)))
+    p = min(max(x_bar / n, eps), 1 - eps)
     return n, p
-- 
2.43.0


From 3c61a85be148f8047da598955d80cc905250921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 21/44] fix: mode of a fitted Triangular lies between its
 bounds

---
 preliz/distributions/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/distributions/triangular.py b/preliz/distributions/triangular.py
index b0acb73..0ecb642 100644
--- a/preliz/distributions/triangular.py
+++ b/preliz/distributions/triangular.py
@@ -135,7 +135,7 @@ class Triangular(Continuous):
     def _fit_mle(self, sample):
         lower = np.min(sample)
         upper = np.max(sample)
-        middle = (np.mean(sample) * 3) - lower - upper
+        middle = np.clip((np.mean(sample) * 3) - lower - upper, lower, upper)
         self._update(lower, middle, upper)
 
 
-- 
2.43.0


From cb81e16357e13ad3aea8ddfb50c71ffb96f6f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 22/44] fix: ExGaussian fitted to very skewed samples has a
 valid sigma

---
 preliz/distributions/exgaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preliz/distributions/exgaussian.py b/preliz/distributions/exgaussian.py
index 2fd2776..3582b39 100644
--- a/preliz/distributions/exgaussian.py
+++ b/preliz/distributions/exgaussian.py
@@ -132,7 +132,8 @@ class ExGaussian(Continuous):
 
     def _fit_mle(self, sample):
         mean, std = mean_and_std(sample)
-        skweness = max(1e-4, skew(sample))
+        # the skewness of an ExGaussian is between 0 and 2
+        skweness = np.clip(skew(sample), 1e-4, 2 - 1e-4)
         nu = std * (skweness / 2) ** (1 / 3)
         mu = mean - nu
         var = std**2 * (1 - (skweness / 2) ** (2 / 3))
-- 
2.43.0


From 9b01bc923e7a23f4c4e915e5cd7daf8a15aa2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 23/44] fix: SkewNormal can be fitted to very skewed samples

---
 preliz/distributions/skewnormal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preliz/distributions/skewnormal.py b/preliz/distributions/skewnormal.py
index ace3f51..66fb9d3 100644
--- a/preliz/distributions/skewnormal.py
+++ b/preliz/distributions/skewnormal.py
@@ -161,7 +161,8 @@ class SkewNormal(Continuous):
         optimize_mean_sigma(self, mean, sigma)
 
     def _fit_mle(self, sample):
-        skewness = skew(sample)
+        # the skewness of a SkewNormal is between -1 and 1
+        skewness = np.clip(skew(sample), -0.99, 0.99)
         self.alpha = skewness / (1 - skewness**2) ** 0.5
         optimize_ml(self, sample)
 
-- 
2.43.0


From 768c74dd7c2228ab57ba4d3c9272b3178904655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 24/44] fix: Pareto fitted by maximum likelihood supports the
 sample

---
 preliz/distributions/pareto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preliz/distributions/pareto.py b/preliz/distributions/pareto.py
index 3eb04f4..5a8de88 100644
--- a/preliz/distributions/pareto.py
+++ b/preliz/distributions/pareto.py
@@ -3,7 +3,6 @@ from pytensor_distributions import pareto as ptd_pareto
 
 from preliz.distributions.distributions import Continuous
 from preliz.internal.distribution_helper import all_not_none, eps, pytensor_jit, pytensor_rng_jit
-from preliz.internal.optimization import optimize_ml
 
 
 class Pareto(Continuous):
@@ -120,7 +119,8 @@ class Pareto(Continuous):
         self._update(alpha, m)
 
     def _fit_mle(self, sample):
-        optimize_ml(self, sample)
+        m = np.min(sample)
+        self._update(1 / np.mean(np.log(sample / m)), m)
 
 
 @pytensor_jit
-- 
2.43.0


From 5886f9e24cef2553868f2c9be126d46791373a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 25/44] fix: mle does not fail for samples with as many values
 as parameters plus one

---
 preliz/internal/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index ca90cf0..4101ca9 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -509,6 +509,9 @@ def get_penalization(n, dist):
     https://doi.org/10.1177/0049124104268
     """
     k = len(dist.params)
+    # the correction is only defined for n > k + 1
+    if n <= k + 1:
+        return np.inf
     return k + ((k + 1) * k) / (-k + n - 1)
 
 
-- 
2.43.0


From 43db2671f6a856a055a55463a2e887a706c845b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 26/44] fix: maxent honours both the requested mass and the
 fixed statistic

---
 preliz/internal/optimization.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 4101ca9..32d345d 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -19,20 +19,27 @@ def optimize_max_ent(dist, lower, upper, mass, none_idx, fixed_params, fixed_sta
         cdf0 = dist.cdf(lower)
         cdf1 = dist.cdf(upper)
         loss = (cdf1 - cdf0) - mass
-        if fixed_stat:
-            loss = loss - abs(getattr(dist, fixed_stat[0])() - fixed_stat[1])
         return loss
 
+    def stat_bound(params, dist):
+        params = get_params(dist, params, none_idx, fixed_params)
+        dist._parametrization(**params)
+        return getattr(dist, fixed_stat[0])() - fixed_stat[1]
+
     def entropy_loss(params, dist):
         params = get_params(dist, params, none_idx, fixed_params)
         dist._parametrization(**params)
         return -dist.entropy()
 
-    cons = {
-        "type": "eq",
-        "fun": prob_bound,
-        "args": (dist, lower, upper, mass),
-    }
+    cons = [
+        {
+            "type": "eq",
+            "fun": prob_bound,
+            "args": (dist, lower, upper, mass),
+        }
+    ]
+    if fixed_stat:
+        cons.append({"type": "eq", "fun": stat_bound, "args": (dist,)})
 
     bounds = np.array(dist.params_support)[none_idx]
     current_params = np.array(dist.params)[none_idx]
@@ -59,7 +66,7 @@ def optimize_max_ent(dist, lower, upper, mass, none_idx, fixed_params, fixed_sta
     best_entropy = -np.inf
 
     for opt in all_results:
-        constraint_error = abs(prob_bound(opt.x, dist, lower, upper, mass))
+        constraint_error = sum(abs(con["fun"](opt.x, *con["args"])) for con in cons)
         if constraint_error < 1e-4:
             current_entropy = -opt.fun
             if current_entropy > best_entropy:
-- 
2.43.0


From 171232067e8e0ba160aa0c8a2015585c922d2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 27/44] fix: match_moments takes the moments of a sample in the
 requested order and with excess kurtosis

---
 preliz/unidimensional/matching.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/preliz/unidimensional/matching.py b/preliz/unidimensional/matching.py
index 7c2073a..64ea19a 100644
--- a/preliz/unidimensional/matching.py
+++ b/preliz/unidimensional/matching.py
@@ -103,16 +103,18 @@ def match_moments(
         target_values = []
         mean = np.mean(from_dist)
         std = np.std(from_dist)
-        if "m" in moments:
-            target_values.append(mean)
-        if "v" in moments:
-            target_values.append(np.var(from_dist))
-        if "d" in moments:
-            target_values.append(std)
-        if "s" in moments:
-            target_values.append(np.mean(((from_dist - mean) / std) ** 3))
-        if "k" in moments:
-            target_values.append(np.mean(((from_dist - mean) / std) ** 4))
+        # same order and same definitions as the method `moments` of the distributions
+        for m_t in moments:
+            if m_t == "m":
+                target_values.append(mean)
+            elif m_t == "v":
+                target_values.append(np.var(from_dist))
+            elif m_t == "d":
+                target_values.append(std)
+            elif m_t == "s":
+                target_values.append(np.mean(((from_dist - mean) / std) ** 3))
+            elif m_t == "k":
+                target_values.append(np.mean(((from_dist - mean) / std) ** 4) - 3)
         target_values = np.array(target_values)
         is_array_like = True
 
-- 
2.43.0


From f05c473a0438d52ac2fc729930917c1cc28d0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 28/44] fix: match_moments rejects targets when any of the
 moments is not finite

---
 preliz/unidimensional/matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/unidimensional/matching.py b/preliz/unidimensional/matching.py
index 64ea19a..887f547 100644
--- a/preliz/unidimensional/matching.py
+++ b/preliz/unidimensional/matching.py
@@ -118,7 +118,7 @@ def match_moments(
         target_values = np.array(target_values)
         is_array_like = True
 
-    if not np.any(np.isfinite(target_values)):
+    if not np.all(np.isfinite(target_values)):
         raise ValueError(
             f"At least one of the requested moments ({moments}) of `from_dist` is not finite."
         )
-- 
2.43.0


From f015d71e4a6e8217dbda0f2a4a960a959221a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 29/44] fix: match_quantiles works for distributions without
 finite mean or standard deviation

---
 preliz/unidimensional/matching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preliz/unidimensional/matching.py b/preliz/unidimensional/matching.py
index 887f547..7623501 100644
--- a/preliz/unidimensional/matching.py
+++ b/preliz/unidimensional/matching.py
@@ -242,6 +242,9 @@ def match_quantiles(
             target_values = np.array(from_dist.ppf(quantiles))
             mean = from_dist.mean()
             std = from_dist.std()
+            if not np.isfinite(mean) or not np.isfinite(std):
+                q25, mean, q75 = from_dist.ppf(np.array([0.25, 0.5, 0.75]))
+                std = (q75 - q25) / 1.35
             is_array_like = False
     else:
         target_values = np.quantile(from_dist, quantiles)
-- 
2.43.0


From 35017fb7d5652b602f3966ee8114eae2ed906f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 30/44] fix: quartile does not warn about discrete
 distributions with the requested quartiles

---
 preliz/internal/optimization.py   | 4 +++-
 preliz/unidimensional/quartile.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 32d345d..69814fa 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -492,7 +492,9 @@ def fit_to_quartile(selected_distributions, q1, q2, q3, extra_pros):
 
             optimize_quartile(distribution, (q1, q2, q3), none_idx, fixed)
 
-            r_error, _ = relative_error(distribution, q1, q3, 0.5)
+            # for discrete distributions q1 is not part of the central half
+            lower = q1 + 1 if distribution.kind == "discrete" else q1
+            r_error, _ = relative_error(distribution, lower, q3, 0.5)
             if r_error < error:
                 fitted_dist = distribution
                 error = r_error
diff --git a/preliz/unidimensional/quartile.py b/preliz/unidimensional/quartile.py
index 4adf0c4..4c800ce 100644
--- a/preliz/unidimensional/quartile.py
+++ b/preliz/unidimensional/quartile.py
@@ -125,7 +125,9 @@ def quartile(
 
     distribution.opt = opt
 
-    r_error, _ = relative_error(distribution, q1, q3, 0.5)
+    # for discrete distributions q1 is not part of the central half
+    lower = q1 + 1 if distribution.kind == "discrete" else q1
+    r_error, _ = relative_error(distribution, lower, q3, 0.5)
 
     if r_error > 0.01:
         computed_masses = distribution.cdf(quartiles).astype(float)
-- 
2.43.0


From 57cc55fdf800dac07286b51b22ae78f98f9b66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 31/44] fix: roulette compares densities with densities when
 the columns are not one unit wide

---
 preliz/unidimensional/combine_roulette.py | 6 ++++--
 preliz/unidimensional/roulette.py         | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/preliz/unidimensional/combine_roulette.py b/preliz/unidimensional/combine_roulette.py
index a85630c..5592067 100644
--- a/preliz/unidimensional/combine_roulette.py
+++ b/preliz/unidimensional/combine_roulette.py
@@ -72,14 +72,16 @@ def combine_roulette(responses, weights=None, dist_names=None, params=None):
         var += pdf_i * (x_i - mean) ** 2
     std = var**0.5
 
-    # Assuming all the elicited distributions have the same x_min and x_max
+    # Assuming all the elicited distributions have the same x_min, x_max and number of columns
     x_min = responses[0][3]
     x_max = responses[0][4]
+    step = (x_max - x_min) / (responses[0][6] - 1)
 
     fitted_dist = fit_to_epdf(
         get_distributions(dist_names),
         list(new_pdf.keys()),
-        list(new_pdf.values()),
+        # from the probability of each column to its density
+        [pdf_i / step for pdf_i in new_pdf.values()],
         mean,
         std,
         x_min,
diff --git a/preliz/unidimensional/roulette.py b/preliz/unidimensional/roulette.py
index 909b498..3bb28f5 100644
--- a/preliz/unidimensional/roulette.py
+++ b/preliz/unidimensional/roulette.py
@@ -159,10 +159,12 @@ class Roulette:
 
             if selected_distributions:
                 self._reset_dist_panel(yticks=False)
+                step = (self._x_max - self._x_min) / (self._ncols - 1)
                 fitted_dist = fit_to_epdf(
                     selected_distributions,
                     x_vals,
-                    epdf,
+                    # from the probability of each column to its density
+                    [prob / step for prob in epdf],
                     mean,
                     std,
                     self._x_min,
-- 
2.43.0


From 9a8fd71dd236ae6a815ea6ab5f470dc7c929c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 32/44] fix: clicks below the grid of the roulette do not put a
 negative number of chips

---
 preliz/unidimensional/roulette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/unidimensional/roulette.py b/preliz/unidimensional/roulette.py
index 3bb28f5..832199a 100644
--- a/preliz/unidimensional/roulette.py
+++ b/preliz/unidimensional/roulette.py
@@ -418,7 +418,7 @@ class _Rectangles:
             idx = floor(x)
             idy = ceil(y)
 
-            if 0 <= idx < self._ncols and 0 <= idy <= self._nrows:
+            if 0 <= idx < self._ncols and 0 < idy <= self._nrows:
                 if self._weights[idx] >= idy:
                     idy -= 1
                     for row in range(self._nrows):
-- 
2.43.0


From 2677e43165bf332bf436f9a8b1fe96390e0f3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 33/44] fix: BetaScaled keeps the parameters fixed when fitting

---
 preliz/distributions/betascaled.py |  8 ++++++++
 preliz/internal/optimization.py    | 10 ++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/preliz/distributions/betascaled.py b/preliz/distributions/betascaled.py
index 297a3ec..ae01f96 100644
--- a/preliz/distributions/betascaled.py
+++ b/preliz/distributions/betascaled.py
@@ -62,6 +62,14 @@ class BetaScaled(Continuous):
         self._parametrization(self.alpha, self.beta, self.lower, self.upper)
 
     def _parametrization(self, alpha=None, beta=None, lower=None, upper=None):
+        self.alpha = alpha
+        self.beta = beta
+        # the bounds always have a value
+        if lower is not None:
+            self.lower = lower
+        if upper is not None:
+            self.upper = upper
+        self.support = (self.lower, self.upper)
         self.param_names = ("alpha", "beta", "lower", "upper")
         self.params_support = ((eps, pt.inf), (eps, pt.inf), (-pt.inf, pt.inf), (-pt.inf, pt.inf))
         if all_not_none(alpha, beta):
diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 69814fa..4b49e5b 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -417,13 +417,13 @@ def fit_to_epdf(selected_distributions, x_vals, epdf, mean, std, x_min, x_max, e
     """
     fitted = Loss(len(selected_distributions))
     for dist in selected_distributions:
+        if dist.__class__.__name__ == "BetaScaled":
+            update_bounds_beta_scaled(dist, x_min, x_max)
         if dist.__class__.__name__ in extra_pros:
             try:
                 dist._parametrization(**extra_pros[dist.__class__.__name__])
             except TypeError:
                 pass
-        if dist.__class__.__name__ == "BetaScaled":
-            update_bounds_beta_scaled(dist, x_min, x_max)
 
         if dist._check_endpoints(x_min, x_max, raise_error=False):
             none_idx, fixed = get_fixed_params(dist)
@@ -479,12 +479,6 @@ def fit_to_quartile(selected_distributions, q1, q2, q3, extra_pros):
     for distribution in selected_distributions:
         if distribution.__class__.__name__ in extra_pros:
             distribution._parametrization(**extra_pros[distribution.__class__.__name__])
-            if distribution.__class__.__name__ == "BetaScaled":
-                update_bounds_beta_scaled(
-                    distribution,
-                    extra_pros[distribution.__class__.__name__]["lower"],
-                    extra_pros[distribution.__class__.__name__]["upper"],
-                )
         if distribution._check_endpoints(q1, q3, raise_error=False):
             none_idx, fixed = get_fixed_params(distribution)
 
-- 
2.43.0


From de517b305c64f579066757d953cb21fe1e627a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 34/44] fix: PyMC hurdles over discrete bases and truncated
 HalfNormal, LogitNormal and TruncatedNormal can be converted

---
 preliz/ppls/pymc_io.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/preliz/ppls/pymc_io.py b/preliz/ppls/pymc_io.py
index 2eb0ac5..09e6ee9 100644
--- a/preliz/ppls/pymc_io.py
+++ b/preliz/ppls/pymc_io.py
@@ -267,8 +267,8 @@ def from_pymc(dist):
         return modules["preliz.distributions"].Censored(BaseDist, lower=lower, upper=upper)
 
     if "Truncated" in name and name != "TruncatedNormal":
-        base_dist_name = name.split("Truncated")[1]
-        base_params = [v.eval() for v in dist.owner.inputs[2:-2]]
+        base_dist_name = name.removeprefix("Truncated")
+        base_params = _get_params(base_dist_name, dist.owner.inputs[:-2])
         lower = _as_scalar(dist.owner.inputs[-2].eval())
         upper = _as_scalar(dist.owner.inputs[-1].eval())
         if np.isnan(lower):
@@ -304,25 +304,22 @@ def from_pymc(dist):
             return modules["preliz.distributions"].Mixture(PreliZ_components, weights=weights)
 
     elif name == "Hurdle":
-        base_type_name = dist.owner.inputs[-1].owner.op._print_name[0].replace("Truncated", "")
+        base_node = dist.owner.inputs[-1].owner
+        base_type_name = base_node.op._print_name[0]
+        base_inputs = base_node.inputs
+        # discrete distributions are truncated to exclude zero
+        if base_type_name.startswith("Truncated"):
+            base_type_name = base_type_name.removeprefix("Truncated")
+            base_inputs = base_inputs[:-2]
         psi = _nan_to_none(dist.owner.inputs[1].eval())[-1]
-        base_params = [v.eval() for v in dist.owner.inputs[-1].owner.inputs[2:]]
+        base_params = _get_params(base_type_name, base_inputs)
         BaseDist = getattr(modules["preliz.distributions"], base_type_name)
         return getattr(modules["preliz.distributions"], "Hurdle")(
             _reparametrize(BaseDist, base_type_name, base_params), psi
         )
 
     else:
-        if name == "HalfNormal":
-            params_inputs = [v.eval() for v in dist.owner.inputs[3:]]
-        elif name == "LogitNormal":
-            params_inputs = [v.eval() for v in dist.owner.inputs[1:]]
-        else:
-            params_inputs = [v.eval() for v in dist.owner.inputs[2:]]
-
-        params_inputs = [
-            p for p in params_inputs if isinstance(p, (int, float, np.number, np.ndarray))
-        ]
+        params_inputs = _get_params(name, dist.owner.inputs)
 
         try:
             Dist = getattr(modules["preliz.distributions"], name)
@@ -372,6 +369,19 @@ def from_prior(prior):
     raise ValueError(f"Unknown PreliZ distribution: {dist_name}")
 
 
+def _get_params(name, inputs):
+    """Values of the parameters, ignoring the rest of the inputs (rng, size, fixed location)."""
+    if name == "HalfNormal":
+        inputs = inputs[3:]
+    elif name == "LogitNormal":
+        inputs = inputs[1:]
+    else:
+        inputs = inputs[2:]
+
+    params = [v.eval() for v in inputs]
+    return [p for p in params if isinstance(p, (int, float, np.number, np.ndarray))]
+
+
 def _as_scalar(x):
     x = np.asarray(x)
     return x.item() if x.shape == () or x.size == 1 else x
-- 
2.43.0


From 867e29df961bef6a049fafa8614aaea9766254b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 35/44] fix: priors of a PyMC model are recognised when the
 name of the op is not the name of the family

---
 preliz/ppls/pymc_io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/preliz/ppls/pymc_io.py b/preliz/ppls/pymc_io.py
index 09e6ee9..7d09449 100644
--- a/preliz/ppls/pymc_io.py
+++ b/preliz/ppls/pymc_io.py
@@ -123,9 +123,8 @@ def extract_preliz_distributions(model):
 
     preliz_model = {}
     for r_v in model.free_RVs:
-        dist_name = (
-            r_v.owner.op.name if r_v.owner.op.name else str(r_v.owner.op).split("RV", 1)[0].lower()
-        )
+        # the printed name is the name of the class, the name of the op may not be
+        dist_name = r_v.owner.op._print_name[0].lower()
         dist = copy(pymc_to_preliz[dist_name])
         preliz_model[r_v.name] = dist
 
-- 
2.43.0


From 5c2b89ca6cf681ff835249682aaaf1cf883f774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 36/44] fix: alternative families are fitted per variable when
 back-fitting priors

---
 preliz/ppls/agnostic.py | 6 ++++--
 preliz/ppls/pymc_io.py  | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/preliz/ppls/agnostic.py b/preliz/ppls/agnostic.py
index 3f9e6f3..d6c3734 100644
--- a/preliz/ppls/agnostic.py
+++ b/preliz/ppls/agnostic.py
@@ -5,6 +5,7 @@ import logging
 import re
 import warnings
 from contextlib import contextmanager
+from copy import copy
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -95,10 +96,11 @@ def back_fitting_idata(idata, model_info, new_families):
             if new_families == "auto":
                 alt = [Normal(), HalfNormal(), Gamma()]
                 dists += [a for a in alt if dist.__class__.__name__ != a.__class__.__name__]
+            # fits are done in place, each variable needs its own instances
             elif isinstance(new_families, list):
-                dists += new_families
+                dists += [copy(d) for d in new_families]
             elif isinstance(new_families, dict):
-                dists += new_families.get(var, [])
+                dists += [copy(d) for d in new_families.get(var, [])]
 
             idx, _ = mle(dists, posterior[var].values, plot=False)
             new_priors[var] = dists[idx[0]]
diff --git a/preliz/ppls/pymc_io.py b/preliz/ppls/pymc_io.py
index 7d09449..755ce53 100644
--- a/preliz/ppls/pymc_io.py
+++ b/preliz/ppls/pymc_io.py
@@ -55,14 +55,15 @@ def set_families(dist, var, new_families):
     if new_families is not None:
         if new_families == "auto":
             alt = [
-                getattr(modules["preliz.distributions"], d)
+                getattr(modules["preliz.distributions"], d)()
                 for d in ["Normal", "HalfNormal", "Gamma"]
             ]
             dists += [a for a in alt if dist.__class__.__name__ != a.__class__.__name__]
+        # fits are done in place, each variable needs its own instances
         elif isinstance(new_families, list):
-            dists += new_families
+            dists += [copy(d) for d in new_families]
         elif isinstance(new_families, dict):
-            dists += new_families.get(var, [])
+            dists += [copy(d) for d in new_families.get(var, [])]
 
     return dists
 
-- 
2.43.0


From 09802916b8f1f5af2effc9ab8eee2764651927db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 37/44] fix: priors of hierarchical models are written under
 their own name and as valid code

---
 preliz/ppls/bambi_io.py | 13 +++++++------
 preliz/ppls/pymc_io.py  | 12 ++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/preliz/ppls/bambi_io.py b/preliz/ppls/bambi_io.py
index 939ca0d..454d7c2 100644
--- a/preliz/ppls/bambi_io.py
+++ b/preliz/ppls/bambi_io.py
@@ -23,7 +23,7 @@ def write_bambi_string(new_priors, var_info):
     So the user can copy and paste, ideally with none to minimal changes.
     """
     header = "{\n"
-    variables = []
+    variables = {}
     names = list(new_priors.keys())
     for key, value in new_priors.items():
         idxs = var_info[key][-1]
@@ -34,25 +34,26 @@ def write_bambi_string(new_priors, var_info):
                 cp_dist._fit_moments(np.mean(value.mean()), np.mean(value.std()))
 
                 dist_name, dist_params = repr(cp_dist).split("(")
+                dist_params = dist_params.rstrip(")")
                 size = var_info[nkey][1]
                 if size > 1:
-                    variables[i] = (
+                    variables[nkey] = (
                         f'"{nkey}" : bmb.Prior("{dist_name}", {dist_params}, shape={size}),\n'
                     )
                 else:
-                    variables[i] = f'"{nkey}" : bmb.Prior("{dist_name}", {dist_params}),\n'
+                    variables[nkey] = f'"{nkey}" : bmb.Prior("{dist_name}", {dist_params}),\n'
         else:
             dist_name, dist_params = repr(value).split("(")
             dist_params = dist_params.rstrip(")")
             size = var_info[key][1]
             if size > 1:
-                variables.append(
+                variables[key] = (
                     f'"{key}" : bmb.Prior("{dist_name}", {dist_params}, shape={size}),\n'
                 )
             else:
-                variables.append(f'"{key}" : bmb.Prior("{dist_name}", {dist_params}),\n')
+                variables[key] = f'"{key}" : bmb.Prior("{dist_name}", {dist_params}),\n'
 
-    return "".join([header] + variables)
+    return "".join([header, *variables.values(), "}\n"])
 
 
 def from_bambi(fmodel, draws):
diff --git a/preliz/ppls/pymc_io.py b/preliz/ppls/pymc_io.py
index 755ce53..b583b26 100644
--- a/preliz/ppls/pymc_io.py
+++ b/preliz/ppls/pymc_io.py
@@ -185,7 +185,7 @@ def write_pymc_string(new_priors, var_info):
     So the user can copy and paste, ideally with none to minimal changes.
     """
     header = "with pm.Model() as model:\n"
-    variables = []
+    variables = {}
     names = list(new_priors.keys())
     for key, value in new_priors.items():
         idxs = var_info[key][-1]
@@ -200,23 +200,23 @@ def write_pymc_string(new_priors, var_info):
                 if size > 1:
                     dist_params = dist_params.split(")")[0]
                     # fmt: off
-                    variables[i] = f'    {nkey:} = pm.{dist_name}("{nkey}", {dist_params}, shape={size})\n' # noqa: E501
+                    variables[nkey] = f'    {nkey:} = pm.{dist_name}("{nkey}", {dist_params}, shape={size})\n' # noqa: E501
                     # fmt: on
                 else:
-                    variables[i] = f'    {nkey:} = pm.{dist_name}("{nkey}", {dist_params}\n'
+                    variables[nkey] = f'    {nkey:} = pm.{dist_name}("{nkey}", {dist_params}\n'
 
         else:
             dist_name, dist_params = repr(value).split("(")
             size = var_info[key][1]
             if size > 1:
                 dist_params = dist_params.split(")")[0]
-                variables.append(
+                variables[key] = (
                     f'    {key:} = pm.{dist_name}("{key}", {dist_params}, shape={size})\n'
                 )
             else:
-                variables.append(f'    {key:} = pm.{dist_name}("{key}", {dist_params}\n')
+                variables[key] = f'    {key:} = pm.{dist_name}("{key}", {dist_params}\n'
 
-    return "".join([header] + variables)
+    return "".join([header, *variables.values()])
 
 
 def non_constant_parents(rvs, model):
-- 
2.43.0


From afe47d8fda0271b3c7ccd1167aed9591e31c5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 38/44] fix: bounded priors of a PyMC model take their bounds
 when mapped back to their own scale

---
 preliz/ppls/pymc_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preliz/ppls/pymc_io.py b/preliz/ppls/pymc_io.py
index b583b26..1bab6c1 100644
--- a/preliz/ppls/pymc_io.py
+++ b/preliz/ppls/pymc_io.py
@@ -147,7 +147,7 @@ def retrieve_variable_info(model):
         if is_transformed_name(name):
             name = get_untransformed_name(name)
             x_var = matrix(f"{name}_transformed")
-            z_var = model.rvs_to_transforms[rvs].backward(x_var)
+            z_var = model.rvs_to_transforms[rvs].backward(x_var, *rvs.owner.inputs)
             transformation = function(inputs=[x_var], outputs=z_var)
         else:
             transformation = None
-- 
2.43.0


From 86125bc3b1e2573cf62c36c079e3ba100bd5417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 39/44] fix: prior predictive assistant offers the last
 samples, and honours target and boundaries

---
 preliz/predictive/ppa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preliz/predictive/ppa.py b/preliz/predictive/ppa.py
index 5e41ce4..261aa59 100644
--- a/preliz/predictive/ppa.py
+++ b/preliz/predictive/ppa.py
@@ -246,6 +246,8 @@ class FilterDistribution:
                 pp_idxs_to_display.append(new)
 
                 for _ in range(8):
+                    if len(self.shown.union(pp_idxs_to_display)) == self.draws:
+                        break
                     farthest_neighbor = self.draws
                     while new in pp_idxs_to_display or new in self.shown:
                         _, new = self.kdt.query(
@@ -261,8 +263,8 @@ class FilterDistribution:
                 pp_idxs_to_display.append(new)
 
                 for _ in range(9):
-                    nearest_neighbor = 2
-                    while new in pp_idxs_to_display:
+                    nearest_neighbor = 1
+                    while new in pp_idxs_to_display or new in self.shown:
                         distance, new = self.kdt.query(
                             self.ref_octiles, [nearest_neighbor], workers=-1
                         )
-- 
2.43.0


From 8e7a1b21a7bc1320bf4d9910b61187d577342bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 40/44] fix: PreliZ modifiers over other modifiers can be used
 inside a PyMC model

---
 preliz/distributions/distributions.py | 66 +++++++++++----------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/preliz/distributions/distributions.py b/preliz/distributions/distributions.py
index ccc807e..645f8f9 100644
--- a/preliz/distributions/distributions.py
+++ b/preliz/distributions/distributions.py
@@ -498,48 +498,12 @@ class Distribution:
 
             model = Model.get_context(error_if_none=False)
 
-            if self.__class__.__name__ == "Hurdle":
-                preliz_name = self.__class__.__name__ + self.dist.__class__.__name__
-            else:
-                preliz_name = self.__class__.__name__
-            pymc_class = getattr(pm_dists, preliz_name)
+            pymc_class, pymc_kwargs = _to_pymc_args(self, pm_dists)
 
             if model is None:
-                if self.__class__.__name__ in ["Truncated", "Censored"]:
-                    pymc_dist = pymc_class.dist(
-                        self.dist.to_pymc(),
-                        lower=self.params_dict["lower"],
-                        upper=self.params_dict["upper"],
-                        **kwargs,
-                    )
-                elif self.__class__.__name__ == "Mixture":
-                    pymc_dist = pymc_class.dist(
-                        self.weights,
-                        [dist.to_pymc() for dist in self.dist],
-                        **kwargs,
-                    )
-                else:
-                    pymc_dist = pymc_class.dist(**self.params_dict, **kwargs)
-            elif self.__class__.__name__ in ["Truncated", "Censored"]:
-                pymc_dist = pymc_class(
-                    name,
-                    getattr(pm_dists, self.dist.__class__.__name__).dist(**self.dist.params_dict),
-                    lower=self.params_dict["lower"],
-                    upper=self.params_dict["upper"],
-                    **kwargs,
-                )
-            elif self.__class__.__name__ == "Mixture":
-                pymc_dist = pymc_class(
-                    name,
-                    self.weights,
-                    [
-                        getattr(pm_dists, dist.__class__.__name__).dist(**dist.params_dict)
-                        for dist in self.dist
-                    ],
-                    **kwargs,
-                )
+                pymc_dist = pymc_class.dist(**pymc_kwargs, **kwargs)
             else:
-                pymc_dist = pymc_class(name, **self.params_dict, **kwargs)
+                pymc_dist = pymc_class(name, **pymc_kwargs, **kwargs)
 
             return pymc_dist
 
@@ -1205,3 +1169,27 @@ def _format_support(values):
     if isinstance(values, tuple | list):
         return tuple(_format_support(v) for v in values)
     return _format_support_value(values)
+
+
+def _to_pymc_args(dist, pm_dists):
+    """Class and arguments of the PyMC distribution equivalent to ``dist``."""
+
+    def unnamed(dist):
+        pymc_class, pymc_kwargs = _to_pymc_args(dist, pm_dists)
+        return pymc_class.dist(**pymc_kwargs)
+
+    name = dist.__class__.__name__
+    if name in ["Truncated", "Censored"]:
+        return getattr(pm_dists, name), {
+            "dist": unnamed(dist.dist),
+            "lower": dist.params_dict["lower"],
+            "upper": dist.params_dict["upper"],
+        }
+    if name == "Mixture":
+        return getattr(pm_dists, name), {
+            "w": dist.weights,
+            "comp_dists": [unnamed(component) for component in dist.dist],
+        }
+    if name == "Hurdle":
+        name += dist.dist.__class__.__name__
+    return getattr(pm_dists, name), dist.params_dict
-- 
2.43.0


From 7ecf33fd151c1da620024c6bd425b5267e539e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 41/44] fix: moment fits of defined, truncated and censored
 laws, and of Rice laws close to zero

---
 preliz/distributions/censored.py  | 4 +++-
 preliz/distributions/truncated.py | 4 +++-
 preliz/internal/optimization.py   | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/preliz/distributions/censored.py b/preliz/distributions/censored.py
index 3a4bff1..4d1d235 100644
--- a/preliz/distributions/censored.py
+++ b/preliz/distributions/censored.py
@@ -225,4 +225,6 @@ class Censored(DistributionTransformer):
 
     def _fit_moments(self, mean, sigma):
         self.dist._fit_moments(mean, sigma)
-        self._parametrization(**dict(zip(self.dist.param_names, self.dist.params)))
+        self._parametrization(
+            self.lower, self.upper, **dict(zip(self.dist.param_names, self.dist.params))
+        )
diff --git a/preliz/distributions/truncated.py b/preliz/distributions/truncated.py
index b82bf32..a51e271 100644
--- a/preliz/distributions/truncated.py
+++ b/preliz/distributions/truncated.py
@@ -154,7 +154,9 @@ class Truncated(DistributionTransformer):
 
     def _fit_moments(self, mean, sigma):
         self.dist._fit_moments(mean, sigma)
-        self._parametrization(**dict(zip(self.dist.param_names, self.dist.params)))
+        self._parametrization(
+            self.lower, self.upper, **dict(zip(self.dist.param_names, self.dist.params))
+        )
 
 
 def adjust_lower(kind, lower):
diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 4b49e5b..85b66cc 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -172,6 +172,9 @@ def optimize_mean_sigma(dist, mean, sigma, params=None):
         return loss
 
     none_idx, fixed = get_fixed_params(dist)
+    # for a distribution already defined all the parameters are fitted again
+    if not none_idx:
+        none_idx, fixed = list(range(len(dist.param_names))), []
 
     if params is not None:
         dist._update(*params)
@@ -214,7 +217,7 @@ def optimize_moments_rice(mean, std_dev):
 
     if ratio < 1.913:  # Rayleigh distribution
         nu = np.finfo(float).eps
-        sigma = 0.655 * std_dev
+        sigma = std_dev / 0.655
     else:
 
         def xi(theta):
-- 
2.43.0


From dbe3bac4cbfa6e7fd7345c34defea68b76a57a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 42/44] fix: likelihood fits of laws defined in an alternative
 parametrization

---
 preliz/internal/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 85b66cc..463fd12 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -252,9 +252,11 @@ def optimize_ml(dist, sample):
         return -dist.logpdf(sample).sum()
 
     dist._fit_moments(np.mean(sample), np.std(sample))
-    init_vals = dist.params
+    # `_update` takes the canonical parameters, whatever the parametrization in use
+    canonical = dist.__class__()
+    init_vals = [getattr(dist, name) for name in canonical.param_names]
 
-    opt = minimize(negll, x0=init_vals, bounds=dist.params_support, args=(dist, sample))
+    opt = minimize(negll, x0=init_vals, bounds=canonical.params_support, args=(dist, sample))
 
     dist._update(*opt["x"])
 
-- 
2.43.0


From d98be269ba8e79fd59749c16260536f1e8241694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 43/44] fix: rcParams refuse values that are not valid and keep
 their state when a context fails

---
 preliz/internal/rcparams.py | 40 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/preliz/internal/rcparams.py b/preliz/internal/rcparams.py
index 1b5387b..8b8eeb9 100644
--- a/preliz/internal/rcparams.py
+++ b/preliz/internal/rcparams.py
@@ -52,7 +52,7 @@ def _validate_float(value):
     """Validate value is a float."""
     try:
         value = float(value)
-    except ValueError as err:
+    except (ValueError, TypeError) as err:
         raise ValueError("Could not convert to float") from err
     return value
 
@@ -60,18 +60,22 @@ def _validate_float(value):
 def _validate_probability(value):
     """Validate a probability: a float between 0 and 1."""
     value = _validate_float(value)
-    if (value < 0) or (value > 1):
+    if not 0 <= value <= 1:
         raise ValueError("Only values between 0 and 1 are valid.")
     return value
 
 
 def _validate_boolean(value):
-    """Validate value is a float."""
+    """Validate value is a boolean."""
     if isinstance(value, str):
         value = value.lower()
-    if value not in {True, False, "true", "false"}:
+    try:
+        valid = value in {True, False, "true", "false"}
+    except TypeError:
+        valid = False
+    if not valid:
         raise ValueError("Only boolean values are valid.")
-    return value is True or value == "true"
+    return value in {True, "true"}
 
 
 def make_iterable_validator(scalar_validator, length=None, allow_none=False, allow_auto=False):
@@ -268,13 +272,13 @@ def read_rcfile(fname):
                 tup = strippedline.split(":", 1)
                 if len(tup) != 2:
                     error_details = _error_details_fmt % (line_no, line, fname)
-                    warnings.warn("Illegal %s", error_details)
+                    warnings.warn(f"Illegal {error_details}")
                     continue
                 key, val = tup
                 key = key.strip()
                 val = val.strip()
                 if key in config:
-                    warnings.warn("Duplicate key in file %r line #%d.", fname, line_no)
+                    warnings.warn(f"Duplicate key in file {fname!r} line #{line_no}.")
                 try:
                     config[key] = val
                 except ValueError as verr:
@@ -283,10 +287,9 @@ def read_rcfile(fname):
 
         except UnicodeDecodeError:
             warnings.warn(
-                "Cannot decode configuration file %s with encoding "
-                "%s, check LANG and LC_* variables.",
-                fname,
-                locale.getpreferredencoding(do_setlocale=False) or "utf-8 (default)",
+                f"Cannot decode configuration file {fname} with encoding "
+                f"{locale.getpreferredencoding(do_setlocale=False) or 'utf-8 (default)'}, "
+                "check LANG and LC_* variables."
             )
             raise
 
@@ -330,11 +333,16 @@ class rc_context:
 
     def __init__(self, rc=None, fname=None):
         self._orig = rcParams.copy()
-        if fname:
-            file_rcparams = read_rcfile(fname)
-            rcParams.update(file_rcparams)
-        if rc:
-            rcParams.update(rc)
+        try:
+            if fname:
+                file_rcparams = read_rcfile(fname)
+                rcParams.update(file_rcparams)
+            if rc:
+                rcParams.update(rc)
+        except Exception:
+            # nothing is left half changed when a setting is not valid
+            rcParams.update(self._orig)
+            raise
 
     def __enter__(self):
         """Define enter method of context manager."""
-- 
2.43.0


From 9512809f985d001dfa9eaf219d1061a85199a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 44/44] fix: multivariate laws: mean of MvNormal, plots on
 given axes, Dirichlet modes that cannot be reached

---
 preliz/distributions/continuous_multivariate.py | 7 ++++++-
 preliz/internal/optimization.py                 | 6 ++++++
 preliz/internal/plot_helper_multivariate.py     | 8 ++++----
 preliz/multidimensional/dirichlet_mode.py       | 3 +++
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/preliz/distributions/continuous_multivariate.py b/preliz/distributions/continuous_multivariate.py
index d81fe66..d3e0ea1 100644
--- a/preliz/distributions/continuous_multivariate.py
+++ b/preliz/distributions/continuous_multivariate.py
@@ -472,7 +472,7 @@ class Dirichlet(Continuous):
             elif kind == "ppf":
                 plot_dirichlet(
                     self,
-                    "cdf",
+                    "ppf",
                     "marginals",
                     pointinterval,
                     interval,
@@ -585,6 +585,11 @@ class MvNormal(Continuous):
     def mode(self):
         return self.mu
 
+    def mean(self):
+        """Mean of the distribution."""
+        # the mean of the frozen multivariate normal is an attribute and not a method
+        return self.rv_frozen.mean
+
     def plot_pdf(
         self,
         marginals=True,
diff --git a/preliz/internal/optimization.py b/preliz/internal/optimization.py
index 463fd12..d557fa5 100644
--- a/preliz/internal/optimization.py
+++ b/preliz/internal/optimization.py
@@ -281,6 +281,12 @@ def optimize_dirichlet_mode(lower_bounds, mode, target_mass, _dist):
     while abs(new_prob - target_mass) > 0.0001:
         if new_prob < target_mass:
             tau -= 0.5 * tau
+            # alpha is already flat
+            if tau < 1e-8:
+                raise ValueError(
+                    "The requested mass is too small, even a uniform Dirichlet distribution "
+                    "has more mass within the bound"
+                )
         else:
             tau += 0.5 * tau
 
diff --git a/preliz/internal/plot_helper_multivariate.py b/preliz/internal/plot_helper_multivariate.py
index 221d0e0..15b2016 100644
--- a/preliz/internal/plot_helper_multivariate.py
+++ b/preliz/internal/plot_helper_multivariate.py
@@ -126,7 +126,7 @@ def plot_dirichlet(
         cols, rows = get_cols_rows(dim)
 
         if axes is None:
-            fig, axes = plt.subplots(cols, rows, figsize=figsize, sharex=True, sharey=True)
+            _, axes = plt.subplots(cols, rows, figsize=figsize, sharex=True, sharey=True)
             axes = axes.flatten()
         if len(axes) > dim:
             for ax in axes[dim:]:
@@ -193,7 +193,7 @@ def plot_dirichlet(
                 ax.set_ylim(*ylim)
 
         if legend == "title":
-            fig.text(0.5, 1, dist, ha="center", va="center")
+            axes[0].figure.text(0.5, 1, dist, ha="center", va="center")
 
     elif dim == 3:
         dirichlet_ = DirichletOnSimplex(alpha)
@@ -287,7 +287,7 @@ def plot_mvnormal(
         cols, rows = get_cols_rows(dim)
 
         if axes is None:
-            fig, axes = plt.subplots(cols, rows, figsize=figsize, sharex=True, sharey=True)
+            _, axes = plt.subplots(cols, rows, figsize=figsize, sharex=True, sharey=True)
             axes = axes.flatten()
         if len(axes) > dim:
             for ax in axes[dim:]:
@@ -353,7 +353,7 @@ def plot_mvnormal(
             if xy_lim != "auto" and representation != "cdf":
                 ax.set_ylim(*ylim)
         if legend == "title":
-            fig.text(0.5, 1, dist, ha="center", va="center")
+            axes[0].figure.text(0.5, 1, dist, ha="center", va="center")
 
     elif dim == 2:
         if axes is None:
diff --git a/preliz/multidimensional/dirichlet_mode.py b/preliz/multidimensional/dirichlet_mode.py
index a60392f..414ac58 100644
--- a/preliz/multidimensional/dirichlet_mode.py
+++ b/preliz/multidimensional/dirichlet_mode.py
@@ -51,6 +51,9 @@ def dirichlet_mode(mode, mass=None, bound=0.01, plot=None, plot_kwargs=None, ax=
     if not 0 < mass <= 1:
         raise ValueError("mass should be larger than 0 and smaller or equal to 1")
 
+    if not bound > 0:
+        raise ValueError("bound should be larger than 0")
+
     if not all(i > 0 for i in mode):
         raise ValueError("mode should be larger than 0")
 
-- 
2.43.0

