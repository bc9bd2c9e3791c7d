From daf3d3ef0731b60932193dc2b51ef816d4795126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 01/36] fix: GaussianHMM covariance update with fixed means
 used empty statistics

---
 src/hmmlearn/hmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fec0a13..cbd4df1 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -332,7 +332,8 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
     def _needs_sufficient_statistics_for_mean(self):
-        return 'm' in self.params
+        # Updating the covariances also requires the first moments.
+        return 'm' in self.params or 'c' in self.params
 
     def _needs_sufficient_statistics_for_covars(self):
         return 'c' in self.params
-- 
2.43.0


From 298f0fcda6d865a5649ff0570c67796634532c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 02/36] fix: covars_ of a fitted spherical model has one matrix
 per state

---
 src/hmmlearn/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index a080e56..b2b327e 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,9 +63,9 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in, we flatten in
-        # and then expand it to the correct shape
-        covars = np.ravel(covars)
+        # Covariances may also be passed in as (n_components, n_features), with
+        # n_features copies of each variance; keep a single one per component.
+        covars = np.reshape(covars, (n_components, -1))[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 5cc342f3d8ee736f6ff555196cbf17936e59ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 03/36] fix: default spherical GMMHMM covariance prior is flat

---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index cbd4df1..59c9caf 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -609,7 +609,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_weight = 0.0
         elif self.covariance_type == "spherical":
             if self.covars_prior is None:
-                self.covars_prior = -(self.n_mix + 2.0) / 2.0
+                self.covars_prior = -(self.n_features + 2.0) / 2.0
             if self.covars_weight is None:
                 self.covars_weight = 0.0
 
-- 
2.43.0


From 84134128ca9cad64b0353d3a017069ea656b09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 04/36] fix: count the mixture weights of every state of a
 GMMHMM

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a697c11..dd21edb 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -197,7 +197,7 @@ class BaseGMMHMM(BaseHMM):
                 "full": nc * nm * nf * (nf + 1) // 2,
                 "tied": nc * nf * (nf + 1) // 2,
             }[self.covariance_type],
-            "w": nm - 1,
+            "w": nc * (nm - 1),
         }
 
     def _compute_log_weighted_gaussian_densities(self, X, i_comp):
-- 
2.43.0


From b7176a81f9d8797b1a2164ddd9c57a96176f462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 05/36] fix: weigh the PoissonHMM prior against each state's
 own observations

---
 src/hmmlearn/hmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 59c9caf..47051bd 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1067,10 +1067,10 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
             alphas, betas = self.lambdas_prior, self.lambdas_weight
-            n = stats['post'].sum()
-            y_bar = stats['obs'] / stats['post'][:, None]
+            n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
             # 0, where:
+            # y_bar = stats['obs'] / n
             # kappas = betas / (betas + n)
             # self.lambdas_ = kappas * (alphas / betas) + (1 - kappas) * y_bar
-            self.lambdas_ = (alphas + n * y_bar) / (betas + n)
+            self.lambdas_ = (alphas + stats['obs']) / (betas + n)
-- 
2.43.0


From c478edddda3c090ba621d2225055bae80f466051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 06/36] fix: reject empty or negative sequence lengths

---
 src/hmmlearn/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 9f257d2..2989158 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -18,6 +18,8 @@ def split_X_lengths(X, lengths):
     if lengths is None:
         return [X]
     else:
+        if np.any(np.asarray(lengths) <= 0):
+            raise ValueError(f"lengths must be positive, got {lengths}")
         cs = np.cumsum(lengths)
         n_samples = len(X)
         if cs[-1] != n_samples:
-- 
2.43.0


From dc8e602bb51f82ee3d2904ae156ac1fd6c8bbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 07/36] fix: fit does not overwrite the random_state parameter

---
 src/hmmlearn/hmm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 47051bd..f9ac3af 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -128,10 +128,10 @@ class CategoricalHMM(_emissions.BaseCategoricalHMM, BaseHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
 
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         if self._needs_init('e', 'emissionprob_'):
-            self.emissionprob_ = self.random_state.rand(
+            self.emissionprob_ = random_state.rand(
                 self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -918,9 +918,9 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
         if 'e' in self.init_params:
-            self.emissionprob_ = self.random_state \
+            self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -1037,14 +1037,14 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         mean_X = X.mean()
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = self.random_state.gamma(
+            self.lambdas_ = random_state.gamma(
                 shape=mean_X**2 / var_X,
                 scale=var_X / mean_X,  # numpy uses theta = 1 / beta
                 size=(self.n_components, self.n_features))
-- 
2.43.0


From 4a05c54fcebb32768b0825e621f5d8fea83fb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 08/36] fix: GMMHMM initialization of small clusters honors
 random_state

---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index f9ac3af..9d002eb 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -547,6 +547,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         main_kmeans = cluster.KMeans(n_clusters=nc,
                                      random_state=self.random_state,
                                      n_init=10)  # sklearn >=1.2 compat.
+        random_state = check_random_state(self.random_state)
         cv = None  # covariance matrix
         labels = main_kmeans.fit_predict(X)
         main_centroid = np.mean(main_kmeans.cluster_centers_, axis=0)
@@ -562,9 +563,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
             else:
                 if cv is None:
                     cv = compute_cv()
-                m_cluster = np.random.multivariate_normal(main_centroid,
-                                                          cov=cv,
-                                                          size=nm)
+                m_cluster = random_state.multivariate_normal(main_centroid,
+                                                             cov=cv,
+                                                             size=nm)
                 means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
-- 
2.43.0


From c49b08dc80db1b6e4924e135ead040c8f8dc55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 09/36] fix: reject negative symbols when scoring categorical
 data

---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index dd21edb..12e8604 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -81,6 +81,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if X.min() < 0:
+            raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
 
     def _initialize_sufficient_statistics(self):
-- 
2.43.0


From 50bdea8b2f74bf767c5b8299a0692d1ba92678df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 10/36] fix: sample never selects states or symbols of
 probability zero

---
 src/hmmlearn/_emissions.py | 1 +
 src/hmmlearn/base.py       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 12e8604..605d08b 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -107,6 +107,7 @@ class BaseCategoricalHMM(_AbstractHMM):
 
     def _generate_sample_from_state(self, state, random_state=None):
         cdf = np.cumsum(self.emissionprob_[state, :])
+        cdf = cdf / cdf[-1]
         random_state = check_random_state(random_state)
         return [(cdf > random_state.rand()).argmax()]
 
diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 580b71a..6129a8b 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -431,10 +431,14 @@ class _AbstractHMM(BaseEstimator):
             random_state = self.random_state
         random_state = check_random_state(random_state)
 
+        # Normalize, as otherwise a draw larger than a cdf that ends slightly
+        # below one would lead to state 0 even if it is forbidden.
         transmat_cdf = np.cumsum(self.transmat_, axis=1)
+        transmat_cdf = transmat_cdf / transmat_cdf[:, -1:]
 
         if currstate is None:
             startprob_cdf = np.cumsum(self.startprob_)
+            startprob_cdf = startprob_cdf / startprob_cdf[-1]
             currstate = (startprob_cdf > random_state.rand()).argmax()
 
         state_sequence = [currstate]
-- 
2.43.0


From 8ebee881cc0040c11934aca661cebfb9663630a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 11/36] fix: valid initial degrees of freedom for small
 clusters

---
 src/hmmlearn/vhmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 32f7bef..7604941 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -508,7 +508,9 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                         (self.n_components,), self.n_features)
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = np.copy(cluster_counts)
+                # A Wishart distribution needs dof > n_features - 1.
+                self.dof_posterior_ = np.maximum(
+                    cluster_counts, self.n_features)
 
             elif self.covariance_type == "tied":
                 if self.dof_prior is None:
-- 
2.43.0


From 8fb1cce23f90a4126140e7091f23d3e2f3417100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 12/36] fix: accept an array as emissionprob_prior of
 VariationalCategoricalHMM

---
 src/hmmlearn/vhmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 7604941..de712ef 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -152,10 +152,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 emissionprob_init = self.emissionprob_prior
             self.emissionprob_prior_ = np.full(
                 (self.n_components, self.n_features), emissionprob_init)
-            self.emissionprob_posterior_ = random_state.dirichlet(
-                alpha=[emissionprob_init] * self.n_features,
-                size=self.n_components
-            ) * sum(lengths) / self.n_components
+            self.emissionprob_posterior_ = np.array([
+                random_state.dirichlet(alpha)
+                for alpha in self.emissionprob_prior_
+            ]) * sum(lengths) / self.n_components
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 690ad2c8f12009cde39c20395da6e451efe6e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 13/36] fix: variational models fitted with a subset of params
 can be used

---
 src/hmmlearn/base.py | 11 +++++------
 src/hmmlearn/vhmm.py | 24 +++++++++++++-----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 6129a8b..4098ce1 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1234,14 +1234,13 @@ class VariationalBaseHMM(_AbstractHMM):
         """
         if 's' in self.params:
             self.startprob_posterior_ = self.startprob_prior_ + stats['start']
-            # For compatability in _AbstractHMM
-            self.startprob_ = (self.startprob_posterior_
-                               / self.startprob_posterior_.sum())
         if 't' in self.params:
             self.transmat_posterior_ = self.transmat_prior_ + stats['trans']
-            # For compatability in _AbstractHMM
-            self.transmat_ = (self.transmat_posterior_
-                              / self.transmat_posterior_.sum(axis=1)[:, None])
+        # For compatability in _AbstractHMM
+        self.startprob_ = (self.startprob_posterior_
+                           / self.startprob_posterior_.sum())
+        self.transmat_ = (self.transmat_posterior_
+                          / self.transmat_posterior_.sum(axis=1)[:, None])
 
     def _compute_lower_bound(self, curr_logprob):
         """
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index de712ef..7f97d3f 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -212,9 +212,9 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
         if "e" in self.params:
             self.emissionprob_posterior_ = (
                 self.emissionprob_prior_ + stats['obs'])
-            # Provide the normalized probabilities at the posterior median
-            div = self.emissionprob_posterior_.sum(axis=1)[:, None]
-            self.emissionprob_ = self.emissionprob_posterior_ / div
+        # Provide the normalized probabilities at the posterior median
+        div = self.emissionprob_posterior_.sum(axis=1)[:, None]
+        self.emissionprob_ = self.emissionprob_posterior_ / div
 
     def _compute_lower_bound(self, log_prob):
         """Compute the lower bound of the model."""
@@ -730,8 +730,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_posterior_,
                                 self.means_posterior_,
                                 self.means_posterior_))
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_[:, None, None])
             elif self.covariance_type == "tied":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post'].sum()
@@ -747,7 +745,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_posterior_,
                                 self.means_posterior_,
                                 self.means_posterior_))
-                self._covars_ = self.scale_posterior_ / self.dof_posterior_
             elif self.covariance_type == "diag":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -763,8 +760,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_posterior_,
                                 self.means_posterior_,
                                 self.means_posterior_))
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_[:, None])
             elif self.covariance_type == "spherical":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -781,9 +776,16 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                 self.scale_posterior_ = (
                     self.scale_prior_
                     + term2.mean(axis=1))
-                self.scale_posterior_ = self.scale_posterior_
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_)
+
+        # Provide the covariances at the posterior, also if it is not updated.
+        if self.covariance_type == "full":
+            self._covars_ = (self.scale_posterior_
+                             / self.dof_posterior_[:, None, None])
+        elif self.covariance_type == "diag":
+            self._covars_ = (self.scale_posterior_
+                             / self.dof_posterior_[:, None])
+        elif self.covariance_type in ("spherical", "tied"):
+            self._covars_ = self.scale_posterior_ / self.dof_posterior_
 
     def _compute_lower_bound(self, log_prob):
 
-- 
2.43.0


From b5b4d246118fcc1df400c80f2bff2f9fbf665638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 14/36] fix: aic and bic work on models with manually set
 parameters

---
 src/hmmlearn/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 4098ce1..3e8c182 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1001,8 +1001,10 @@ class BaseHMM(_AbstractHMM):
         aic : float
             The lower the better.
         """
+        # Scoring first also sets n_features, if needed.
+        log_prob = self.score(X, lengths=lengths)
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + 2 * n_params
+        return -2 * log_prob + 2 * n_params
 
     def bic(self, X, lengths=None):
         """
@@ -1025,8 +1027,10 @@ class BaseHMM(_AbstractHMM):
         bic : float
             The lower the better.
         """
+        # Scoring first also sets n_features, if needed.
+        log_prob = self.score(X, lengths=lengths)
         n_params = sum(self._get_n_fit_scalars_per_param().values())
-        return -2 * self.score(X, lengths=lengths) + n_params * np.log(len(X))
+        return -2 * log_prob + n_params * np.log(len(X))
 
 
 _BaseHMM = BaseHMM  # Backcompat name, will be deprecated in the future.
-- 
2.43.0


From fe406e350d78df857f0ad450438033a4601134ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 15/36] fix: reject Gaussian data with the wrong number of
 features

Scoring silently broadcast e.g. a single column against every feature.
---
 src/hmmlearn/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hmmlearn/stats.py b/src/hmmlearn/stats.py
index 7a01b8c..ba5b679 100644
--- a/src/hmmlearn/stats.py
+++ b/src/hmmlearn/stats.py
@@ -39,6 +39,10 @@ def log_multivariate_normal_density(X, means, covars, covariance_type='diag'):
         'tied': _log_multivariate_normal_density_tied,
         'diag': _log_multivariate_normal_density_diag,
         'full': _log_multivariate_normal_density_full}
+    n_features = np.shape(means)[-1]
+    if np.shape(X)[-1] != n_features:
+        raise ValueError(f"Unexpected number of dimensions, got "
+                         f"{np.shape(X)[-1]} but expected {n_features}")
     return log_multivariate_normal_density_dict[covariance_type](
         X, means, covars
     )
-- 
2.43.0


From 13c333f9d7c56b991a162db194029bec56c07b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 16/36] fix: reject Poisson data with the wrong number of
 features

---
 src/hmmlearn/_emissions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 605d08b..6215f50 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -383,13 +383,22 @@ class BasePoissonHMM(BaseHMM):
             "l": nc * nf,
         }
 
+    def _check_n_columns(self, X):
+        n_features = self.lambdas_.shape[1]
+        if X.shape[1] != n_features:
+            raise ValueError(
+                f"Unexpected number of dimensions, got {X.shape[1]} but "
+                f"expected {n_features}")
+
     def _compute_likelihood(self, X):
+        self._check_n_columns(X)
         probs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             probs[:, c] = poisson.pmf(X, self.lambdas_[c]).prod(axis=1)
         return probs
 
     def _compute_log_likelihood(self, X):
+        self._check_n_columns(X)
         logprobs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             logprobs[:, c] = poisson.logpmf(X, self.lambdas_[c]).sum(axis=1)
-- 
2.43.0


From 69ab1f6ac775a637b48d9706aacd07dd010b1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 17/36] fix: PoissonHMM initialization from constant data is
 not NaN

---
 src/hmmlearn/hmm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 9d002eb..ffbd09a 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1045,10 +1045,14 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = random_state.gamma(
-                shape=mean_X**2 / var_X,
-                scale=var_X / mean_X,  # numpy uses theta = 1 / beta
-                size=(self.n_components, self.n_features))
+            if var_X > 0:
+                self.lambdas_ = random_state.gamma(
+                    shape=mean_X**2 / var_X,
+                    scale=var_X / mean_X,  # numpy uses theta = 1 / beta
+                    size=(self.n_components, self.n_features))
+            else:  # The gamma distribution degenerates to a point mass.
+                self.lambdas_ = np.full(
+                    (self.n_components, self.n_features), mean_X)
 
     def _check(self):
         super()._check()
-- 
2.43.0


From 8b5ae14a5ab54a5c896578346ed927ea1fbcb586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 18/36] fix: MultinomialHMM initializes an unset emissionprob_
 even if not in init_params

---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index ffbd09a..b3e6381 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -920,7 +920,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
         random_state = check_random_state(self.random_state)
-        if 'e' in self.init_params:
+        if self._needs_init('e', 'emissionprob_'):
             self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
-- 
2.43.0


From a7d649caf3dee4669a0ae7d8a7a47a4f4312fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 19/36] fix: scale posterior of VariationalGaussianHMM when the
 means are not updated

---
 src/hmmlearn/vhmm.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 7f97d3f..c09dc8c 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -715,6 +715,13 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             self.means_posterior_ /= self.beta_posterior_[:, None]
 
         if "c" in self.params:
+            # Weighted first moments, including the prior.  These are equal to
+            # beta * means_posterior_ only if the means are updated as well.
+            beta = self.beta_prior_ + stats['post']
+            moment = (np.einsum("i,ij->ij", self.beta_prior_,
+                                self.means_prior_)
+                      + stats['obs'])
+            mean = self.means_posterior_
             if self.covariance_type == "full":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -726,10 +733,9 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_prior_,
                                 self.means_prior_,
                                 self.means_prior_)
-                    - np.einsum("c,ci,cj->cij",
-                                self.beta_posterior_,
-                                self.means_posterior_,
-                                self.means_posterior_))
+                    - np.einsum("ci,cj->cij", moment, mean)
+                    - np.einsum("ci,cj->cij", mean, moment)
+                    + np.einsum("c,ci,cj->cij", beta, mean, mean))
             elif self.covariance_type == "tied":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post'].sum()
@@ -741,10 +747,9 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_prior_,
                                 self.means_prior_,
                                 self.means_prior_)
-                    - np.einsum("c,ci,cj->ij",
-                                self.beta_posterior_,
-                                self.means_posterior_,
-                                self.means_posterior_))
+                    - np.einsum("ci,cj->ij", moment, mean)
+                    - np.einsum("ci,cj->ij", mean, moment)
+                    + np.einsum("c,ci,cj->ij", beta, mean, mean))
             elif self.covariance_type == "diag":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -756,10 +761,9 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_prior_,
                                 self.means_prior_,
                                 self.means_prior_)
-                    - np.einsum("c,ci,ci->ci",
-                                self.beta_posterior_,
-                                self.means_posterior_,
-                                self.means_posterior_))
+                    - np.einsum("ci,ci->ci", moment, mean)
+                    - np.einsum("ci,ci->ci", mean, moment)
+                    + np.einsum("c,ci,ci->ci", beta, mean, mean))
             elif self.covariance_type == "spherical":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -769,10 +773,9 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                      self.beta_prior_,
                                      self.means_prior_,
                                      self.means_prior_)
-                         - np.einsum("c,ci,ci->ci",
-                                     self.beta_posterior_,
-                                     self.means_posterior_,
-                                     self.means_posterior_))
+                         - np.einsum("ci,ci->ci", moment, mean)
+                         - np.einsum("ci,ci->ci", mean, moment)
+                         + np.einsum("c,ci,ci->ci", beta, mean, mean))
                 self.scale_posterior_ = (
                     self.scale_prior_
                     + term2.mean(axis=1))
-- 
2.43.0


From 42a6720b240ad6547429ee12ee92e2ed8a225a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 20/36] fix: initial variational posteriors that underflow
 under sparse priors

---
 src/hmmlearn/base.py | 18 +++++++++++++-----
 src/hmmlearn/vhmm.py |  4 ++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 3e8c182..83bd6f6 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1079,8 +1079,9 @@ class VariationalBaseHMM(_AbstractHMM):
                 startprob_init = self.startprob_prior
 
             self.startprob_prior_ = np.full(nc, startprob_init)
-            self.startprob_posterior_ = random_state.dirichlet(
-                np.full(nc, uniform_prior)) * len(lengths)
+            self.startprob_posterior_ = self._floor_posterior(
+                random_state.dirichlet(np.full(nc, uniform_prior))
+                * len(lengths))
 
         if (self._needs_init("t", "transmat_posterior_")
                 or self._needs_init("t", "transmat_prior_")):
@@ -1090,9 +1091,9 @@ class VariationalBaseHMM(_AbstractHMM):
                 transmat_init = self.transmat_prior
             self.transmat_prior_ = np.full(
                 (nc, nc), transmat_init)
-            self.transmat_posterior_ = random_state.dirichlet(
-                np.full(nc, uniform_prior), size=nc)
-            self.transmat_posterior_ *= sum(lengths) / nc
+            self.transmat_posterior_ = self._floor_posterior(
+                random_state.dirichlet(np.full(nc, uniform_prior), size=nc)
+                * (sum(lengths) / nc))
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
@@ -1104,6 +1105,13 @@ class VariationalBaseHMM(_AbstractHMM):
                     "%d data points will result in a degenerate solution.",
                     n_fit_scalars, X.size)
 
+    @staticmethod
+    def _floor_posterior(posterior):
+        # Draws from a Dirichlet distribution with small parameters can be so
+        # small that the digamma function diverges (or all underflow, giving
+        # NaNs).
+        return np.fmax(posterior, 1e-6)
+
     # For Variational Inference, we compute the forward/backward algorithm
     # using subnormalized probabilities.
     def _fit_scaling(self, X):
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index c09dc8c..acc3cf9 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -152,10 +152,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 emissionprob_init = self.emissionprob_prior
             self.emissionprob_prior_ = np.full(
                 (self.n_components, self.n_features), emissionprob_init)
-            self.emissionprob_posterior_ = np.array([
+            self.emissionprob_posterior_ = self._floor_posterior(np.array([
                 random_state.dirichlet(alpha)
                 for alpha in self.emissionprob_prior_
-            ]) * sum(lengths) / self.n_components
+            ]) * sum(lengths) / self.n_components)
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 5f26aa0ec97ffba22dbb2843fb34aac6cba9833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 21/36] fix: set_params(n_iter=..., tol=..., verbose=...) also
 updates the monitor

---
 src/hmmlearn/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 83bd6f6..eb0bbe1 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -180,6 +180,14 @@ class _AbstractHMM(BaseEstimator):
         self.implementation = implementation
         self.random_state = random_state
 
+    def set_params(self, **params):
+        # Docstring inherited.
+        super().set_params(**params)
+        # The monitor has its own copy of these.
+        for name in {"tol", "n_iter", "verbose"} & {*params}:
+            setattr(self.monitor_, name, params[name])
+        return self
+
     def score_samples(self, X, lengths=None):
         """
         Compute the log probability under the model and compute posteriors.
-- 
2.43.0


From f84e880df3f2dd24f5bc9c10faaf8aa6d3d135fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 22/36] fix: GMMHMM does not overwrite its prior constructor
 parameters

---
 src/hmmlearn/_emissions.py |   2 +-
 src/hmmlearn/hmm.py        | 117 +++++++++++++++++--------------------
 2 files changed, 55 insertions(+), 64 deletions(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 6215f50..422d8f6 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -228,7 +228,7 @@ class BaseGMMHMM(BaseHMM):
         stats['post_sum'] = np.zeros(self.n_components)
 
         if 'm' in self.params:
-            lambdas, mus = self.means_weight, self.means_prior
+            _, mus, lambdas, _, _ = self._fix_priors_shape()
             stats['m_n'] = lambdas[:, :, None] * mus
         if 'c' in self.params:
             stats['c_n'] = np.zeros_like(self.covars_)
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index b3e6381..c5b7ca7 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -540,10 +540,6 @@ class GMMHMM(_emissions.BaseGMMHMM):
         def compute_cv():
             return np.cov(X.T) + self.min_covar * np.eye(nf)
 
-        # Default values for covariance prior parameters
-        self._init_covar_priors()
-        self._fix_priors_shape()
-
         main_kmeans = cluster.KMeans(n_clusters=nc,
                                      random_state=self.random_state,
                                      n_init=10)  # sklearn >=1.2 compat.
@@ -593,61 +589,54 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_[:] = cv.mean()
 
     def _init_covar_priors(self):
+        """Return the covariance priors, with defaults filled in."""
+        covars_prior = self.covars_prior
+        covars_weight = self.covars_weight
         if self.covariance_type == "full":
-            if self.covars_prior is None:
-                self.covars_prior = 0.0
-            if self.covars_weight is None:
-                self.covars_weight = -(1.0 + self.n_features + 1.0)
+            if covars_prior is None:
+                covars_prior = 0.0
+            if covars_weight is None:
+                covars_weight = -(1.0 + self.n_features + 1.0)
         elif self.covariance_type == "tied":
-            if self.covars_prior is None:
-                self.covars_prior = 0.0
-            if self.covars_weight is None:
-                self.covars_weight = -(self.n_mix + self.n_features + 1.0)
+            if covars_prior is None:
+                covars_prior = 0.0
+            if covars_weight is None:
+                covars_weight = -(self.n_mix + self.n_features + 1.0)
         elif self.covariance_type == "diag":
-            if self.covars_prior is None:
-                self.covars_prior = -1.5
-            if self.covars_weight is None:
-                self.covars_weight = 0.0
+            if covars_prior is None:
+                covars_prior = -1.5
+            if covars_weight is None:
+                covars_weight = 0.0
         elif self.covariance_type == "spherical":
-            if self.covars_prior is None:
-                self.covars_prior = -(self.n_features + 2.0) / 2.0
-            if self.covars_weight is None:
-                self.covars_weight = 0.0
+            if covars_prior is None:
+                covars_prior = -(self.n_features + 2.0) / 2.0
+            if covars_weight is None:
+                covars_weight = 0.0
+        return covars_prior, covars_weight
 
     def _fix_priors_shape(self):
+        """
+        Return the priors as arrays of proper shape.
+
+        The constructor parameters themselves, which may be numbers, are left
+        alone so that they survive cloning and changes of other parameters.
+        """
         nc = self.n_components
         nf = self.n_features
         nm = self.n_mix
 
-        # If priors are numbers, this function will make them into a
-        # matrix of proper shape
-        self.weights_prior = np.broadcast_to(
-            self.weights_prior, (nc, nm)).copy()
-        self.means_prior = np.broadcast_to(
-            self.means_prior, (nc, nm, nf)).copy()
-        self.means_weight = np.broadcast_to(
-            self.means_weight, (nc, nm)).copy()
-
-        if self.covariance_type == "full":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm, nf, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm)).copy()
-        elif self.covariance_type == "tied":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nf, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, nc).copy()
-        elif self.covariance_type == "diag":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm, nf)).copy()
-        elif self.covariance_type == "spherical":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm)).copy()
+        covars_prior, covars_weight = self._init_covar_priors()
+        covars_prior_shape, covars_weight_shape = {
+            "full": ((nc, nm, nf, nf), (nc, nm)),
+            "tied": ((nc, nf, nf), (nc,)),
+            "diag": ((nc, nm, nf), (nc, nm, nf)),
+            "spherical": ((nc, nm), (nc, nm)),
+        }[self.covariance_type]
+        return (np.broadcast_to(self.weights_prior, (nc, nm)),
+                np.broadcast_to(self.means_prior, (nc, nm, nf)),
+                np.broadcast_to(self.means_weight, (nc, nm)),
+                np.broadcast_to(covars_prior, covars_prior_shape),
+                np.broadcast_to(covars_weight, covars_weight_shape))
 
     def _check(self):
         super()._check()
@@ -657,14 +646,14 @@ class GMMHMM(_emissions.BaseGMMHMM):
         nf = self.n_features
         nm = self.n_mix
 
-        self._init_covar_priors()
-        self._fix_priors_shape()
-
         # Checking covariance type
         if self.covariance_type not in COVARIANCE_TYPES:
             raise ValueError(
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
+        # Checking priors' shapes
+        self._fix_priors_shape()
+
         self.weights_ = np.array(self.weights_)
         # Checking mixture weights' shape
         if self.weights_.shape != (nc, nm):
@@ -737,10 +726,12 @@ class GMMHMM(_emissions.BaseGMMHMM):
         super()._do_mstep(stats)
         nf = self.n_features
         nm = self.n_mix
+        (weights_prior, means_prior, means_weight,
+         covars_prior, covars_weight) = self._fix_priors_shape()
 
         # Maximizing weights
         if 'w' in self.params:
-            alphas_minus_one = self.weights_prior - 1
+            alphas_minus_one = weights_prior - 1
             w_n = stats['post_mix_sum'] + alphas_minus_one
             w_d = (stats['post_sum'] + alphas_minus_one.sum(axis=1))[:, None]
             self.weights_ = w_n / w_d
@@ -748,7 +739,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         # Maximizing means
         if 'm' in self.params:
             m_n = stats['m_n']
-            m_d = stats['post_mix_sum'] + self.means_weight
+            m_d = stats['post_mix_sum'] + means_weight
             # If a componenent has zero weight, then replace nan (0/0?) means
             # by 0 (0/1).  The actual value is irrelevant as the component will
             # be unused.  This needs to be done before maximizing covariances
@@ -759,7 +750,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
         # Maximizing covariances
         if 'c' in self.params:
-            lambdas, mus = self.means_weight, self.means_prior
+            lambdas, mus = means_weight, means_prior
             centered_means = self.means_ - mus
 
             def outer_f(x):  # Outer product over features.
@@ -768,8 +759,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
             if self.covariance_type == 'full':
                 centered_means_dots = outer_f(centered_means)
 
-                psis_t = np.transpose(self.covars_prior, axes=(0, 1, 3, 2))
-                nus = self.covars_weight
+                psis_t = np.transpose(covars_prior, axes=(0, 1, 3, 2))
+                nus = covars_weight
 
                 c_n = psis_t + lambdas[:, :, None, None] * centered_means_dots
                 c_n += stats['c_n']
@@ -778,8 +769,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 )[:, :, None, None]
 
             elif self.covariance_type == 'diag':
-                alphas = self.covars_prior
-                betas = self.covars_weight
+                alphas = covars_prior
+                betas = covars_weight
                 centered_means2 = centered_means ** 2
 
                 c_n = lambdas[:, :, None] * centered_means2 + 2 * betas
@@ -790,8 +781,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 centered_means_norm2 = np.einsum(  # Faster than (x**2).sum(-1)
                     '...i,...i', centered_means, centered_means)
 
-                alphas = self.covars_prior
-                betas = self.covars_weight
+                alphas = covars_prior
+                betas = covars_weight
 
                 c_n = lambdas * centered_means_norm2 + 2 * betas
                 c_n += stats['c_n']
@@ -800,8 +791,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
             elif self.covariance_type == 'tied':
                 centered_means_dots = outer_f(centered_means)
 
-                psis_t = np.transpose(self.covars_prior, axes=(0, 2, 1))
-                nus = self.covars_weight
+                psis_t = np.transpose(covars_prior, axes=(0, 2, 1))
+                nus = covars_weight
 
                 c_n = np.einsum('ij,ijkl->ikl',
                                 lambdas, centered_means_dots) + psis_t
-- 
2.43.0


From 4b0f655cf559bc8708f9fedcb6b70134cfcbbc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 23/36] fix: accept integer means_prior and means_weight in
 GMMHMM

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 422d8f6..5fee574 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -229,7 +229,7 @@ class BaseGMMHMM(BaseHMM):
 
         if 'm' in self.params:
             _, mus, lambdas, _, _ = self._fix_priors_shape()
-            stats['m_n'] = lambdas[:, :, None] * mus
+            stats['m_n'] = np.multiply(lambdas[:, :, None], mus, dtype=float)
         if 'c' in self.params:
             stats['c_n'] = np.zeros_like(self.covars_)
 
-- 
2.43.0


From 4c288f0a446a9b306b27efa656bed2945b6caac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 24/36] fix: spherical covars_ can be read after n_components
 changed

---
 src/hmmlearn/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index b2b327e..8462ad1 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -65,7 +65,8 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'spherical':
         # Covariances may also be passed in as (n_components, n_features), with
         # n_features copies of each variance; keep a single one per component.
-        covars = np.reshape(covars, (n_components, -1))[:, 0]
+        covars = np.atleast_1d(covars)
+        covars = covars.reshape(len(covars), -1)[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 56883de9cb5409fbba46c6c202ad749dadf2138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 25/36] fix: get_stationary_distribution accepts a transmat_
 given as nested lists

---
 src/hmmlearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index eb0bbe1..4475334 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -878,7 +878,7 @@ class BaseHMM(_AbstractHMM):
         # associated with the largest eigenvalue (i.e., 1) of the transition
         # matrix.
         check_is_fitted(self, "transmat_")
-        eigvals, eigvecs = linalg.eig(self.transmat_.T)
+        eigvals, eigvecs = linalg.eig(np.transpose(self.transmat_))
         eigvec = np.real_if_close(eigvecs[:, np.argmax(eigvals)])
         return eigvec / eigvec.sum()
 
-- 
2.43.0


From e04a0275e2c22dedb6fb31e1d94392a678780d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:20 +0000
Subject: [PATCH 26/36] fix: squares of small integer data overflowed in
 Gaussian training

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 5fee574..6705cb5 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -157,7 +157,7 @@ class BaseGaussianHMM(_AbstractHMM):
 
         if self._needs_sufficient_statistics_for_covars():
             if self.covariance_type in ('spherical', 'diag'):
-                stats['obs**2'] += posteriors.T @ X**2
+                stats['obs**2'] += posteriors.T @ np.square(X, dtype=float)
             elif self.covariance_type in ('tied', 'full'):
                 # posteriors: (nt, nc); obs: (nt, nf); obs: (nt, nf)
                 # -> (nc, nf, nf)
-- 
2.43.0


From 0d877d81d795a89b506b1a28d277d90695982ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:20 +0000
Subject: [PATCH 27/36] fix: number of categories overflowed for data of small
 integer types

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 6705cb5..8643557 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -65,7 +65,7 @@ class BaseCategoricalHMM(_AbstractHMM):
                     f"Largest symbol is {X.max()} but the model only emits "
                     f"symbols up to {self.n_features - 1}")
         else:
-            self.n_features = X.max() + 1
+            self.n_features = int(X.max()) + 1
 
     def _get_n_fit_scalars_per_param(self):
         nc = self.n_components
-- 
2.43.0


From 5e59e94416a8bcc7e1a6653571d82e6090d1ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 28/36] fix: reject a startprob_ that is not one-dimensional

---
 src/hmmlearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 4475334..612defb 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -978,7 +978,7 @@ class BaseHMM(_AbstractHMM):
             don't sum to 1.
         """
         self.startprob_ = np.asarray(self.startprob_)
-        if len(self.startprob_) != self.n_components:
+        if self.startprob_.shape != (self.n_components,):
             raise ValueError("startprob_ must have length n_components")
         self._check_sum_1("startprob_")
 
-- 
2.43.0


From d4390233ca61e069302d067cc954251e03e37665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 29/36] fix: reject boolean symbols when scoring categorical
 data

---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 8643557..44335d0 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -81,6 +81,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if not np.issubdtype(X.dtype, np.integer):
+            raise ValueError("Symbols should be integers")
         if X.min() < 0:
             raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
-- 
2.43.0


From decced9cb83d30dcf83f66995b47bde3d57ad855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 30/36] fix: reject multinomial emission probabilities that do
 not sum to one

---
 src/hmmlearn/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index c5b7ca7..aa22adb 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -925,6 +925,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
                 "emissionprob_ must have shape (n_components, n_features)")
         else:
             self.n_features = n_features
+        self._check_sum_1("emissionprob_")
         if self.n_trials is None:
             raise ValueError("n_trials must be set")
 
-- 
2.43.0


From fc6af21de2392b5c2a5f6f77bfd6761a8998d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 31/36] fix: reject Gaussian means and covariances of the wrong
 shape

---
 src/hmmlearn/hmm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index aa22adb..b63f890 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -331,6 +331,20 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
             raise ValueError(
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
+        nc = self.n_components
+        nf = self.n_features
+        if self.means_.shape != (nc, nf):
+            raise ValueError(
+                "means_ must have shape (n_components, n_features)")
+        # A variance can have any shape: only its first dimension is checked.
+        shape = np.shape(self._covars_)
+        if (shape[:1] != (nc,) if self.covariance_type == "spherical"
+                else shape != {"diag": (nc, nf),
+                               "tied": (nf, nf),
+                               "full": (nc, nf, nf)}[self.covariance_type]):
+            raise ValueError(
+                f"{self.covariance_type!r} covars_ have a wrong shape")
+
     def _needs_sufficient_statistics_for_mean(self):
         # Updating the covariances also requires the first moments.
         return 'm' in self.params or 'c' in self.params
-- 
2.43.0


From de609b0bd7978204bb9d43372ec91865d3bae285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 32/36] fix: reject empty likelihood arrays in the compiled
 recursions

---
 ext/_hmmc.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 3a4a1d3..cbe864b 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -54,7 +54,7 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
   auto transmat = transmat_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (startprob.shape(0) != nc
+  if (ns < 1 || nc < 1 || startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -112,7 +112,7 @@ std::tuple<double, py::array_t<double>> forward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1 || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -148,7 +148,7 @@ py::array_t<double> backward_scaling(
   auto frameprob = frameprob_.unchecked<2>();
   auto scaling = scaling_.unchecked<1>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (startprob.shape(0) != nc
+  if (ns < 1 || nc < 1 || startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || scaling.shape(0) != ns) {
     throw std::invalid_argument{"shape mismatch"};
@@ -182,7 +182,7 @@ py::array_t<double> backward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1 || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -249,7 +249,7 @@ py::array_t<double> compute_log_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (fwd.shape(0) != ns || fwd.shape(1) != nc
+  if (ns < 1 || nc < 1 || fwd.shape(0) != ns || fwd.shape(1) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -286,7 +286,7 @@ std::tuple<double, py::array_t<ssize_t>> viterbi(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1 || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
-- 
2.43.0


From 51530262110af0f6edbf3a5c0989f9c5c4112017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 33/36] fix: valid initial degrees of freedom of tied models
 for few samples

---
 src/hmmlearn/vhmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index acc3cf9..9d0d78d 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -517,7 +517,8 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                     self.dof_prior_ = self.n_features
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = cluster_counts.sum()
+                self.dof_posterior_ = max(cluster_counts.sum(),
+                                          self.n_features)
 
             # Covariance posterior comes from the estimate of the data
             # We store and update both W_k and scale_posterior_,
-- 
2.43.0


From 3b125703662c8201910a32af46c5d3c71465d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 34/36] fix: integer means_ and covars_ overflowed or could not
 be trained

---
 src/hmmlearn/hmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index b63f890..7717b49 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -299,7 +299,7 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
 
     @covars_.setter
     def covars_(self, covars):
-        covars = np.array(covars, copy=True)
+        covars = np.array(covars, dtype=float)
         _utils._validate_covars(covars, self.covariance_type,
                                 self.n_components)
         self._covars_ = covars
@@ -324,7 +324,7 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
     def _check(self):
         super()._check()
 
-        self.means_ = np.asarray(self.means_)
+        self.means_ = np.asarray(self.means_, dtype=float)
         self.n_features = self.means_.shape[1]
 
         if self.covariance_type not in COVARIANCE_TYPES:
@@ -679,14 +679,14 @@ class GMMHMM(_emissions.BaseGMMHMM):
         self._check_sum_1("weights_")
 
         # Checking means' shape
-        self.means_ = np.array(self.means_)
+        self.means_ = np.array(self.means_, dtype=float)
         if self.means_.shape != (nc, nm, nf):
             raise ValueError(
                 f"means_ must have shape (n_components, n_mix, n_features), "
                 f"actual shape: {self.means_.shape}")
 
         # Checking covariances' shape
-        self.covars_ = np.array(self.covars_)
+        self.covars_ = np.array(self.covars_, dtype=float)
         covars_shape = self.covars_.shape
         needed_shapes = {
             "spherical": (nc, nm),
-- 
2.43.0


From 3f8a7f5bd2fa952d78ea87acad5d918b678c8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 35/36] fix: log_multivariate_normal_density overflowed for
 small integer types and rejected lists

---
 src/hmmlearn/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/stats.py b/src/hmmlearn/stats.py
index ba5b679..8d4869f 100644
--- a/src/hmmlearn/stats.py
+++ b/src/hmmlearn/stats.py
@@ -39,6 +39,9 @@ def log_multivariate_normal_density(X, means, covars, covariance_type='diag'):
         'tied': _log_multivariate_normal_density_tied,
         'diag': _log_multivariate_normal_density_diag,
         'full': _log_multivariate_normal_density_full}
+    # Narrow integer types would overflow.
+    X, means, covars = (
+        np.asarray(a, dtype=float) for a in (X, means, covars))
     n_features = np.shape(means)[-1]
     if np.shape(X)[-1] != n_features:
         raise ValueError(f"Unexpected number of dimensions, got "
-- 
2.43.0


From 976cc90f808846ef58e97052d10c8561995941c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 36/36] fix: VariationalGaussianHMM failed for fewer distinct
 samples than components

---
 src/hmmlearn/vhmm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 9d0d78d..a701dc4 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -476,7 +476,8 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 random_state=self.random_state,
                                 n_init=10)  # sklearn >=1.2 compat.
         kmeans.fit(X)
-        cluster_counts = np.bincount(kmeans.predict(X))
+        cluster_counts = np.bincount(
+            kmeans.predict(X), minlength=self.n_components)
 
         if (self._needs_init("m", "means_prior_")
                 or self._needs_init("m", "means_posterior_")
@@ -495,8 +496,9 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             else:
                 self.beta_prior_ = self.beta_prior
 
-            # Count of items in each cluster
-            self.beta_posterior_ = np.copy(cluster_counts)
+            # Count of items in each cluster; clusters are empty if there are
+            # fewer distinct samples than components.
+            self.beta_posterior_ = np.maximum(cluster_counts, 1)
 
         if (self._needs_init("c", "dof_prior_")
                 or self._needs_init("c", "dof_posterior_")
-- 
2.43.0

