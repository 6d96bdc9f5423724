From 9ba1f27e728e0097e4ce0e4f80dfc6dcd2d18c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 01/66] fix: Qn could search forever on rounded data

The counts of differences below the trial value were calculated as
y[j] > y[i] - trial, which rounds differently from the differences the
trial value is selected from; on tied data the search then never ends.
---
 robpy/univariate/qn.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..65beec9 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -60,8 +60,8 @@ class Qn(RobustScale):
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
             trial = weighted_median(work, weight)
-            P = np.searchsorted(-np.flip(y), trial - y, "left", np.arange(n))
-            Q = np.searchsorted(-np.flip(y), trial - y, "right", np.arange(n)) + 1
+            P = _count_differences(y, trial, np.less)
+            Q = _count_differences(y, trial, np.less_equal) + 1
             if knew <= np.sum(P):
                 right = P
                 nR = np.sum(P)
@@ -91,6 +91,27 @@ class Qn(RobustScale):
         self.location_ = self.location_func(X)
 
 
+def _count_differences(y: np.ndarray, trial: float, compare: np.ufunc) -> np.ndarray:
+    """
+    Counts for every y[i] the number of y[j] for which compare(y[i] - y[j], trial) holds. The
+    differences are calculated exactly as those from which trial is selected: comparing y[j] with
+    y[i] - trial instead can, due to rounding, contradict them and keep the search from ending.
+
+    Args:
+        y (np.ndarray): Sorted univariate data.
+        trial (float): The value to compare the differences with.
+        compare (np.ufunc): Either np.less or np.less_equal.
+    """
+    n = len(y)
+    low, high = np.zeros(n, dtype=int), np.full(n, n)
+    while np.any(low < high):
+        middle = (low + high) // 2
+        # the differences y[i] - y[n - 1], ..., y[i] - y[0] are in increasing order
+        below = (low < high) & compare(y - y[np.maximum(n - 1 - middle, 0)], trial)
+        low, high = np.where(below, middle + 1, low), np.where(below, high, middle)
+    return low
+
+
 def _get_small_sample_dn(n: int):
     """
     Calculates the correction factor for the Qn estimator at small samples.
-- 
2.43.0


From d746692bd3fb0c3b6468cbf3bc7a5703d20a3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 02/66] fix: UnivariateMCD and OneStepWrapping returned NaN
 when h observations coincide

---
 robpy/univariate/mcd.py       | 2 ++
 robpy/univariate/onestep_m.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/robpy/univariate/mcd.py b/robpy/univariate/mcd.py
index 11a439b..e8a00dc 100644
--- a/robpy/univariate/mcd.py
+++ b/robpy/univariate/mcd.py
@@ -63,6 +63,8 @@ class UnivariateMCD(RobustScale):
         return raw_var, raw_loc
 
     def _reweighting(self, X: np.ndarray):
+        if self.raw_variance_ == 0:  # at least h observations coincide
+            return self.raw_variance_, self.raw_location_
         distances = (X - self.raw_location_) ** 2 / self.raw_variance_
         mask = distances < chi2.ppf(0.975, df=1)
         loc = np.mean(X[mask])
diff --git a/robpy/univariate/onestep_m.py b/robpy/univariate/onestep_m.py
index 24f46f9..251ba3e 100644
--- a/robpy/univariate/onestep_m.py
+++ b/robpy/univariate/onestep_m.py
@@ -111,6 +111,9 @@ class OneStepWrapping(RobustScale):
 
         # initial estimates: univariate MCD
         initial_estimates = UnivariateMCD().fit(X)
+        if initial_estimates.scale == 0:  # the majority of the observations coincide
+            self.location_, self.scale_ = initial_estimates.location, initial_estimates.scale
+            return
 
         # one step M estimator for location using hyperbolic tangent weight function:
         X_standardized = (X - initial_estimates.location) / initial_estimates.scale
-- 
2.43.0


From c430052f91d7beeffce1ebd22da9935b29b64a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 03/66] fix: Tau returned NaN when the MAD of the data is zero

---
 robpy/univariate/tau.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/univariate/tau.py b/robpy/univariate/tau.py
index ca73465..cb84b1d 100644
--- a/robpy/univariate/tau.py
+++ b/robpy/univariate/tau.py
@@ -41,6 +41,9 @@ class Tau(RobustScale):
         """
         n = len(X)
         sigma0 = median_abs_deviation(X)
+        if sigma0 == 0:  # the majority of the observations coincide
+            self.location_, self.scale_ = np.median(X), 0.0
+            return
         weights = self._weight_function((X - np.median(X)) / sigma0)
         self.location_ = np.sum(X * weights) / np.sum(weights)
         self.scale_ = sigma0 * np.sqrt(
-- 
2.43.0


From 27bf91feedac2eae15b2105f173ace3e2131855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 04/66] fix: FastMCD and DetMCD stopped after one C-step
 instead of at convergence

C-steps decrease the determinant, so new - old was always below the tolerance.
---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..23460b0 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -129,7 +129,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -340,7 +340,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From 8089e7dcab05b8988a0ae13847fd8eaf0b8467a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 05/66] fix: FastMCD with an integer alpha failed when the data
 is partitioned

---
 robpy/covariance/mcd.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 23460b0..e9d7d31 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -102,6 +102,7 @@ class FastMCD(RobustCovariance):
             self.location_ = X.mean(0)
             return np.cov(X, rowvar=False)
         self.rng = np.random.default_rng(self.random_seed)
+        self._n_observations = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
         self.logger.info(f"Partitioned data into {len(partitions)} partitions")
@@ -195,25 +196,29 @@ class FastMCD(RobustCovariance):
 
     def _get_h(self, X: np.ndarray) -> int:
         n, p = X.shape
-        if self.alpha is None:
+        alpha = self.alpha
+        if isinstance(alpha, int) and alpha != 1 and n < self._n_observations:
+            # X is one of the partitions: use the same proportion as in the complete data
+            alpha = alpha / self._n_observations
+        if alpha is None:
             return int((n + p + 1) / 2)
-        elif isinstance(self.alpha, int) and (n / 2 <= self.alpha <= n):
-            if self.alpha < int((n + p + 1) / 2):
+        elif isinstance(alpha, int) and (n / 2 <= alpha <= n):
+            if alpha < int((n + p + 1) / 2):
                 warnings.warn(
                     f"h is too small and therefore set to [(n+p+1)/2] ({int((n + p + 1) / 2)}).",
                     category=UserWarning,
                     stacklevel=2,
                 )
-            return np.max([self.alpha, int((n + p + 1) / 2)])
-        elif (isinstance(self.alpha, float) and (0.5 <= self.alpha <= 1)) or self.alpha == 1:
-            if int(self.alpha * n) < int((n + p + 1) / 2):
+            return np.max([alpha, int((n + p + 1) / 2)])
+        elif (isinstance(alpha, float) and (0.5 <= alpha <= 1)) or alpha == 1:
+            if int(alpha * n) < int((n + p + 1) / 2):
                 warnings.warn(
                     f"h = alpha*n is too small and therefore set to [(n+p+1)/2]"
                     f" ({int((n + p + 1) / 2)}).",
                     category=UserWarning,
                     stacklevel=2,
                 )
-            return np.max([int(self.alpha * n), int((n + p + 1) / 2)])
+            return np.max([int(alpha * n), int((n + p + 1) / 2)])
         else:
             raise ValueError(
                 f"alpha must be an integer between n/2 and n or"
-- 
2.43.0


From 949b98e99833bd3bbfc71e4803f012776fb30c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 06/66] fix: DetMCD failed when an observation coincides with
 the coordinatewise median

---
 robpy/covariance/mcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index e9d7d31..35245d8 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -404,7 +404,7 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        w = np.divide(1, znorm, out=np.zeros_like(znorm), where=znorm > 0)
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From ba02b7dd19705dc1b40b191ad1e71a9b8804e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 07/66] fix: l1median never ended when an iterate hits an
 observation or for data far from 0

An iterate that coincides with an observation gave weight 1/0 and NaN forever;
the absolute tolerance is below the rounding error of data with a large offset
(and above the spread of data on a small scale).
---
 robpy/utils/median.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..646e8d1 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -11,15 +11,26 @@ def l1median(X: np.ndarray) -> float:
     References:
         - Fritz, H., Filzmoser, P., & Croux, C. (2012). A comparison of algorithms for the
           multivariate L1-median. Computational Statistics, 27, 393-410.
+        - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
+          Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
     epsilon = 1e-7
     mu_0 = np.mean(X, axis=0)
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
-        mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
-        if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
+        distinct = d > 0
+        if not distinct.any():
+            return mu_0
+        W = 1 / d[distinct]
+        R = np.sum(centered_X[distinct] * W[:, np.newaxis], axis=0)
+        # observations that coincide with mu_0 hold it back (Vardi & Zhang, 2000)
+        n_coinciding = len(X) - len(W)
+        r = np.sqrt(np.sum(R * R))
+        if r <= n_coinciding:
+            return mu_0
+        mu_1 = mu_0 + (1 - n_coinciding / r) * R / np.sum(W)
+        if np.all(mu_0 == mu_1) or np.sum(np.abs(mu_0 - mu_1)) < epsilon * np.median(d):
             return mu_1
         else:
             mu_0 = mu_1
-- 
2.43.0


From 60729b25846019be63d4b82d958eeab104ef1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 08/66] fix: PCALocantore failed when an observation coincides
 with the center

---
 robpy/pca/spca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..7496dda 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = np.divide(1, d, out=np.zeros_like(d), where=d > 0)
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
-- 
2.43.0


From 205f4fa4829d609e5348a4186601ec2f47dfca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 09/66] fix: stahel_donoho with a random seed used the same
 direction n_dir times

---
 robpy/utils/outlyingness.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..fdac4cb 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -33,9 +33,10 @@ def stahel_donoho(
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
     # step 1: get random directions
+    rng = np.random.default_rng(random_seed)
     D = np.hstack(
         [
-            _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
+            _get_random_direction(X, n_points=n_points, random_seed=rng).reshape(-1, 1)
             for _ in range(n_dir)
         ]
     )  # (n_features, n_dir)
@@ -54,14 +55,15 @@ def stahel_donoho(
 def _get_random_direction(
     X: np.ndarray,
     n_points: int = 2,
-    random_seed: int | None = None,
+    random_seed: int | np.random.Generator | None = None,
 ) -> np.ndarray:
     """Get direction orthogonal to the hyperplane spanned by random points in X.
 
     Args:
         X (np.ndarray): data matrix (n x p).
         n_points (int, optional): number of points to determine the hyperplane. Defaults to 2.
-        random_seed (int | None, optional): can be used to provide a random seed. Defaults to None.
+        random_seed (int | np.random.Generator | None, optional): can be used to provide a random
+            seed or generator. Defaults to None.
 
     Returns:
         np.ndarray: vector of shape (p, ) indicating the direction.
-- 
2.43.0


From 817c6b3977a2d33a7336c465f04e6a1b368aef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 10/66] fix: stahel_donoho returned NaN for all observations
 when some of them coincide

---
 robpy/utils/outlyingness.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index fdac4cb..4a9e8d9 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -45,11 +45,13 @@ def stahel_donoho(
 
     # step 3: outlyingness
     # to do: let scale and loc estimators be passed as arguments
-    return np.max(
-        np.abs(projections - np.median(projections, axis=0))
-        / median_abs_deviation(projections, axis=0),
-        axis=1,
-    )
+    deviations = np.abs(projections - np.median(projections, axis=0))
+    scales = np.broadcast_to(median_abs_deviation(projections, axis=0), deviations.shape)
+    with np.errstate(divide="ignore"):  # directions without scale: infinite unless at the median
+        return np.max(
+            np.divide(deviations, scales, out=np.zeros_like(deviations), where=deviations > 0),
+            axis=1,
+        )
 
 
 def _get_random_direction(
@@ -80,4 +82,5 @@ def _get_random_direction(
         # U of SVD gives orthogonal basis, last vector is perpendicular to hyperplane
         d = np.linalg.svd(vectors)[-1][-1]
 
-    return d / np.linalg.norm(d)
+    norm = np.linalg.norm(d)
+    return d / norm if norm > 0 else d  # the points can coincide
-- 
2.43.0


From 04d401aa5f87cc8063bd1cd90bdd7c823d9612d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 11/66] fix: ROBPCA with a random seed gave different results
 from run to run

The final MCD step was not seeded.
---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From 8bead3733f0ec693fc770b3461753d83c2df370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 12/66] fix: ROBPCA used the classical mean as center and
 variances of other directions

The center was the mean of all observations, so one outlier could move it
arbitrarily far; explained_variance_ held the variances of the h-subset in its
own directions, more of them than components_ when the rank reduces k. Both now
follow the reference: the center and the eigenvalues of the step that determines
the components.
---
 robpy/pca/robpca.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..88b9485 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -55,7 +55,6 @@ class ROBPCA(RobustPCA):
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
-        self.location_ = np.mean(X, axis=0)
         loadings = pca.components_.T
         # step 2: stahel donoho outlyingness --> h subset
         outlyingness = stahel_donoho(X, random_seed=self.random_seed)
@@ -82,6 +81,7 @@ class ROBPCA(RobustPCA):
             h = np.max([int(self.alpha * X.shape[0]), int((X.shape[0] + 10 + 1) / 2)])
 
         h_index = np.argsort(outlyingness)[:h]
+        self.location_ = np.mean(X[h_index], axis=0)
         h_cov = np.cov(X[h_index], rowvar=False)
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
@@ -91,27 +91,29 @@ class ROBPCA(RobustPCA):
             k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
         else:
             k = self.n_components
-        self.explained_variance_ = eigvals_h[sorted_eig_h_idx[:k]]
-        self.explained_variance_ratio = self.explained_variance_[:k].cumsum() / eigvals_h.sum()
         h_components = eigvecs_h[:, sorted_eig_h_idx[:k]]  # (p, k)
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
         v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
+        self.explained_variance_ = eigvals_v[sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
-            _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
+            eigvals_mcd, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
+            self.location_ = self.location_ + self.components_ @ mcd.location_
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
+            self.explained_variance_ = np.flip(eigvals_mcd[-k:])
         # step 6: transform back to original X
         self.n_components = k
-        X = pca.inverse_transform(X)
+        self.explained_variance_ratio = var_explained_ratio[:k]
         self.components_ = loadings @ self.components_
-        self.location_ = np.mean(X, axis=0)
+        self.location_ = pca.inverse_transform(self.location_.reshape(1, -1)).flatten()
         return self
-- 
2.43.0


From d0715365324dbaf2e51b5f1cd47cbd1600d82baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 13/66] fix: ROBPCA with as many components as variables
 selected observations by rounding errors

All orthogonal distances are 0 up to rounding then: outliers were not excluded,
and when they are exactly 0 no observation was left.
---
 robpy/pca/robpca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 88b9485..5a36008 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -95,7 +95,10 @@ class ROBPCA(RobustPCA):
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
-        v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        if k < X.shape[1]:
+            v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        else:  # no orthogonal complement, so orth_dist holds rounding errors only
+            v_index = h_index
         self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
-- 
2.43.0


From 15ff4fb103c4c807a301d779528649066336042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 14/66] fix: MMRegression did not weight the intercept

The features and the target were multiplied by the square root of the weights,
but not the column of ones of the intercept.
---
 robpy/regression/mm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..61a034a 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -52,9 +52,7 @@ class MMRegression(RobustRegression):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
-            )
+            self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From fbf4e496b3d29b2a9a73ba9c9b4ef0e83cbdba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 15/66] fix: MMRegression failed when an observation is fitted
 exactly

---
 robpy/regression/mm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 61a034a..c2a68d8 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -51,6 +51,7 @@ class MMRegression(RobustRegression):
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
+            scaled_residuals[scaled_residuals == 0] = np.finfo(float).eps  # avoid divide by 0
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
-- 
2.43.0


From 5ff3a228fd19cc90af895be4a58e8a9ca3550cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 16/66] fix: the M-scale equation of SRegression had no
 solution by default

The bisquare rho is not normalized: its maximum is c^2 / 6 = 0.399 for c = 1.547,
so its mean cannot be 0.5 and the scale was not consistent (0.46 sigma).
---
 robpy/regression/s.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f06d0b5..8461ace 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -17,7 +17,7 @@ class SRegression(RobustRegression):
         n_initial_i_steps: int = 2,
         n_best_subsets: int = 5,
         max_scale_iterations: int = 2,
-        b: float = 0.5,
+        b: float = 0.1995,
         fit_intercept: bool = True,
         relative_tolerance: float = 1e-7,
         scale_tolerance: float = 1e-10,
@@ -45,7 +45,8 @@ class SRegression(RobustRegression):
                 Number of iterative steps to derive M-scale estimates (`r` in the original paper).
                 Defaults to 2.
             b (float, optional):
-                constant on the RHS of the M scale equation. Defaults to 0.5.
+                constant on the RHS of the M scale equation. Defaults to 0.1995, which is half
+                of the maximum and the expectation at the normal model of the default rho.
             fit_intercept (bool, optional):
                 Whether an intercept should be included in the linear regression. Defaults to True.
             relative_tolerance (float, optional):
-- 
2.43.0


From 53e9440caf7017937d28fbafae22d5a8ddcc2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 17/66] fix: SRegression failed when the first i-step until
 convergence fails

---
 robpy/regression/s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 8461ace..bab16c1 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -109,7 +109,7 @@ class SRegression(RobustRegression):
                         f"Starting scale was: {previous_s}. Failed iteration = {n_iter}."
                         f"Storing model after last successfull i-step."
                     )
-                    m.n_iter = n_iter
+                    previous_m.n_iter = n_iter
                     best_models.append(previous_m)
                     best_scales.append(previous_s)
                     break
-- 
2.43.0


From 82155604146ee8fcbe4e11dfa44782ceb1a7301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 18/66] fix: fitting FastLTSRegression or SRegression reseeded
 the global random state

---
 robpy/regression/lts.py | 4 +---
 robpy/regression/s.py   | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index fcb2ce7..4fe9f22 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -169,7 +169,6 @@ class FastLTSRegression(RobustRegression):
         Returns:
             List of models, List of losses and List of h subsets.
         """
-        np.random.seed(self.random_state)
         lr_models = []
         losses = []
         h_subsets = []
@@ -214,8 +213,7 @@ class FastLTSRegression(RobustRegression):
             LinearRegression: A Linear Regression model fitted on a random subset.
         """
         n_obs, n_features = X.shape  # n, p
-        np.random.seed(random_state)
-        subset_idx = np.random.choice(n_obs, n_features + 1, replace=False)
+        subset_idx = np.random.RandomState(random_state).choice(n_obs, n_features + 1, replace=False)
         lr_model = LinearRegression().fit(X[subset_idx], y[subset_idx])
         return lr_model
 
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index bab16c1..1a2b5f8 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -168,8 +168,7 @@ class SRegression(RobustRegression):
         models = []
         scales = []
         for seed in range(self.random_state, self.random_state + self.n_initial_subsets):
-            np.random.seed(seed)
-            sample_idx = np.random.choice(X.shape[0], X.shape[1] + 1, replace=False)
+            sample_idx = np.random.RandomState(seed).choice(X.shape[0], X.shape[1] + 1, replace=False)
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
             scale = np.median(np.abs(residuals)) / 0.6745
-- 
2.43.0


From a2ab783862764bbf6acd70d90e47374e1ce1247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 19/66] fix: outlier_map of the regression estimators failed
 for pandas input

---
 robpy/regression/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index c3dec59..0fefba8 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -80,6 +80,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
               points. Journal of the American Statistical Association,  85(411), 633–651.
         """
 
+        X, y = _convert_input_to_array(X, y)
         residuals = y.reshape(-1, 1) - self.predict(X).reshape(-1, 1)
         standardized_residuals = (
             residuals
-- 
2.43.0


From 9747ff7c2790c84b02831b4e2e103cbc7f761236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 20/66] fix: SRegression and MMRegression subtracted a column y
 from all predictions

A target of shape (n, 1) minus predictions of shape (n,) gave n x n residuals.
---
 robpy/regression/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index 0fefba8..c67866c 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -130,5 +130,7 @@ def _convert_input_to_array(X, y=None) -> tuple[np.ndarray, np.ndarray | None]:
         X = X.reshape(-1, 1)
     if isinstance(y, pd.Series):
         y = y.values
+    if y is not None:
+        y = y.reshape(-1)
 
     return X, y
-- 
2.43.0


From c553ca31824e35081a510230e56ef3d91103fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 21/66] fix: reweighting in FastLTSRegression was not robust

Observations were kept if their residual is small relative to the standard
deviation of all residuals, which outliers inflate: from about 25% outliers on
they were all kept. Use the scale of the h-subset, made consistent. Also fixes
the failure on an exact fit, where the standard deviation is 0.
---
 robpy/regression/lts.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index 4fe9f22..cf1081a 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -137,7 +137,10 @@ class FastLTSRegression(RobustRegression):
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            mask = (np.abs(residuals / np.std(residuals)) <= norm.ppf(0.9875)).flatten()
+            raw_scale = self._scale * get_consistency_factor(h / X.shape[0])
+            # in case of an exact fit the residuals are rounding errors
+            cutoff = max(norm.ppf(0.9875) * raw_scale, 1e-12 * np.median(np.abs(y)))
+            mask = (np.abs(residuals) <= cutoff).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
             best_loss = self._get_loss_value(X, y, new_subset, self.model)
@@ -314,6 +317,23 @@ class FastLTSRegression(RobustRegression):
         return h_subset_idx, lr_model
 
 
+def get_consistency_factor(h_fraction: float) -> float:
+    """
+    Calculate the factor that makes the root mean square of the smallest residuals (in absolute
+    value) a consistent estimate of the scale of normal errors.
+
+    Args:
+        h_fraction (float): The fraction of the residuals that is used.
+
+    References:
+     - https://github.com/cran/robustbase/blob/c4b9d21cfc4beb64653bb2ffba9e549e2dbb98ed/R/ltsReg.R
+    """
+    if h_fraction >= 1:
+        return 1.0
+    q = norm.ppf((h_fraction + 1) / 2)
+    return 1 / np.sqrt(1 - 2 * q * norm.pdf(q) / h_fraction)
+
+
 def get_correction_factor(p: int, n: int, alpha: float) -> float:
     """
     Calculate the small sample correction factor for the scale resulting from LTS regression when
-- 
2.43.0


From c69e68709990aa88a2b7d81b2520f05829e7793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 22/66] fix: the scale of FastLTSRegression without reweighting
 was not consistent

The root mean square of the h smallest residuals needs the consistency factor of
the truncated normal distribution as well (it is 0.38 sigma for alpha = 0.5).
---
 robpy/regression/lts.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index cf1081a..e5fa3a4 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -132,14 +132,16 @@ class FastLTSRegression(RobustRegression):
                 best_h_subset = current_h_subset
         self.model = best_model
         self.best_h_subset = best_h_subset
-        self._scale = get_correction_factor(p=X.shape[1], n=X.shape[0], alpha=self.alpha) * np.sqrt(
-            best_loss
+        self._scale = (
+            get_correction_factor(p=X.shape[1], n=X.shape[0], alpha=self.alpha)
+            * get_consistency_factor(h / X.shape[0])
+            * np.sqrt(best_loss)
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            raw_scale = self._scale * get_consistency_factor(h / X.shape[0])
-            # in case of an exact fit the residuals are rounding errors
-            cutoff = max(norm.ppf(0.9875) * raw_scale, 1e-12 * np.median(np.abs(y)))
+            # the small sample correction is negative if n < 2p, and in case of an exact fit the
+            # residuals are rounding errors
+            cutoff = max(norm.ppf(0.9875) * abs(self._scale), 1e-12 * np.median(np.abs(y)))
             mask = (np.abs(residuals) <= cutoff).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
-- 
2.43.0


From 7506ce75b9fc4857260a9697514a6ba2c2c58fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 23/66] fix: MMRegression failed when the initial scale is 0

---
 robpy/regression/mm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index c2a68d8..f26d1cf 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -48,6 +48,8 @@ class MMRegression(RobustRegression):
         self.model = self.initial_estimator.fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
+        if self._scale == 0:  # the initial estimator fits the majority exactly
+            return self
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
-- 
2.43.0


From 8e60984c3a099927915c2106cbcb4f29e3d8f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 24/66] fix: DDC raised AttributeError instead of ValueError
 when it is not fitted yet

---
 robpy/outliers/ddc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..fb3abe0 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -55,6 +55,7 @@ class DDC(OutlierMixin):
         self.cutoff = np.sqrt(chi2.ppf(chi2_quantile, df=1))
         self.min_correlation = min_correlation
         self.scale_estimator = scale_estimator
+        self.is_fitted_ = False
 
     def fit(self, X: pd.DataFrame, y=None, verbose: bool = False):
         self._check_data_conditions(X)
-- 
2.43.0


From bd997bc59d0f21ba870d3f9471fdb8766237eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 25/66] fix: the predictions of DDC ignored min_correlation

Columns were weighted if their correlation is at least 0.5, whatever
min_correlation is, while the slopes do depend on it.
---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index fb3abe0..966d239 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -396,7 +396,7 @@ class DDC(OutlierMixin):
             weights = np.repeat(
                 [
                     [
-                        np.abs(r) * (np.abs(r) >= 0.5) * (idx != i)
+                        np.abs(r) * (np.abs(r) >= self.min_correlation) * (idx != i)
                         for idx, r in enumerate(self.robust_correlation_[:, i])
                     ]
                 ],
-- 
2.43.0


From 08f6d3634757156f6fb90e4c24296b8090105cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 26/66] fix: DDC flagged nearly all cells of columns that are
 predicted exactly

The scale of the residuals is 0 then, so every rounding error was an outlier.
---
 robpy/outliers/ddc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 966d239..14f6a99 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -161,9 +161,12 @@ class DDC(OutlierMixin):
         if fit:
             self.residual_scales = np.array(
                 [
-                    CellwiseOneStepM()
-                    .fit(raw_residuals[:, i][~np.isnan(raw_residuals[:, i])])
-                    .scale
+                    max(
+                        CellwiseOneStepM()
+                        .fit(raw_residuals[:, i][~np.isnan(raw_residuals[:, i])])
+                        .scale,
+                        1e-12,  # residuals of exact predictions are rounding errors
+                    )
                     for i in range(raw_residuals.shape[1])
                 ]
             )
-- 
2.43.0


From 251f1c97802757c0a3c33a36e8e727328f906dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 27/66] fix: DDC failed when a row has missing values only

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 14f6a99..2fb596f 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -189,7 +189,7 @@ class DDC(OutlierMixin):
         """
         raw_t_values_ = np.nanmean(chi2.cdf(standardized_residuals**2, df=1), axis=1)
         if fit:
-            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_)
+            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_, ignore_nan=True)
         standardized_t_values_ = (
             raw_t_values_ - self.t_scale_est.location
         ) / self.t_scale_est.scale
-- 
2.43.0


From f78251a4585e0fa8e21039c15e8ec54a90681b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 28/66] fix: instances of RobustScaler, DDC and MMRegression
 fitted one shared estimator

The default estimator is created once, in the signature, so fitting an instance
changed the estimator of all others (and instances in several threads mixed up
each other's results).
---
 robpy/outliers/ddc.py          | 5 ++++-
 robpy/preprocessing/scaling.py | 5 ++++-
 robpy/regression/mm.py         | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 2fb596f..895e5f5 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 import seaborn as sns
@@ -315,8 +317,9 @@ class DDC(OutlierMixin):
 
     def _fit_scaler(self, X: pd.DataFrame):
         self.location_, self.scale_ = [], []
+        scale_estimator = deepcopy(self.scale_estimator)  # can be shared with other instances
         for i in range(X.shape[1]):
-            est = self.scale_estimator.fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
+            est = scale_estimator.fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
             self.location_.append(est.location)
             self.scale_.append(est.scale)
 
diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 68f99d0..2ff2979 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 from sklearn.base import (
@@ -39,8 +41,9 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.locations_ = np.zeros(X.shape[1])
         self.scales_ = np.ones(X.shape[1])
 
+        scale_estimator = deepcopy(self.scale_estimator)  # can be shared with other instances
         for feature_idx in range(X.shape[1]):
-            fitted_estimator = self.scale_estimator.fit(X[:, feature_idx], ignore_nan)
+            fitted_estimator = scale_estimator.fit(X[:, feature_idx], ignore_nan)
             if self.with_centering:
                 self.locations_[feature_idx] = fitted_estimator.location
             if self.with_scaling:
diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index f26d1cf..2827fbc 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 
@@ -45,7 +47,8 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
-        self.model = self.initial_estimator.fit(X, y)
+        # the initial estimator can be shared with other instances
+        self.model = deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
         if self._scale == 0:  # the initial estimator fits the majority exactly
-- 
2.43.0


From 82bb820eb5b72361d266c009defed3cfb687a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 29/66] fix: CellMCD gave rows without clean cells the diagonal
 of the precision as variances

Given nothing, the conditional variance of a cell is its variance.
---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..8d74bed 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -624,12 +624,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From 1b9fe233f5c258cfb47be5a78306b7079c6e8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 30/66] fix: CellMCD truncated the imputed values of integer
 data to integers

---
 robpy/covariance/cellmcd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 8d74bed..886d8e9 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -118,8 +118,7 @@ class CellMCD(RobustCovariance):
         location = scaler.locations_ + location * scaler.scales_
         predictions = scaler.locations_ + predictions * scaler.scales_
         conditional_stds = np.sqrt(conditional_variances) * scaler.scales_
-        X_imputed = X.copy()
-        X_imputed[W == 0] = predictions[W == 0]
+        X_imputed = np.where(W == 0, predictions, X)
         residuals = (X - predictions) / conditional_stds
         scaler_residuals = RobustScaler(scale_estimator=OneStepWrapping())
         scaler_residuals.fit(residuals, ignore_nan=True)
-- 
2.43.0


From c2c493fbbd8f16bf0d17a92cd652786f114eb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 31/66] fix: CellMCD returned the W of a rejected C-step

W was updated in place, so when the objective increases the previous location
and covariance were returned together with the W that increased it.
---
 robpy/covariance/cellmcd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 886d8e9..e0da7ff 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -449,6 +449,7 @@ class CellMCD(RobustCovariance):
         This is done per column."""
 
         n = W.shape[0]
+        W = W.copy()
         ordering = np.argsort(np.sum(W, axis=0), kind="stable")
         for j in ordering:
             delta = self._calculate_delta(X, W, sigma, sigma_inv, mu, j)
-- 
2.43.0


From eaf375f56c7c1dc77cb02e4bc543f933c99d7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 32/66] fix: CellMCD changed its alpha parameter when fitted on
 few observations

A later fit on more observations then used the increased alpha.
---
 robpy/covariance/cellmcd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index e0da7ff..93c80f8 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self._alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -97,7 +97,7 @@ class CellMCD(RobustCovariance):
         self._check_data(X_scaled)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=self._alpha, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -351,7 +351,7 @@ class CellMCD(RobustCovariance):
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(self._alpha * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -644,17 +644,17 @@ class CellMCD(RobustCovariance):
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - self._alpha:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - self._alpha)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - self._alpha:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - self._alpha)}% of nan's or "
                 "marginal outliers."
             )
 
-- 
2.43.0


From 89479346d26fb8f5af8448e3237e63b378c09a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 33/66] fix: DataCleaner.transform depended on the data that
 was transformed before

The rows and columns with missings of the previous data were dropped before
checking the new data (or raised a KeyError), and clean_na_first='automatic'
was decided once, by the first data.
---
 robpy/preprocessing/data_cleaner.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..56d0742 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -167,16 +167,18 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols_and_rows(self, X: pd.DataFrame):
         """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        self.cols_missings, self.rows_missings = [], []  # forget those of previous data
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
+        if clean_na_first == "columns":
             self._set_missing_cols(X)
             self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
+        elif clean_na_first == "rows":
             self._set_missing_rows(X)
             self._set_missing_cols(X)
         else:
@@ -203,12 +205,10 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols(self, X: pd.DataFrame):
         """Remove columns with too many missings"""
-        if hasattr(self, "rows_missings"):
-            X = X.drop(index=self.rows_missings)
+        X = X.drop(index=self.rows_missings)
         self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
     def _set_missing_rows(self, X: pd.DataFrame):
         """Remove rows with too many missings"""
-        if hasattr(self, "cols_missings"):
-            X = X.drop(columns=self.cols_missings)
+        X = X.drop(columns=self.cols_missings)
         self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
-- 
2.43.0


From 3c55ea36deba22714b72c0409a629f39d307a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 34/66] fix: DataCleaner dropped all rows that share the index
 label of a row with missings

---
 robpy/preprocessing/data_cleaner.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 56d0742..0bc3572 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -97,7 +97,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             ),
         )
 
-        X = X.drop(index=self.rows_missings)
+        X = X[~self._missing_rows]
 
         self.logger.info(f"The final data has {X.shape[0]} rows and {X.shape[1]} columns.")
 
@@ -171,6 +171,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         if clean_na_first == "automatic":
             clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
         self.cols_missings, self.rows_missings = [], []  # forget those of previous data
+        self._missing_rows = np.zeros(len(X), dtype=bool)
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
@@ -205,10 +206,12 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols(self, X: pd.DataFrame):
         """Remove columns with too many missings"""
-        X = X.drop(index=self.rows_missings)
+        X = X[~self._missing_rows]
         self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
     def _set_missing_rows(self, X: pd.DataFrame):
         """Remove rows with too many missings"""
         X = X.drop(columns=self.cols_missings)
-        self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
+        # by position, as index labels are not necessarily unique
+        self._missing_rows = (X.isna().mean(axis=1) >= self.max_missing_frac_rows).to_numpy()
+        self.rows_missings = X.index[self._missing_rows].tolist()
-- 
2.43.0


From 9f52459bc8ba6c163b0d8cc07eae30340d91e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 35/66] fix: DataCleaner counted infinite values, which it
 removes, as unique values

---
 robpy/preprocessing/data_cleaner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 0bc3572..07e5fde 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -190,6 +190,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _get_discrete_columns_to_drop(self, X: pd.DataFrame):
         """Store columns with a small number of unique values (discrete columns) to drop."""
+        X = X.replace([np.inf, -np.inf], np.nan)
         self.cols_discrete = X.columns[X.nunique() <= self.min_unique_values].tolist()
 
     def _get_bad_scale_columns_to_drop(self, X: pd.DataFrame):
-- 
2.43.0


From df5701351229ff4d6e34e22bdbd12144d2a3bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 36/66] fix: reweighting in RobustPowerTransformer was not
 robust

After the first step the weights were based on the mean and standard deviation
of all transformed data, in which outliers mask themselves, instead of on robust
estimates as for the initial weights.
---
 robpy/preprocessing/transfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..cf1c17d 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -544,7 +544,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 xt = self._transf_boxcox(x, lambda_rew, standardize_too=False)[0]
             elif transf == "yeojohnson":
                 xt = self._transf_yeojohnson(x, lambda_rew, standardize_too=False)[0]
-            zt = (xt - np.mean(xt)) / np.std(xt)
+            loc_scale = HuberOneStepM().fit(xt)
+            zt = (xt - loc_scale.location) / loc_scale.scale
 
         mu_rew = np.mean(xt[w])
         sd_rew = np.std(xt[w])
-- 
2.43.0


From 429aa4a89e871969b89d50ee6e1b5e6a4025effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 37/66] fix: RobustPowerTransformer failed when lambda is close
 to the end of lambda_range

The range is a list, which does not support the arithmetic that extends it; and
the data would have been standardized again for the extended range. Keep
lambda_range as given, which also allows to clone the transformer.
---
 robpy/preprocessing/transfo.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index cf1c17d..014ea91 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -42,7 +42,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         self.method = method
         self.standardize = standardize
-        self.lambda_range = list(lambda_range)
+        self.lambda_range = lambda_range
         self.quantile = quantile
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
@@ -154,14 +154,14 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         converged = False
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -185,15 +185,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         converged = False
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From 85a2a9a093418ec109d8c2e2e599ecd84bc2fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 38/66] fix: RobustPowerTransformer truncated transformed
 integer data to integers

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 014ea91..ee70204 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -263,7 +263,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -341,7 +341,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -366,7 +366,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -454,7 +454,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From 2ef7ef439372e1961bd6d515f79b13d43a4ce2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 39/66] fix: inverse_submatrix ignored the order of the indices
 of all variables

---
 robpy/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/utils/general.py b/robpy/utils/general.py
index eb8cd84..26b1686 100644
--- a/robpy/utils/general.py
+++ b/robpy/utils/general.py
@@ -26,6 +26,6 @@ def inverse_submatrix(A: np.ndarray, A_inv: np.ndarray, indices: np.array) -> np
     elif n_submatrix < p and n_submatrix <= p / 2.0:  # don't use the trick
         result = np.linalg.inv(A[np.ix_(indices, indices)])
     else:  # submatrix is the original matrix
-        result = A_inv
+        result = A_inv[np.ix_(indices, indices)]
 
     return result
-- 
2.43.0


From 5edb02cb7548a8b9bbb74c3e9c25ea9759c5656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 40/66] fix: CellMCD ignored quantile when flagging cells

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 93c80f8..8984d8f 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -357,7 +357,7 @@ class CellMCD(RobustCovariance):
         objective_values = np.full(self.max_c_steps + 1, np.nan)
         step = 0
         q = (
-            chi2.ppf(0.99, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
+            chi2.ppf(self.quantile, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
         )  # equation (21)
         penalty = np.sum(q * np.sum(1 - initial_W, axis=0))
         objective_values[step] = (
-- 
2.43.0


From 1645eb5887efa2e7b86edb69eb3d429cea81153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 41/66] fix: InitialDDCW failed when one principal direction
 remains (CellMCD on two collinear variables)

---
 robpy/covariance/initial_ddcw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..20b9aae 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -97,7 +97,8 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
-        cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
+        # back to original axis system
+        cov = eigenvectors @ np.atleast_2d(Zimp_proj_wrapped_cov) @ eigenvectors.T
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
 
@@ -129,7 +130,8 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
-        cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
+        # back to original axis system
+        cov = eigenvectors @ np.atleast_2d(Zimp_proj_wrapped_cov) @ eigenvectors.T
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
 
-- 
2.43.0


From 5d063a217c10869c41d4b11f2ec5db5fbd06f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 42/66] fix: SRegression.predict failed on a single row and on
 columns that are constant in the new data

---
 robpy/regression/s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 1a2b5f8..26dec09 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -86,7 +86,7 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
         self.logger.info(f"Fitted {len(models)} initial models.")
         best_idx = np.argsort(scales)[: self.n_best_subsets]
@@ -131,7 +131,7 @@ class SRegression(RobustRegression):
             raise NotFittedError
         X, _ = _convert_input_to_array(X)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
-- 
2.43.0


From 6fd306d971d9b2d0c7b28cf9bbf77235b44242d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 43/66] fix: MMRegression failed with an initial estimator that
 predicts a column (FastLTSRegression)

---
 robpy/regression/mm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 2827fbc..cdd0a3b 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -54,12 +54,12 @@ class MMRegression(RobustRegression):
         if self._scale == 0:  # the initial estimator fits the majority exactly
             return self
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
+            residuals = y - self.model.predict(X).reshape(-1)
             scaled_residuals = residuals / self._scale
             scaled_residuals[scaled_residuals == 0] = np.finfo(float).eps  # avoid divide by 0
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
-            new_residuals = y - self.model.predict(X)
+            new_residuals = y - self.model.predict(X).reshape(-1)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
                 break
-- 
2.43.0


From 66f7e832109461c7725b468f88d6c045311dd05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 44/66] fix: SRegression did not end when a candidate fits a
 majority exactly

---
 robpy/regression/s.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 26dec09..67bdf1c 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -100,6 +100,11 @@ class SRegression(RobustRegression):
             previous_s = scales[idx]
             n_iter = 0
             while True:
+                if self._is_exact_fit(previous_m, X, y):
+                    previous_m.n_iter = n_iter
+                    best_models.append(previous_m)
+                    best_scales.append(previous_s)
+                    break
                 try:
                     m, s = self._i_step(X, y, (previous_m.predict(X) - y).flatten())
                     n_iter += 1
@@ -148,6 +153,12 @@ class SRegression(RobustRegression):
 
         return norm_diff <= self.relative_tolerance * max(self.relative_tolerance, norm_beta)
 
+    def _is_exact_fit(self, model: RegressionResultsWrapper, X, y) -> bool:
+        """Whether at least half of the residuals are rounding errors, which no i-step can improve"""
+        magnitude = np.median(np.abs(y) + np.abs(X) @ np.abs(model.params))
+        scale = np.median(np.abs(model.predict(X) - y))
+        return scale <= 100 * np.finfo(np.float64).eps * magnitude
+
     def _i_step(
         self,
         X,
@@ -174,6 +185,8 @@ class SRegression(RobustRegression):
             scale = np.median(np.abs(residuals)) / 0.6745
             try:
                 for _ in range(self.n_initial_i_steps):
+                    if self._is_exact_fit(model, X, y):
+                        break
                     model, scale = self._i_step(X, y, residuals)
                     residuals = model.resid
                 models.append(model)
-- 
2.43.0


From 75e52b9e9a3a054afba45d8eaf451cf3597c62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 45/66] fix: MMRegression failed when the initial scale only
 consists of rounding errors

---
 robpy/regression/mm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index cdd0a3b..5a165e8 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -51,7 +51,8 @@ class MMRegression(RobustRegression):
         self.model = deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
-        if self._scale == 0:  # the initial estimator fits the majority exactly
+        # the initial estimator fits the majority exactly, up to rounding errors
+        if self._scale <= 100 * np.finfo(float).eps * np.median(np.abs(y)):
             return self
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X).reshape(-1)
-- 
2.43.0


From 155a06dc20cf2a0655a6e0e76b508ad76220e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 46/66] fix: covariance estimators and outlier_map failed for a
 single variable

---
 robpy/covariance/base.py     |  2 +-
 robpy/covariance/mcd.py      | 24 ++++++++++++------------
 robpy/covariance/ogk.py      |  2 +-
 robpy/covariance/wrapping.py |  2 +-
 robpy/regression/base.py     |  2 +-
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index f5b24ea..09f5848 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -79,7 +79,7 @@ class RobustCovariance(EmpiricalCovariance):
         self._set_covariance(covariance)
         if self.store_precision:
             self.precision_ = pinvh(covariance)
-        self.default_covariance_ = np.cov(X, rowvar=False)
+        self.default_covariance_ = np.atleast_2d(np.cov(X, rowvar=False))
         self._robust_distances = mahalanobis_distance(
             X, location=self.location_, covariance=self.covariance_
         )
diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 35245d8..d503039 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -100,7 +100,7 @@ class FastMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
         self.rng = np.random.default_rng(self.random_seed)
         self._n_observations = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
@@ -149,7 +149,7 @@ class FastMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -253,14 +253,14 @@ class FastMCD(RobustCovariance):
 
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = self.rng.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
@@ -325,7 +325,7 @@ class DetMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
 
         n, p = X.shape
 
@@ -364,7 +364,7 @@ class DetMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -399,15 +399,15 @@ class DetMCD(RobustCovariance):
     def _get_initial_best_subsets(self, Z: np.ndarray, X: np.ndarray, n: int, p: int):
         # Step 1: construct 6 preliminary estimates Sk of covariance or correlation
         Y = np.tanh(Z)
-        S1 = np.corrcoef(Y, rowvar=False)
+        S1 = np.atleast_2d(np.corrcoef(Y, rowvar=False))
         R = rankdata(Z, axis=0)
-        S2 = np.corrcoef(R, rowvar=False)
-        S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
+        S2 = np.atleast_2d(np.corrcoef(R, rowvar=False))
+        S3 = np.atleast_2d(np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False))
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
         w = np.divide(1, znorm, out=np.zeros_like(znorm), where=znorm > 0)
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
-        S5 = np.cov(Z[idx, :], rowvar=False)
+        S5 = np.atleast_2d(np.cov(Z[idx, :], rowvar=False))
         S6 = OGK(
             location_estimator=np.median, scale_estimator=self._Qn_scale, reweighting=False
         ).calculate_covariance(Z)
@@ -488,14 +488,14 @@ class DetMCD(RobustCovariance):
             Hsubset.
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = np.random.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
diff --git a/robpy/covariance/ogk.py b/robpy/covariance/ogk.py
index 80765a3..fc90a97 100644
--- a/robpy/covariance/ogk.py
+++ b/robpy/covariance/ogk.py
@@ -90,7 +90,7 @@ class OGK(RobustCovariance):
                 mahalanobis
             )  # mahalanobis is the sqrt distance, so we need to take the sqrt of the chi2 quantiles
             mask = mahalanobis < cutoff
-            cov_X = np.cov(X[mask], rowvar=False)
+            cov_X = np.atleast_2d(np.cov(X[mask], rowvar=False))
             mu_X = np.mean(X[mask], axis=0)
         self.location_ = mu_X.flatten()
 
diff --git a/robpy/covariance/wrapping.py b/robpy/covariance/wrapping.py
index 56e1d00..840718e 100644
--- a/robpy/covariance/wrapping.py
+++ b/robpy/covariance/wrapping.py
@@ -78,4 +78,4 @@ class WrappingCovariance(RobustCovariance):
             X, b=self.b, c=self.c, q1=self.q1, q2=self.q2, rescale=True
         )
         self.correlation_ = np.corrcoef(X_transformed, rowvar=False)
-        return np.cov(X_transformed, rowvar=False)
+        return np.atleast_2d(np.cov(X_transformed, rowvar=False))
diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index c67866c..30d54c7 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -96,7 +96,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
             covariance = mcd.covariance_
             location = mcd.location_
         else:
-            covariance = np.cov(X, rowvar=False)
+            covariance = np.atleast_2d(np.cov(X, rowvar=False))
             location = np.mean(X, axis=0)
         distances = mahalanobis_distance(X, location=location, covariance=covariance)
 
-- 
2.43.0


From 06d1ace6b898be7a302647a7b4aca2ef4ae61524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 47/66] fix: PCALocantore.fit failed for a DataFrame

---
 robpy/pca/spca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 7496dda..4d23d8c 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import numpy as np
+import pandas as pd
 
 from robpy.pca.base import RobustPCA
 from robpy.utils.median import l1median
@@ -33,6 +34,8 @@ class PCALocantore(RobustPCA):
         self.k_min_var_explained = k_min_var_explained
 
     def fit(self, X: np.ndarray) -> PCALocantore:
+        if isinstance(X, pd.DataFrame):
+            X = X.values
         n = len(X)
         self.location_ = l1median(X)
         centered_X = X - self.location_
-- 
2.43.0


From 3a0e6355d2721066c75a53ca2b619cee8555435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 48/66] fix: inverse_transform and output feature names of
 RobustPCA assumed components in rows

---
 robpy/pca/base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 27ac2b3..523cb2b 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -60,6 +60,21 @@ class RobustPCA(_BasePCA):
         """
         return self.transform(X) @ self.components_.T
 
+    def inverse_transform(self, X: np.ndarray) -> np.ndarray:
+        """Transform scores back to the original space.
+
+        Args:
+            X (np.ndarray): Scores of shape (n_samples, n_components).
+
+        Returns:
+            np.ndarray: Points of shape (n_samples, n_features) in the PCA subspace.
+        """
+        return X @ self.components_.T + self.location_
+
+    @property
+    def _n_features_out(self) -> int:
+        return self.components_.shape[1]  # in sklearn, the components are the rows
+
     def plot_outlier_map(
         self,
         X: np.ndarray | pd.DataFrame,
-- 
2.43.0


From 69b11c41474e4e93dcf0150ddb4c4230fdbdc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 49/66] fix: ROBPCA skipped the final MCD step for a single
 component

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 5a36008..ffd0409 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -106,7 +106,7 @@ class ROBPCA(RobustPCA):
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         self.explained_variance_ = eigvals_v[sorted_eig_v_idx[:k]]
-        if self.final_MCD_step and k > 1:
+        if self.final_MCD_step:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             eigvals_mcd, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
-- 
2.43.0


From d224e17977d9b4c4e05283a512c40146f6160f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 50/66] fix: RobustPowerTransformer(method=auto) compared
 Yeo-Johnson on data that were not standardized

---
 robpy/preprocessing/transfo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index ee70204..a4dec95 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -60,7 +60,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if self.method in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
             if self.method == "auto":
-                crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
+                x_boxcox = x_sorted / scale_boxcox if self.standardize else x_sorted
+                crit_val_boxcox = self._robnormality(x_boxcox, "boxcox", lambda_boxcox)
 
         if self.method in ["yeojohnson", "auto"]:
             (
@@ -71,7 +72,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
             if self.method == "auto":
-                crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
+                x_yeojohnson = (
+                    (x_sorted - loc_yeojohnson) / scale_yeojohnson if self.standardize else x_sorted
+                )
+                crit_val_yeojohnson = self._robnormality(
+                    x_yeojohnson, "yeojohnson", lambda_yeojohnson
+                )
 
         if self.method == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-- 
2.43.0


From 07382b3ba5b4558849d52edd8dd9656477683c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 51/66] fix: DataCleaner failed for categorical, datetime and
 string columns

---
 robpy/preprocessing/data_cleaner.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 07e5fde..06b0bb6 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -157,9 +157,14 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _get_non_numeric_columns_to_drop(self, X: pd.DataFrame):
         """Store non-numeric columns to drop."""
-        self.non_numeric_cols = X.columns[
-            X.apply(lambda s: pd.to_numeric(s.fillna(0), errors="coerce")).isna().any()
-        ].tolist()
+        not_numeric = [
+            isinstance(dtype, pd.CategoricalDtype)
+            or pd.api.types.is_datetime64_any_dtype(dtype)
+            or pd.api.types.is_timedelta64_dtype(dtype)
+            or pd.to_numeric(X.iloc[:, j].dropna(), errors="coerce").isna().any()
+            for j, dtype in enumerate(X.dtypes)
+        ]
+        self.non_numeric_cols = X.columns[not_numeric].tolist()
 
     def _set_row_numbers_cols(self, X: pd.DataFrame):
         """Check that no column consists of the row numbers."""
-- 
2.43.0


From bed7806cad7020ed777e1e5cab47c45c9e5e80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 52/66] fix: l1median stopped next to an observation that is
 not the median

---
 robpy/utils/median.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index 646e8d1..c888af0 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -19,7 +19,8 @@ def l1median(X: np.ndarray) -> float:
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        distinct = d > 0
+        # within the accuracy aimed at, an observation next to mu_0 coincides with it
+        distinct = d > epsilon * np.median(d)
         if not distinct.any():
             return mu_0
         W = 1 / d[distinct]
-- 
2.43.0


From fe11d4094a009df0014e256c5f4793b5171ddb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 53/66] fix: SRegression did not end when rounding errors
 exceed its tolerance

---
 robpy/regression/s.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 67bdf1c..a681870 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -22,6 +22,7 @@ class SRegression(RobustRegression):
         relative_tolerance: float = 1e-7,
         scale_tolerance: float = 1e-10,
         random_state: int = 101,
+        max_i_steps: int = 1000,
     ):
         """
         S-regression, proposed by Rousseeuw, P. J., &
@@ -59,6 +60,9 @@ class SRegression(RobustRegression):
                 Defaults to 1e-10.
             random_state (int, optional):
                 Can be used to provide a random state. Defaults to 101.
+            max_i_steps (int, optional):
+                Maximum number of i-steps until convergence. For nearly collinear features, rounding
+                errors can exceed the relative tolerance forever. Defaults to 1000.
 
         References:
             - Rousseeuw, P. J., & Yohai, V. J. (1984). Robust Regression by Means of S-Estimators.
@@ -77,6 +81,7 @@ class SRegression(RobustRegression):
         self.fit_intercept = fit_intercept
         self.model = None
         self.random_state = random_state
+        self.max_i_steps = max_i_steps
         self.relative_tolerance = relative_tolerance
         self.scale_tolerance = scale_tolerance
         self.logger = logging.getLogger("S-regression")
@@ -118,7 +123,7 @@ class SRegression(RobustRegression):
                     best_models.append(previous_m)
                     best_scales.append(previous_s)
                     break
-                if self._converged(previous_m.params, m.params):
+                if self._converged(previous_m.params, m.params) or n_iter >= self.max_i_steps:
                     m.n_iter = n_iter
                     best_models.append(m)
                     best_scales.append(s)
-- 
2.43.0


From 325ad1a0d10fbc559158f34d231d11f866144234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 54/66] fix: transformers of robpy.pca and robpy.preprocessing
 failed in supervised sklearn pipelines

---
 robpy/pca/base.py                   | 2 +-
 robpy/pca/robpca.py                 | 2 +-
 robpy/pca/spca.py                   | 2 +-
 robpy/preprocessing/data_cleaner.py | 2 +-
 robpy/preprocessing/scaling.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 523cb2b..aaf84b8 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -19,7 +19,7 @@ class RobustPCA(_BasePCA):
         self.n_components = n_components
 
     @abstractmethod
-    def fit(self, X: np.ndarray):
+    def fit(self, X: np.ndarray, y=None):
         """Fit the robust PCA model to the data.
 
         Args:
diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index ffd0409..eee28b4 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -51,7 +51,7 @@ class ROBPCA(RobustPCA):
         self.logger = get_logger("ROBPCA", level=verbosity)
         self.verbosity = verbosity
 
-    def fit(self, X: np.ndarray) -> ROBPCA:
+    def fit(self, X: np.ndarray, y=None) -> ROBPCA:
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 4d23d8c..0e9efb4 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -33,7 +33,7 @@ class PCALocantore(RobustPCA):
         super().__init__(n_components=n_components)
         self.k_min_var_explained = k_min_var_explained
 
-    def fit(self, X: np.ndarray) -> PCALocantore:
+    def fit(self, X: np.ndarray, y=None) -> PCALocantore:
         if isinstance(X, pd.DataFrame):
             X = X.values
         n = len(X)
diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 06b0bb6..e9f9c40 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -59,7 +59,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.min_n_rows = min_n_rows
         self.logger = logging.getLogger("DataCleaner")
 
-    def fit(self, X: pd.DataFrame):
+    def fit(self, X: pd.DataFrame, y=None):
         """
         Args:
             X (pd.DataFrame): The input dataset.
diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 2ff2979..a3d745c 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -33,7 +33,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.with_centering = with_centering
         self.with_scaling = with_scaling
 
-    def fit(self, X: np.ndarray | pd.DataFrame, ignore_nan: bool = False):
+    def fit(self, X: np.ndarray | pd.DataFrame, y=None, ignore_nan: bool = False):
         if isinstance(X, pd.DataFrame):
             X = X.values
         if len(X.shape) == 1:
-- 
2.43.0


From f109c9b6bf7abf6523f07f9d6e6267c727e25ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 55/66] fix: distance_distance_plot centred the non-robust
 distances at the robust location

---
 robpy/covariance/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index 09f5848..0903328 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -75,6 +75,7 @@ class RobustCovariance(EmpiricalCovariance):
             self.location_ = np.zeros(X.shape[1])
         else:
             self.location_ = X.mean(0)
+        default_location = self.location_  # the estimators overwrite location_
         covariance = self.calculate_covariance(X)
         self._set_covariance(covariance)
         if self.store_precision:
@@ -84,7 +85,7 @@ class RobustCovariance(EmpiricalCovariance):
             X, location=self.location_, covariance=self.covariance_
         )
         self._mahalanobis_distances = mahalanobis_distance(
-            X, location=self.location_, covariance=self.default_covariance_
+            X, location=default_location, covariance=self.default_covariance_
         )
 
         return self
-- 
2.43.0


From 1dcf129d524a09b16f57845c7840347939d46b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 56/66] fix: correlation of WrappingCovariance was not a matrix
 for a single variable

---
 robpy/covariance/wrapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/wrapping.py b/robpy/covariance/wrapping.py
index 840718e..e0e249c 100644
--- a/robpy/covariance/wrapping.py
+++ b/robpy/covariance/wrapping.py
@@ -77,5 +77,5 @@ class WrappingCovariance(RobustCovariance):
         X_transformed = wrapping_transformation(
             X, b=self.b, c=self.c, q1=self.q1, q2=self.q2, rescale=True
         )
-        self.correlation_ = np.corrcoef(X_transformed, rowvar=False)
+        self.correlation_ = np.atleast_2d(np.corrcoef(X_transformed, rowvar=False))
         return np.atleast_2d(np.cov(X_transformed, rowvar=False))
-- 
2.43.0


From 40acc1ec7d184e947062bfe9e9cecccc0b46f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 57/66] fix: DDC flagged regular cells whose residuals have a
 common offset

The scale of the residuals was relative to their median, but the flags compare
the residuals with zero. Outliers shift the location of a column, which made
nearly all cells of strongly correlated columns deviate.
---
 robpy/outliers/ddc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 895e5f5..b01cf47 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -161,15 +161,15 @@ class DDC(OutlierMixin):
         """
         raw_residuals = Z.values - predictions
         if fit:
+            # the flags compare residuals with zero, so their scale is relative to zero as well
+            symmetric_residuals = np.concatenate([raw_residuals, -raw_residuals])
             self.residual_scales = np.array(
                 [
                     max(
-                        CellwiseOneStepM()
-                        .fit(raw_residuals[:, i][~np.isnan(raw_residuals[:, i])])
-                        .scale,
+                        CellwiseOneStepM().fit(column[~np.isnan(column)]).scale,
                         1e-12,  # residuals of exact predictions are rounding errors
                     )
-                    for i in range(raw_residuals.shape[1])
+                    for column in symmetric_residuals.T
                 ]
             )
         standardized_residuals = raw_residuals / self.residual_scales
-- 
2.43.0


From a11c6f2e450081f4ccce20f1fdccb67930b0744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 58/66] fix: DDC did not predict columns whose residuals are
 constant

The scale of the residuals relative to their median is 0 then, so no observation
was left to estimate the slope, which became 0.
---
 robpy/outliers/ddc.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b01cf47..1b6c177 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -161,16 +161,8 @@ class DDC(OutlierMixin):
         """
         raw_residuals = Z.values - predictions
         if fit:
-            # the flags compare residuals with zero, so their scale is relative to zero as well
-            symmetric_residuals = np.concatenate([raw_residuals, -raw_residuals])
             self.residual_scales = np.array(
-                [
-                    max(
-                        CellwiseOneStepM().fit(column[~np.isnan(column)]).scale,
-                        1e-12,  # residuals of exact predictions are rounding errors
-                    )
-                    for column in symmetric_residuals.T
-                ]
+                [self._residual_scale(residuals) for residuals in raw_residuals.T]
             )
         standardized_residuals = raw_residuals / self.residual_scales
         cellwise_outliers = np.abs(standardized_residuals) > self.cutoff
@@ -371,12 +363,18 @@ class DDC(OutlierMixin):
                 correlation[i, j] = correlation[j, i] = np.corrcoef(xy_subset, rowvar=False)[0, 1]
         return correlation
 
+    def _residual_scale(self, residuals: np.ndarray) -> float:
+        """Robust scale relative to zero, with which the residuals are compared."""
+        residuals = residuals[~np.isnan(residuals)]
+        scale = CellwiseOneStepM().fit(np.concatenate([residuals, -residuals])).scale
+        return max(scale, 1e-12)  # residuals of exact predictions are rounding errors
+
     def _robust_slope(self, x: np.ndarray, y: np.ndarray) -> float:
         if np.all(x == 0):
             return 0
         init_slope = np.median(y[x != 0] / x[x != 0])
         residuals = y - init_slope * x
-        r_cutoff = self.cutoff * CellwiseOneStepM().fit(residuals).scale
+        r_cutoff = self.cutoff * self._residual_scale(residuals)
         mask = np.abs(residuals) <= r_cutoff
 
         return np.linalg.lstsq(x[mask].reshape(-1, 1), y[mask], rcond=None)[0][0]
-- 
2.43.0


From b53853fb4fa062591a6b7e9ce4787d409cb2958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 59/66] fix: k_min_var_explained=1 selected a single component
 due to rounding

---
 robpy/pca/robpca.py | 3 ++-
 robpy/pca/spca.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index eee28b4..1f9dfa0 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -86,7 +86,8 @@ class ROBPCA(RobustPCA):
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
-        var_explained_ratio = eigvals_h[sorted_eig_h_idx].cumsum() / eigvals_h.sum()
+        cumulative_variance = eigvals_h[sorted_eig_h_idx].cumsum()
+        var_explained_ratio = cumulative_variance / cumulative_variance[-1]  # ends at exactly 1
         if self.n_components is None:
             k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
         else:
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 0e9efb4..7881a79 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -47,7 +47,8 @@ class PCALocantore(RobustPCA):
         _, eigenvectors = np.linalg.eigh(spatial_sign_covariance)
         self.components_ = np.fliplr(eigenvectors)
         eigenvalues = np.square(median_abs_deviation(self.transform(X), axis=0, scale="normal"))
-        var_explained_ratio = eigenvalues.cumsum() / eigenvalues.sum()
+        cumulative_variance = eigenvalues.cumsum()
+        var_explained_ratio = cumulative_variance / cumulative_variance[-1]  # ends at exactly 1
         if self.n_components is None:
             self.n_components = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
         self.components_ = self.components_[:, : self.n_components]
-- 
2.43.0


From e9937cf201ba9fb978aeea6cc856a603f61f2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 60/66] fix: SRegression reported and ranked exact fits by the
 scale of an earlier i-step

---
 robpy/regression/s.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index a681870..f94cd4e 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -108,7 +108,7 @@ class SRegression(RobustRegression):
                 if self._is_exact_fit(previous_m, X, y):
                     previous_m.n_iter = n_iter
                     best_models.append(previous_m)
-                    best_scales.append(previous_s)
+                    best_scales.append(np.median(np.abs(previous_m.predict(X) - y)) / 0.6745)
                     break
                 try:
                     m, s = self._i_step(X, y, (previous_m.predict(X) - y).flatten())
@@ -194,6 +194,8 @@ class SRegression(RobustRegression):
                         break
                     model, scale = self._i_step(X, y, residuals)
                     residuals = model.resid
+                if self._is_exact_fit(model, X, y):
+                    scale = np.median(np.abs(residuals)) / 0.6745  # not that of the last i-step
                 models.append(model)
                 scales.append(scale)
             except np.linalg.LinAlgError as e:
-- 
2.43.0


From 5278d2a2d25eff7231ab3297a86c11403106d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 61/66] fix: DDC.fit(verbose=True) divided by zero for fewer
 than ten columns

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 1b6c177..c26116b 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -333,7 +333,7 @@ class DDC(OutlierMixin):
         """
         correlation = np.ones((X.shape[1], X.shape[1]))
         for i in range(X.shape[1]):
-            if verbose and i % (X.shape[1] // 10) == 0:
+            if verbose and i % max(1, X.shape[1] // 10) == 0:
                 print(
                     f"Correlation: Processing column {i + 1} of {X.shape[1]} "
                     f"({((i + 1) / X.shape[1]):.1%})"
-- 
2.43.0


From 68ab91387e3cea994fbbdb356cbf8eb23e1a896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 62/66] fix: Qn overflowed on unsigned and small integer types

---
 robpy/univariate/qn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 65beec9..af8f4eb 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -46,7 +46,7 @@ class Qn(RobustScale):
         n = len(X)
         h = n // 2 + 1
         k = h * (h - 1) // 2
-        y = np.sort(X)
+        y = np.sort(np.asarray(X, dtype=float))  # differences of integers can overflow
         left = n + 1 - np.arange(n)
         right = np.full(n, n)
         jhelp = n * (n + 1) // 2
-- 
2.43.0


From 3a6a27a0ffe91d611ec92ae537272cac162c122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 63/66] fix: stahel_donoho overflowed on unsigned and small
 integer types

---
 robpy/utils/outlyingness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 4a9e8d9..41e4f83 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -71,7 +71,8 @@ def _get_random_direction(
         np.ndarray: vector of shape (p, ) indicating the direction.
     """
     rng = np.random.default_rng(random_seed)
-    points = X[rng.choice(X.shape[0], n_points, replace=False)]
+    # as floats, since differences of integers can overflow
+    points = X[rng.choice(X.shape[0], n_points, replace=False)].astype(float)
 
     if n_points == 2:
         d = points[0] - points[1]
-- 
2.43.0


From 0fda8be723998ca68f296226dc2cc0018ba178a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 64/66] fix: RobustPowerTransformer overflowed on unsigned and
 small integer types

---
 robpy/preprocessing/transfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index a4dec95..05088b5 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -55,7 +55,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
 
         self._get_method(x)
-        x_sorted = np.sort(x)
+        x_sorted = np.sort(x).astype(float)  # powers and differences of integers can overflow
 
         if self.method in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
@@ -346,6 +346,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     def _transf_yeojohnson(self, x: np.ndarray, my_lambda: float, standardize_too: bool = False):
         """Classical Yeo-Johnson transformation."""
 
+        x = x * 1.0  # differences of integers can overflow
         positive_mask = x >= 0.0
         xt = np.zeros_like(x, dtype=float)
 
-- 
2.43.0


From 90fffdd4aa97221c5d7576a59e04f68da5055ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 65/66] fix: RobustScaler could not name its output features
 after fitting

---
 robpy/preprocessing/scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index a3d745c..53eedf6 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -34,10 +34,15 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.with_scaling = with_scaling
 
     def fit(self, X: np.ndarray | pd.DataFrame, y=None, ignore_nan: bool = False):
+        if hasattr(self, "feature_names_in_"):
+            del self.feature_names_in_
         if isinstance(X, pd.DataFrame):
+            if all(isinstance(name, str) for name in X.columns):
+                self.feature_names_in_ = X.columns.to_numpy(dtype=object)
             X = X.values
         if len(X.shape) == 1:
             X = X.reshape(-1, 1)
+        self.n_features_in_ = X.shape[1]  # used by get_feature_names_out
         self.locations_ = np.zeros(X.shape[1])
         self.scales_ = np.ones(X.shape[1])
 
-- 
2.43.0


From 263ebf1cfabe0c275affa18a826def9a452fc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:58 +0000
Subject: [PATCH 66/66] fix: CellMCD could not be fitted to a single variable

---
 robpy/covariance/initial_ddcw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 20b9aae..ea94e84 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -77,7 +77,7 @@ class InitialDDCW(RobustCovariance):
         Zimp = np.delete(Zimp, np.where(ddc.row_outliers_)[0], axis=0)
 
         # project data on eigenvectors
-        eigvals, eigvecs = np.linalg.eigh(np.cov(Zimp, rowvar=False))
+        eigvals, eigvecs = np.linalg.eigh(np.atleast_2d(np.cov(Zimp, rowvar=False)))
         eigenvectors = eigvecs[:, np.where(eigvals > self.min_eigenvalue)[0][::-1]]
         Zimp_proj = Zimp @ eigenvectors
 
@@ -110,7 +110,7 @@ class InitialDDCW(RobustCovariance):
         Zimp = np.delete(Zimp_original, U_outlying_cases, axis=0)
 
         # project data on eigenvectors
-        eigvals, eigvecs = np.linalg.eigh(np.cov(Zimp, rowvar=False))
+        eigvals, eigvecs = np.linalg.eigh(np.atleast_2d(np.cov(Zimp, rowvar=False)))
         eigenvectors = eigvecs[:, np.where(eigvals > self.min_eigenvalue)[0][::-1]]
         Zimp_proj = Zimp @ eigenvectors
 
-- 
2.43.0

