From 1383205fdb5a3ee0cf734d1b11cb84b22c25438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 01/40] fix: predicted density of several observables is the
 product over them

---
 src/mud/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..a83ce6d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -303,6 +303,9 @@ class DensityProblem(object):
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
             pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            if np.ndim(pred_pdf_values) > 1:
+                # one value per observable: joint density is their product
+                pred_pdf_values = np.prod(pred_pdf_values, axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From ff78a9277733e335157258f95b8b1507fc23fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 02/40] fix: setting the observed distribution discards the
 stale update

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index a83ce6d..a8cd8a1 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From d7d8c19d7b4cc0f3f469b5089ab709d749855994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 03/40] fix: honour pad_domain when fitting the default domain

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a8cd8a1..9316c8f 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -129,7 +129,7 @@ class DensityProblem(object):
             ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
 
         else:
-            self.domain = fit_domain(self.X)
+            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
 
         # Initialize weights
         self.set_weights(weights, normalize=normalize)
-- 
2.43.0


From c60329a09aced33a6fcdbeca2df9b28596146664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 04/40] fix: detect a vanishing posterior on the right scale

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9316c8f..198aaee 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -829,7 +829,7 @@ class BayesProblem(object):
             ps_pdf = np.multiply(self._pr, self._ll)
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if np.all(ps_pdf == (-np.inf if self._log else 0)):
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From 09479116c8c5032113e6e983befb7af256a3aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 05/40] fix: one-dimensional X holds samples of one parameter,
 as documented

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 198aaee..11ebf56 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From 6c9924024cd852eb13896c9a4c9960eaca358e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 06/40] fix: fit_domain leaves its argument alone and pads
 integer samples

---
 src/mud/util.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..b746fbd 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -277,11 +277,18 @@ def fit_domain(
     if min_max_bounds is None:
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
-        min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
-    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
-    min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
-    min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-    return min_max_bounds
+        bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+        pad = pad_ratio * (bounds[:, 1] - bounds[:, 0])
+        if np.any(pad != np.round(pad)):
+            # integer samples still get the full padding
+            bounds = bounds.astype(float)
+    else:
+        # copy, the bounds passed in are left alone
+        bounds = np.array(min_max_bounds)
+        pad = pad_ratio * (bounds[:, 1] - bounds[:, 0])
+    bounds[:, 0] = bounds[:, 0] - pad
+    bounds[:, 1] = bounds[:, 1] + pad
+    return bounds
 
 
 def set_shape(array: np.ndarray, shape: Union[List, Tuple] = (1, -1)) -> np.ndarray:
-- 
2.43.0


From d29e0327d13916d3b3bc1a79b8e00bea7be6bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 07/40] fix: functionals are those the linear solutions
 minimise (offset, data per row, alpha)

---
 src/mud/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 11ebf56..d3c664a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1093,27 +1093,25 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
-        # Compute observed mean
-        mean_o = self.y - self.b
+        # Initial covariance weighted according to alpha, as when solving
+        a_cov_i = self.alpha * self.cov_i
 
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip((self.A @ X.T + self.b) - self.y, self.cov_o)
         if terms == "data":
             return data_term
 
         # Tikhonov Regularization Term
-        reg_term = self.alpha * ip((X - self.mean_i.T).T, self.cov_i)
+        reg_term = ip((X - self.mean_i.T).T, a_cov_i)
         if terms == "reg":
             return reg_term
 
         # Data-Consistent Term - "un-regularization" in data-informed directions
-        dc_term = self.alpha * ip(
-            self.A @ (X - self.mean_i.T).T, self.A @ self.cov_i @ self.A.T
-        )
+        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
             return dc_term
 
-- 
2.43.0


From 3d7aac2461654f99f06b2fae7e08e0b781212b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 08/40] fix: norm functionals accept their default (scalar)
 observed mean

---
 src/mud/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..be0eb33 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -47,7 +47,7 @@ def norm_input(inputs, initial_mean, initial_cov):
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
         observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+    X = (operator @ inputs.T + data) - np.asarray(observed_mean).T
     return inner_product(X, observed_cov)
 
 
-- 
2.43.0


From d953555f83fa4a36a001c27a0a018c1b6f4a68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 09/40] fix: iterative linear solver passes its sub-problems
 the arguments they take

---
 src/mud/base.py | 6 +++---
 src/mud/funs.py | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d3c664a..ed97e70 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1467,9 +1467,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=self.data_cov[i : i + 1, i : i + 1],
                     )
                 )
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..d030ecf 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From 837096e313105f0dbcdc6954dfa9d7563f3e1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 10/40] fix: errors of an iterative solution are those to the
 reference asked for

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ed97e70..a25474b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1487,8 +1487,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From dcc81aaa8d9178b0ef2ddd32d159ee5886bb68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 11/40] fix: check the new domain, not the old one, against the
 parameters

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a25474b..7ddad5f 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1633,7 +1633,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From b7901f404662654bed253aec3f26064e14449642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 12/40] fix: validate looks for the reference parameter under
 its name

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7ddad5f..0bf9286 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1548,7 +1548,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1835,7 +1835,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From 93b82a8b40f27328cf0ff427259ceb23f19b87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 13/40] fix: load looks fields up under the names they are
 mapped to

---
 src/mud/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0bf9286..aad7670 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1801,9 +1801,10 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                if v in ds.keys():
+                    self.__setattr__(f, ds[v])
+            elif v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
-- 
2.43.0


From 4676c67d211518742ddd16ad4cbda994bb03b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 14/40] fix: sensors without coordinates can be sub-sampled

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index aad7670..b832050 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1870,7 +1870,9 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = np.reshape(
+                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
+            )
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 9ed2b80f7ad3c0f270d3a19b2071fd69aa7bfe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 15/40] fix: weighted mean error scales with the number of
 data, not of samples

---
 src/mud/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b832050..7397a98 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1996,7 +1996,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (-1, 1))
@@ -2008,7 +2007,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
@@ -2028,7 +2027,6 @@ class SpatioTemporalProblem(object):
         else:
             ValueError(f"Unrecognized QoI Map type {method}")
 
-        # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From 050118f158d0fc6e50d536e7a5c58facc210fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 16/40] fix: data weights apply to data, not to samples

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7397a98..fbc30c7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1998,8 +1998,8 @@ class SpatioTemporalProblem(object):
         residuals = (sub_meas - sub_data) / self.std_dev
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != residuals.shape[1]:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From d570451c97b7b1ee8a02d3de2827d4ed4e74d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 17/40] fix: refuse an unknown QoI map

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index fbc30c7..37cc0f4 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2025,7 +2025,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
-- 
2.43.0


From 1d6ed10272a7aebada79026dfc3ce27fd3924d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 18/40] fix: name of the xarray availability flag

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 37cc0f4..ada44f3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
-- 
2.43.0


From b9c6728395dca857878798461f9ca663ab344258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 19/40] fix: load sets the fields others are checked against
 first

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ada44f3..23c0917 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1812,8 +1812,11 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
-            "lam_ref": "lam_ref",
             "std_dev": "std_dev",
+            # these are checked against the fields above
+            "lam": lam,
+            "data": data,
+            "lam_ref": "lam_ref",
             "true_vals": "true_vals",
             "measurements": "measurements",
         }
@@ -1821,9 +1824,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From 455989c6865f4a01d0675a045730562662bb68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 20/40] fix: data_prob can be called with its defaults

---
 src/mud/funs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index d030ecf..a1013dc 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -216,7 +216,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
@@ -245,7 +245,7 @@ def data_prob(
         "sensors": sensors,
     }
     sp_prob = SpatioTemporalProblem()
-    sp_prob.load(data)
+    sp_prob.load({k: v for k, v in data.items() if v is not None})
     D = sp_prob.mud_problem(method=method)
     D.set_initial(init_dist)
     D.set_observed(dists.norm(0, 1))  # always N(0,1) for WME map
-- 
2.43.0


From 68cfcf2b99ba8216c0fd8c1004d9737416640007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 21/40] fix: identity_1D_temporal_prob builds a problem that
 can be solved

---
 src/mud/examples/simple.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index d7f461d..80b52c7 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -177,15 +177,16 @@ def identity_1D_temporal_prob(
     )
     data = {
         "lam": lam,
-        "data": data,
-        "true_vals": y_true,
-        "measurements": None,
+        "data": np.repeat(q_lam, num_obs, axis=1),
+        "true_vals": np.full(num_obs, y_true),
+        "measurements": data,
         "std_dev": noise,
-        "sample_dist": "uniform",
-        "domain": domain,
+        "sample_dist": "u",
         "lam_ref": y_true,
         "times": np.arange(num_obs),
     }
+    if domain is not None:
+        data["domain"] = domain
     temporal_prob = SpatioTemporalProblem()
     temporal_prob.load(data)
     D = temporal_prob.mud_problem(method="wme")
-- 
2.43.0


From f4b25d4700f107b38bf4e52661878dcd39022cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 22/40] fix: exp_decay_2D evaluates the true parameter

---
 src/mud/examples/exp_decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/exp_decay.py b/src/mud/examples/exp_decay.py
index 9520a1d..2712bdc 100644
--- a/src/mud/examples/exp_decay.py
+++ b/src/mud/examples/exp_decay.py
@@ -64,7 +64,7 @@ def exp_decay_2D(
     exp_decay.data = u_t_lambda_2(
         exp_decay.times, exp_decay.lam[:, 0], exp_decay.lam[:, 1]
     )
-    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, lambda_true)[0]
+    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, *lambda_true)[0]
     exp_decay.std_dev = std_dev
 
     return exp_decay
-- 
2.43.0


From ba03cbe4ce25d6dd0dc7cd1ca14d0ed168f0b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 23/40] fix: observed data of the polynomial example have
 standard deviation sigma

---
 src/mud/examples/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index 80b52c7..3dc91ca 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -90,7 +90,7 @@ def polynomial_1D_data(
     if N == 1:
         data = np.array([mu])
     else:
-        data = norm.rvs(loc=mu, scale=sigma**2, size=N)
+        data = norm.rvs(loc=mu, scale=sigma, size=N)
 
     return lam, q_lam, data
 
-- 
2.43.0


From ba721872128f783328ebed1defb2d6bdc95609a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 24/40] fix: wme accepts a column of data, as documented

---
 src/mud/funs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index a1013dc..7af4d3c 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -38,6 +38,7 @@ def wme(predictions, data, sd=None):
     numpy.ndarray of shape (n_samples, 1)
 
     """
+    data = np.ravel(data)
     sd = np.std(data) if sd is None else sd
     predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
     N = predictions.shape[1]
-- 
2.43.0


From 580ba06c9f26a0c954058aa2b9bf836398d316a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 25/40] fix: noise has the shape of the signal it is added to

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index b746fbd..e4d0f00 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -221,7 +221,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
         np.random.seed(seed)
 
     # Populate qoi_true with noise
-    noise = np.random.randn(signal.size) * sd
+    noise = np.random.randn(signal.size).reshape(signal.shape) * sd
 
     return signal + noise
 
-- 
2.43.0


From 1c2c42b7b9c444772080e0f69136efbe8fdd9cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 26/40] fix: rank_decomposition sums the leading rank one terms
 of the SVD

---
 src/mud/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index e4d0f00..3a3e1f6 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -231,11 +231,10 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     A = np.array(A)
     A_ranks = []
     rank_1_updates = []
-    u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    u, s, vh = np.linalg.svd(A)
+    for i in range(len(s)):
+        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
+        A_ranks.append(sum(rank_1_updates))
 
     return A_ranks
 
-- 
2.43.0


From ab58adc295189077a82ec011e887f805a69642d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 27/40] fix: contour lines pass through the reference point

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 23c0917..1a2a866 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1307,8 +1307,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..b387120 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From f35ca1fb0925b04bad7835be56c251d262342426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 28/40] fix: contour plots pass matplotlib options it knows

---
 src/mud/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1a2a866..918d386 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1284,7 +1284,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
@@ -1507,8 +1507,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                 current_point = next_point
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
+        opts = {"color": color, "ls": ":", "lw": 1, **kwargs.pop("plot_opts", {})}
         self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
+            ref_param, ax=ax, subset=self.idx_order, plot_opts=opts, **kwargs
         )
 
     def plot_chain_error(
-- 
2.43.0


From 656170d8b28e71816a2dc09b326c3ede83b298e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 29/40] fix: marginals are plotted for the parameter asked for

---
 src/mud/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index b387120..40cc37c 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,9 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    mesh = np.meshgrid(
+        *[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij"
+    )
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -220,7 +222,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From c0aff9dc726f1a47d744b88160ca624087e38c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 30/40] fix: plot_params_2d plots the parameters asked for

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 918d386..3bbeb00 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -698,10 +698,10 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], **{"c": c, **kwargs})
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From da54afc521fd94c99d9d5e2618ba84824661504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 31/40] fix: plot_sol leaves the options passed in alone

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3bbeb00..132d9ac 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1256,7 +1256,7 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
+        pt_opts = {**pt_opts, "label": point}
 
         # Plot point
         ax.scatter(pt[0], pt[1], **pt_opts)
-- 
2.43.0


From 7902ab730f139a3aaefea022afa7499beb72fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 32/40] fix: updated densities are plotted for the current
 settings

---
 src/mud/base.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 132d9ac..36ac6ea 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -511,10 +511,8 @@ class DensityProblem(object):
             )
         if up_opts is not None:
             uo.update(up_opts)
-            if self._r is not None:
-                up_kde = gkde(self.X.T, weights=self._r * self._weights)
-            else:
-                up_kde = gkde(self.X.T, weights=None)
+            self.estimate()  # the update for the current settings
+            up_kde = gkde(self.X.T, weights=self._r * self._weights)
             plot_dist(
                 up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
             )
@@ -614,10 +612,8 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._r is not None:
-                pf_kde = gkde(self.y.T, weights=self._weights * self._r)
-            else:
-                pf_kde = gkde(self.y.T, weights=None)
+            self.estimate()  # the update for the current settings
+            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
         return ax
-- 
2.43.0


From 2de60f3f0a4d2170a1fc37d2389dd2acde3c23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 33/40] fix: Bayesian plots weight samples by the posterior,
 also in log mode

---
 src/mud/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 36ac6ea..33b6b62 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -838,6 +838,11 @@ class BayesProblem(object):
     def estimate(self):
         return self.map_point()
 
+    def _posterior_weights(self):
+        """Sample weights proportional to the posterior, for plotting"""
+        self.estimate()
+        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
+
     # TODO: Make changes similar to DensityProblem class
     def plot_param_space(
         self,
@@ -881,8 +886,7 @@ class BayesProblem(object):
             )
         if ps_opts is not None:
             pso.update(ps_opts)
-            self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._posterior_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -963,7 +967,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            pf_kde = gkde(self.y.T, weights=self._posterior_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From bc19fedcd6d1e073dc445169cdd47a1ef2e47985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 34/40] fix: observable marginals of BayesProblem for several
 observables

---
 src/mud/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 33b6b62..4dd1443 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -943,9 +943,12 @@ class BayesProblem(object):
         # Default range is (-1,1) over each observable variable
         if y_range is None:
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
+        y_range = np.array(y_range)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        XXX = np.meshgrid(
+            *[np.linspace(i, j, aff)[:-1] for i, j in y_range], indexing="ij"
+        )
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
@@ -957,7 +960,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
-- 
2.43.0


From c88c96514245a0c29458a25b42fb1d99e8fd0fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 35/40] fix: sensors and measurements are drawn on the axes
 asked for

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4dd1443..c0842a0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1921,7 +1921,7 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
             fig = plt.gcf()
@@ -1962,7 +1962,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
-- 
2.43.0


From 677f617692c2d23236580320da3a579ee78c43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 36/40] fix: plot_1D_vecs draws on the axes asked for

---
 src/mud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index 40cc37c..762169e 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From 4b557331c91435f186d7f833e76a9e72406a9d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 37/40] fix: rotation_map draws from the seed asked for

---
 src/mud/examples/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 0f59573..66d4083 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -171,7 +171,7 @@ def rotation_map(qnum=10, tol=0.1, b=None, ref_param=None, seed=None):
 
     """
     if seed is not None:
-        np.random.seed(24)
+        np.random.seed(seed)
 
     vec = np.linspace(0, np.pi, qnum)
     A = np.array([[np.sin(theta), np.cos(theta)] for theta in vec])
-- 
2.43.0


From f253dc4fde851d289815331419a0f532e686a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 38/40] fix: rotation_map_trials passes the initial mean under
 its name

---
 src/mud/examples/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 66d4083..1025ea0 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -245,7 +245,7 @@ def rotation_map_trials(
 
         # Initialize Iterative Linear Problem and solve using number of epochs
         prob = IterativeLinearProblem(
-            A, b=b, y=y, initial_mean=initial_mean, cov=initial_cov, idx_order=choice
+            A, b=b, y=y, mu_i=initial_mean, cov=initial_cov, idx_order=choice
         )
         _ = prob.solve(num_epochs=epochs)
 
-- 
2.43.0


From dd90e66989bb9b418c8f6af1e020a2029e2abbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 39/40] fix: random linear problems have one row per
 observation, one std per QoI

---
 src/mud/examples/linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 1025ea0..bc1ee1d 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -52,7 +52,7 @@ def random_linear_wme_problem(
 
     """
     if isinstance(std_dev, (int, float)):
-        std_dev = np.array([std_dev]) * num_qoi
+        std_dev = [std_dev] * num_qoi
     else:
         assert len(std_dev) == num_qoi
 
@@ -68,9 +68,9 @@ def random_linear_wme_problem(
     data_list = []
     for n, s in zip(num_observations, std_dev):
         if dist == "normal":
-            M = np.random.randn(num_qoi, dim_input)
+            M = np.random.randn(n, dim_input)
         else:
-            M = np.random.rand(num_qoi, dim_input)
+            M = np.random.rand(n, dim_input)
 
         if repeated:  # just use first row
             M = M[0, :].reshape(1, dim_input)
-- 
2.43.0


From 210ac2fa3c8e6490d969c1c9817c6855bb38b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 40/40] Leave src/mud/examples as it was (reverts the six fixes
 there)

---
 src/mud/examples/exp_decay.py |  2 +-
 src/mud/examples/linear.py    | 10 +++++-----
 src/mud/examples/simple.py    | 13 ++++++-------
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/mud/examples/exp_decay.py b/src/mud/examples/exp_decay.py
index 2712bdc..9520a1d 100644
--- a/src/mud/examples/exp_decay.py
+++ b/src/mud/examples/exp_decay.py
@@ -64,7 +64,7 @@ def exp_decay_2D(
     exp_decay.data = u_t_lambda_2(
         exp_decay.times, exp_decay.lam[:, 0], exp_decay.lam[:, 1]
     )
-    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, *lambda_true)[0]
+    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, lambda_true)[0]
     exp_decay.std_dev = std_dev
 
     return exp_decay
diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index bc1ee1d..0f59573 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -52,7 +52,7 @@ def random_linear_wme_problem(
 
     """
     if isinstance(std_dev, (int, float)):
-        std_dev = [std_dev] * num_qoi
+        std_dev = np.array([std_dev]) * num_qoi
     else:
         assert len(std_dev) == num_qoi
 
@@ -68,9 +68,9 @@ def random_linear_wme_problem(
     data_list = []
     for n, s in zip(num_observations, std_dev):
         if dist == "normal":
-            M = np.random.randn(n, dim_input)
+            M = np.random.randn(num_qoi, dim_input)
         else:
-            M = np.random.rand(n, dim_input)
+            M = np.random.rand(num_qoi, dim_input)
 
         if repeated:  # just use first row
             M = M[0, :].reshape(1, dim_input)
@@ -171,7 +171,7 @@ def rotation_map(qnum=10, tol=0.1, b=None, ref_param=None, seed=None):
 
     """
     if seed is not None:
-        np.random.seed(seed)
+        np.random.seed(24)
 
     vec = np.linspace(0, np.pi, qnum)
     A = np.array([[np.sin(theta), np.cos(theta)] for theta in vec])
@@ -245,7 +245,7 @@ def rotation_map_trials(
 
         # Initialize Iterative Linear Problem and solve using number of epochs
         prob = IterativeLinearProblem(
-            A, b=b, y=y, mu_i=initial_mean, cov=initial_cov, idx_order=choice
+            A, b=b, y=y, initial_mean=initial_mean, cov=initial_cov, idx_order=choice
         )
         _ = prob.solve(num_epochs=epochs)
 
diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index 3dc91ca..d7f461d 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -90,7 +90,7 @@ def polynomial_1D_data(
     if N == 1:
         data = np.array([mu])
     else:
-        data = norm.rvs(loc=mu, scale=sigma, size=N)
+        data = norm.rvs(loc=mu, scale=sigma**2, size=N)
 
     return lam, q_lam, data
 
@@ -177,16 +177,15 @@ def identity_1D_temporal_prob(
     )
     data = {
         "lam": lam,
-        "data": np.repeat(q_lam, num_obs, axis=1),
-        "true_vals": np.full(num_obs, y_true),
-        "measurements": data,
+        "data": data,
+        "true_vals": y_true,
+        "measurements": None,
         "std_dev": noise,
-        "sample_dist": "u",
+        "sample_dist": "uniform",
+        "domain": domain,
         "lam_ref": y_true,
         "times": np.arange(num_obs),
     }
-    if domain is not None:
-        data["domain"] = domain
     temporal_prob = SpatioTemporalProblem()
     temporal_prob.load(data)
     D = temporal_prob.mud_problem(method="wme")
-- 
2.43.0

