From 4732935bb6ec7659c75622a9d162e2290a752c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 01/66] fix: find_nearest_cluster2 asks about the data point
 nearest to x

For x beyond the last data point it raised IndexError, and for any other x
right of the first point it always used the next data point to the right.
---
 src/diffpy/srmise/dataclusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..87a4330 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,10 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
+        if idx == 0:
             return self.find_nearest_cluster(idx)
+        elif idx >= len(self.x):
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From 5cb784524b27a8757a5ea8562f055c368a44622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 02/66] fix: combine_clusters validates every group before
 combining any

Invalid groups raised IndexError instead of ValueError or, when decreasing,
were accepted; groups before an invalid one were already changed; and groups
of different lengths could not be combined.
---
 src/diffpy/srmise/dataclusters.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 87a4330..7443380 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -359,42 +359,43 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        combine_flat = np.array([i for c in combine for i in c])
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
+        # Check every request before changing anything.
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for left, right in zip(c[:-1], c[1:]):
+                if right - 1 != left:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[right, 0] - self.clusters[left, 1] != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
+        for c in combine:
             # update cluster endpoints
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = np.array([i for c in combine for i in c[1:]], dtype=int)
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
-- 
2.43.0


From d6d92dafeb0756b44b27188710123b25a6c22247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 03/66] fix: find_adjacent_clusters handles runs of different
 lengths

np.array() refuses ragged sequences.
---
 src/diffpy/srmise/dataclusters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 7443380..ce9be4d 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -432,7 +432,10 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
-        return np.array(adj)
+        if all(len(a) == len(adj[0]) for a in adj):
+            return np.array(adj)
+        # runs of different lengths do not form a rectangular array
+        return np.array(adj, dtype=object)
 
     def cut(self, idx):
         """Return slice(s) for data given cluster index (or indices).
-- 
2.43.0


From 7b0373061853906e62bf898ad33216a7816dfdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 04/66] fix: model part parameters are stored as floats

Integer parameters made an integer array, so fitted values were truncated when written back.
---
 src/diffpy/srmise/modelparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..cae8a61 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -527,7 +527,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
-- 
2.43.0


From bbfd895b584863fff81ac5fd53e56f76a3c3832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 05/66] fix: a model without parts has no free parameters

Flattening an empty model raised ValueError instead of giving an empty vector.
---
 src/diffpy/srmise/modelparts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index cae8a61..8b08a8e 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -369,6 +369,8 @@ class ModelParts(list):
         """Return array of all free parameters."""
         # To check: ravel() sometimes returns a reference and othertimes a copy.
         #          Do I need to use flatten() instead?
+        if len(self) == 0:
+            return np.array([])
         return np.concatenate([p.compress() for p in self]).ravel()
 
     def covariance(self, format="internal", **kwds):
-- 
2.43.0


From fec7176c5c7950af4f896e51195bc8a916c2a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 06/66] fix: covariance of a fit over a range, or with a
 singular matrix

The residual variance divided by the number of all data points instead of
those fitted, and a singular curvature matrix (None) raised TypeError.
---
 src/diffpy/srmise/modelparts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 8b08a8e..d150f4d 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -210,8 +210,12 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+            dof = len(fvec) - len(freepars)
+            if pcov is None:
+                # singular matrix encountered
+                cov.clear()
+            else:
+                cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
-- 
2.43.0


From 3a17ecd62369aa8b3c82cf73bad70ca08ae90664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 07/66] fix: Gaussian derivatives can be evaluated

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..83c322d 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -272,7 +272,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From a2f73cf25907d36338ff59ed0b394c5775e293c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 08/66] fix: polynomial derivatives follow the order of the
 coefficients

---
 src/diffpy/srmise/baselines/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..3fbfd6a 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -160,7 +160,7 @@ class Polynomial(BaselineFunction):
         # polynomial is just x^nth.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From 1c9f020015ee68d84e68a97cbd4c3e26e7041935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 09/66] fix: nanospherical baseline with negative scale or
 radius

---
 src/diffpy/srmise/baselines/nanospherical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..0e2a02e 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -152,13 +152,12 @@ class NanoSpherical(BaselineFunction):
         array-like
             The partial Jacobian of the nanoparticle baseline wrt scale without bounds checking.
         """
-        np.abs(pars[0])
         R = np.abs(pars[1])
         rdivR = r / R
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
@@ -247,7 +246,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +295,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From 0fb8627032bd80103fd9b394e175de5ebc071d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 10/66] fix: Arbitrary baseline without derivatives

---
 src/diffpy/srmise/baselines/arbitrary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..7d7f9e0 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From 52f970a9c376d4e2429d9a65c7c390ab8b4ab91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 11/66] fix: Arbitrary baseline has the requested number of
 parameters

---
 src/diffpy/srmise/baselines/arbitrary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index 7d7f9e0..5b656f2 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
-- 
2.43.0


From c67fd6cf99c34aaf8700380e0c9e981ffeea98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 12/66] fix: termination ripple derivatives match the values,
 and single points are evaluated

---
 src/diffpy/srmise/peaks/terminationripples.py | 73 ++++++++++++-------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..01af7b3 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -232,15 +232,11 @@ class TerminationRipples(PeakFunction):
 
         # normally r will be a sequence, but also allow single numeric values
         try:
-            if len(r) > 1:
-                dr = (r[-1] - r[0]) / (len(r) - 1)
-            else:
-                # dr is ad hoc if r is a single point
-                dr = 2 * np.pi / (self.supersample * self.qmax)
-
             if rng is None:
                 rng = slice(0, len(r))
-            rpart = r[rng]
+            rpart, dr, segments = self._sample_grid(r, rng)
+            if len(rpart) == 0:
+                return [r * 0.0 if free else None for free in peak.free]
             (ext_r, ext_slice) = self.extend_grid(rpart, dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             output = [None for j in jac]
@@ -248,14 +244,14 @@ class TerminationRipples(PeakFunction):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)
                     output[idx] = r * 0.0
-                    output[idx][rng] = jac[idx][ext_slice]
+                    output[idx][rng] = jac[idx][ext_slice][::segments]
             return output
         except TypeError:
             # dr is ad hoc if r is a single point.
             dr = 2 * np.pi / (self.supersample * self.qmax)
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
+            for idx in range(len(jac)):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
             return jac
@@ -307,22 +303,9 @@ class TerminationRipples(PeakFunction):
 
             output = r * 0.0
 
-            # Make sure the actual dr used for finding termination ripples
-            # is at least as fine as dr_super, while still calculating the
-            # function at precisely the requested points.
-            # When the underlying function is sampled too coarsely it can
-            # miss critical high frequency components and return a very
-            # poor approximation to the continuous case.  The actual fineness
-            # of sampling needed to avoid the worst of these discretization
-            # issues is difficult to determine without detailed knowledge
-            # of the underlying function.
-            dr = (r[-1] - r[0]) / (len(r) - 1)
-            segments = int(np.ceil(dr / dr_super))
-            dr_segmented = dr / segments
-
-            rpart = r[rng]
-            if segments > 1:
-                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+            rpart, dr_segmented, segments = self._sample_grid(r, rng)
+            if len(rpart) == 0:
+                return output
 
             (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
             value = self._valueraw(peak.pars, ext_r)
@@ -331,6 +314,46 @@ class TerminationRipples(PeakFunction):
 
             return output
 
+    def _sample_grid(self, r, rng):
+        """Return the grid on which termination ripples over r[rng] are found.
+
+        Parameters
+        ----------
+        r : array-like
+            The sequence of r-values, uniformly spaced
+        rng : slice object
+            The r-values which are evaluated.
+
+        Returns
+        -------
+        rpart : array-like
+            The evaluated r-values, with intermediate points if supersampled
+        dr : float
+            The spacing of rpart
+        segments : int
+            Every segments-th point of rpart is one of r[rng].
+        """
+        # Make sure the actual dr used for finding termination ripples
+        # is at least as fine as dr_super, while still calculating the
+        # function at precisely the requested points.
+        # When the underlying function is sampled too coarsely it can
+        # miss critical high frequency components and return a very
+        # poor approximation to the continuous case.  The actual fineness
+        # of sampling needed to avoid the worst of these discretization
+        # issues is difficult to determine without detailed knowledge
+        # of the underlying function.
+        dr_super = 2 * np.pi / (self.supersample * self.qmax)
+        rpart = r[rng]
+        if len(r) < 2:
+            # dr is ad hoc if r is a single point
+            return rpart, dr_super, 1
+        dr = (r[-1] - r[0]) / (len(r) - 1)
+        segments = int(np.ceil(dr / dr_super))
+        dr_segmented = dr / segments
+        if segments > 1 and len(rpart) > 0:
+            rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+        return rpart, dr_segmented, segments
+
     def getmodule(self):
         return __name__
 
-- 
2.43.0


From ea1be1088562e69a26b537458891aecf4dfaae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 13/66] fix: peaks of the maximum width survive conversion to
 sigma and back

---
 src/diffpy/srmise/peaks/gaussian.py      | 9 +++++----
 src/diffpy/srmise/peaks/gaussianoverr.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 83c322d..365c7fe 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -357,14 +357,15 @@ class Gaussian(PeakFunction):
                 raise SrMiseTransformationError(emsg)
             temp[1] = np.arcsin(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0)
         elif in_format == "mu_sigma_area":
-            fwhm = temp[1] * self.sigma2fwhm
-            if fwhm > self.maxwidth:
+            # Compare widths as sigma, since converting to FWHM may round past the maximum width.
+            maxsigma = self.maxwidth / self.sigma2fwhm
+            if temp[1] > maxsigma:
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
-                    fwhm,
+                    temp[1] * self.sigma2fwhm,
                     self.maxwidth,
                 )
                 raise SrMiseTransformationError(emsg)
-            temp[1] = np.arcsin(2.0 * fwhm**2 / self.maxwidth**2 - 1.0)
+            temp[1] = np.arcsin(2.0 * temp[1] ** 2 / maxsigma**2 - 1.0)
         else:
             raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
 
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..b402b9d 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -424,14 +424,15 @@ class GaussianOverR(PeakFunction):
                 raise SrMiseTransformationError(emsg)
             temp[1] = np.arcsin(2.0 * temp[1] ** 2 / self.maxwidth**2 - 1.0)
         elif in_format == "mu_sigma_area":
-            fwhm = temp[1] * self.sigma2fwhm
-            if fwhm > self.maxwidth:
+            # Compare widths as sigma, since converting to FWHM may round past the maximum width.
+            maxsigma = self.maxwidth / self.sigma2fwhm
+            if temp[1] > maxsigma:
                 emsg = "Width %s (FWHM) greater than maximum allowed width %s" % (
-                    fwhm,
+                    temp[1] * self.sigma2fwhm,
                     self.maxwidth,
                 )
                 raise SrMiseTransformationError(emsg)
-            temp[1] = np.arcsin(2.0 * fwhm**2 / self.maxwidth**2 - 1.0)
+            temp[1] = np.arcsin(2.0 * temp[1] ** 2 / maxsigma**2 - 1.0)
         else:
             raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
 
-- 
2.43.0


From 3f80c2f64a94c6547ce5906c7354fa0c5fc7274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 14/66] fix: Gaussian defines the gradients of its format
 conversions

---
 src/diffpy/srmise/peaks/gaussian.py | 54 +++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 365c7fe..92bbe26 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -305,6 +305,60 @@ class Gaussian(PeakFunction):
                 jacobian[2] = -exp_p
         return jacobian
 
+    def _transform_derivativesraw(self, pars, in_format, out_format):
+        """Return gradient matrix for the pars converted from in_format
+        to out_format.
+
+        Parameters
+        ----------
+        pars: Sequence of parameters
+        in_format: A format defined for this class
+        out_format: A format defined for this class
+
+        Defined Formats
+        internal: [position, parameterized width-squared, area]
+        pwa: [position, full width at half maximum, area]
+        mu_sigma_area: [mu, sigma, area]
+        """
+        # With these three formats only the width-related parameter changes.
+        # Therefore the gradient matrix is the identity matrix with the possible
+        # exception of the element at [1,1].
+        g = np.identity(self.npars)
+
+        if in_format == out_format:
+            return
+
+        if in_format == "internal":
+            if out_format == "pwa":
+                g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = (
+                    self.maxwidth
+                    / (2 * np.sqrt(2) * self.sigma2fwhm)
+                    * np.cos(pars[1])
+                    / np.sqrt(1 + np.sin(pars[1]))
+                )
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "pwa":
+            if out_format == "internal":
+                g[1, 1] = 2 / np.sqrt(self.maxwidth**2 - pars[1] ** 2)
+            elif out_format == "mu_sigma_area":
+                g[1, 1] = 1 / self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        elif in_format == "mu_sigma_area":
+            if out_format == "internal":
+                g[1, 1] = 2 * self.sigma2fwhm / np.sqrt(self.maxwidth**2 - (self.sigma2fwhm * pars[1]) ** 2)
+            elif out_format == "pwa":
+                g[1, 1] = self.sigma2fwhm
+            else:
+                raise ValueError("Argument 'out_format' must be one of %s." % self.parformats)
+        else:
+            raise ValueError("Argument 'in_format' must be one of %s." % self.parformats)
+
+        return g
+
     def _transform_parametersraw(self, pars, in_format, out_format):
         """Convert parameter values from one format to another.
 
-- 
2.43.0


From 9d4bf522a0a3e5e235fd1080a0203329a61b2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 15/66] fix: conversion gradients account for the sign of a
 negative area

---
 src/diffpy/srmise/peaks/gaussian.py      | 9 ++++++---
 src/diffpy/srmise/peaks/gaussianoverr.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 92bbe26..82eae15 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -320,15 +320,18 @@ class Gaussian(PeakFunction):
         pwa: [position, full width at half maximum, area]
         mu_sigma_area: [mu, sigma, area]
         """
-        # With these three formats only the width-related parameter changes.
-        # Therefore the gradient matrix is the identity matrix with the possible
-        # exception of the element at [1,1].
+        # With these three formats only the width-related parameter changes,
+        # apart from the sign of a negative internal area.  Therefore the gradient
+        # matrix is the identity matrix with the possible exception of the
+        # elements at [1,1] and [2,2].
         g = np.identity(self.npars)
 
         if in_format == out_format:
             return
 
         if in_format == "internal":
+            if pars[2] < 0:
+                g[2, 2] = -1.0
             if out_format == "pwa":
                 g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
             elif out_format == "mu_sigma_area":
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index b402b9d..db77a0b 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -332,15 +332,18 @@ class GaussianOverR(PeakFunction):
         pwa: [position, full width at half maximum, area]
         mu_sigma_area: [mu, sigma, area]
         """
-        # With these three formats only the width-related parameter changes.
-        # Therefore the gradient matrix is the identity matrix with the possible
-        # exception of the element at [1,1].
+        # With these three formats only the width-related parameter changes,
+        # apart from the sign of a negative internal area.  Therefore the gradient
+        # matrix is the identity matrix with the possible exception of the
+        # elements at [1,1] and [2,2].
         g = np.identity(self.npars)
 
         if in_format == out_format:
             return
 
         if in_format == "internal":
+            if pars[2] < 0:
+                g[2, 2] = -1.0
             if out_format == "pwa":
                 g[1, 1] = self.maxwidth / (2 * np.sqrt(2)) * np.cos(pars[1]) / np.sqrt(1 + np.sin(pars[1]))
             elif out_format == "mu_sigma_area":
-- 
2.43.0


From b89d4e05f5042305d0d3d139c7797fdc36e90286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 16/66] fix: maximum of a Gaussian/r peak at a negative
 position

---
 src/diffpy/srmise/peaks/gaussianoverr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index db77a0b..f089ce9 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -513,7 +513,8 @@ class GaussianOverR(PeakFunction):
             emsg = "".join(["No local maximum with parameters\n", str(pars)])
             raise ValueError(emsg)
 
-        rmax = 0.5 * (tpars[0] + np.sqrt(tpars[0] ** 2 - 4 * tpars[1] ** 2))
+        # The local maximum is the extremum further from r=0.
+        rmax = 0.5 * (tpars[0] + np.sign(tpars[0]) * np.sqrt(tpars[0] ** 2 - 4 * tpars[1] ** 2))
         ymax = self._valueraw(pars, rmax)
         return np.array([rmax, ymax])
 
-- 
2.43.0


From 65fb7395cbc5f3739658e98b08cd280aff4f7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 17/66] fix: scaling a Gaussian where that is impossible fails
 instead of returning invalid parameters

---
 src/diffpy/srmise/peaks/gaussian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 82eae15..262e034 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -227,8 +227,14 @@ class Gaussian(PeakFunction):
 
         # the semi-nasty algebra reduces to something nice
         mu2 = mu1
-        area2 = np.sqrt(area1**2 / (2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1))
-        sigma2 = sigma1 * area2 / area1
+        # square of the factor common to sigma and area
+        factor = 1.0 / (2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1)
+        # No Gaussian with this maximum has the scaled value at x.
+        if not 0 < factor < np.inf:
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
+        area2 = area1 * np.sqrt(factor)
+        sigma2 = sigma1 * np.sqrt(factor)
 
         tpars[0] = mu2
         tpars[1] = sigma2
-- 
2.43.0


From 34007c4f2ce570298605d7f1468a985b7260e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 18/66] fix: scaling a Gaussian/r peak where that is impossible
 fails instead of returning invalid parameters

---
 src/diffpy/srmise/peaks/gaussianoverr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index f089ce9..0aad542 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -235,7 +235,12 @@ class GaussianOverR(PeakFunction):
         log_ratio_prime = np.log(ratio) + (x - rmax) * (x - 2 * mu1 + rmax) / (2 * sigma1**2)
 
         # the semi-nasty algebra reduces to something nice
-        sigma2 = np.sqrt(0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime))
+        sigma2sq = 0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime)
+        # No peak with its maximum at rmax (rather than a minimum) has the scaled value at x.
+        if not 0 < sigma2sq < rmax**2:
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
+        sigma2 = np.sqrt(sigma2sq)
         mu2 = (sigma2**2 + rmax**2) / rmax
         area2 = (
             area1
-- 
2.43.0


From 0e3fab43e24be4a789d18aa9e603bbf36cf11810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 19/66] fix: Peaks.match_at scales the remaining peaks, and
 does not replace peaks by copies

---
 src/diffpy/srmise/peaks/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..c8e4207 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -188,17 +188,19 @@ class Peaks(ModelParts):
 
             # Second attempt at scaling peaks.
             if not all_scaled and fixed_height < y and fixed_height < height:
-                self[:] = orig[:]
+                for peak, o in zip(self, orig):
+                    peak.pars = o.pars.copy()
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
                         any_scaled = peak.scale_at(x, scale) or any_scaled
         except Exception as e:
             logger.debug("An exception prevented matching -- %s", e)
-            self[:] = orig[:]
+            for peak, o in zip(self, orig):
+                peak.pars = o.pars
             return False
         return any_scaled
 
-- 
2.43.0


From 52762cc5d69e13854c5958e9f09b2f2eeabe3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 20/66] fix: report a failing fit without derivatives as
 SrMiseFitError

---
 src/diffpy/srmise/modelparts.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d150f4d..6e511d1 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -145,14 +145,17 @@ class ModelParts(list):
             # before leastsq().  This exception will either occur almost never
             # or extremely frequently, and the extra evaluations will add up.
             logger.info("One or more functions do not define residual_jacobian().")
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
+            try:
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
+            except Exception as err:
+                raise SrMiseFitError("Unexpected error in modelparts.fit().  Original exception: %r" % err)
         except Exception:
             # Sadly, KeyboardInterrupt, etc. is reraised as minpack.error
             # Not much I can do about that, though.
-- 
2.43.0


From cbf878df592fad76c88665b58dd00f5a0e12759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 21/66] fix: interpolated baselines evaluate on an empty range

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..2fbf078 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -222,7 +222,7 @@ class FromSequence(BaselineFunction):
                     [self.minx, self.maxx],
                 )
         except (IndexError, TypeError):
-            if r < self.minx or r > self.maxx:
+            if np.any(r < self.minx) or np.any(r > self.maxx):
                 logger.warning(
                     "Warning: Evaluating interpolating function at %s, outside safe range of %s.",
                     r,
-- 
2.43.0


From cd67e0d40927e013bbd77f1227a32a2da25f69dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 22/66] fix: refuse a covariance that is not two-dimensional

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..71cd062 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -92,7 +92,7 @@ class ModelCovariance(object):
         """
         tempcov = np.array(cov)
 
-        if tempcov.shape[0] != tempcov.shape[1]:
+        if tempcov.ndim != 2 or tempcov.shape[0] != tempcov.shape[1]:
             emsg = "Parameter 'cov' must be a square matrix."
             raise ValueError(emsg)
 
-- 
2.43.0


From 17932a2fa2d048e90dab4855c838f060765c0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 23/66] fix: forget the parameters of the previous model in
 setcovariance

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 71cd062..9a5f266 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -110,6 +110,9 @@ class ModelCovariance(object):
         free = np.concatenate([m.free for m in self.model]).ravel()
 
         # Create maps from model parts to index of corresponding covariance matrix row/column
+        self.mmap = {}
+        self.pmap = {}
+        self.ipmap = {}
         n = 0
         for i, m in enumerate(model):
             self.mmap[i] = n + np.arange(m.npars(True))
-- 
2.43.0


From a943d878f201d1448c3db31981c06004a22badeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 24/66] fix: accept nested sequences for the free-parameter
 covariance

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 9a5f266..8ac82ea 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -136,7 +136,7 @@ class ModelCovariance(object):
                 if free[i]:
                     for j in range(n):
                         if free[j]:
-                            self.cov[i, j] = cov[rawi, rawj]
+                            self.cov[i, j] = tempcov[rawi, rawj]
                             rawj += 1
                     rawi += 1
 
-- 
2.43.0


From ae0cc608c552ae1af9c8a63c037d035f08ebc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 25/66] fix: propagate the covariance as G V G-transpose

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 8ac82ea..162b11b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -226,7 +226,7 @@ class ModelCovariance(object):
             g[start:stop, start:stop] = subg
 
         g = np.matrix(g)
-        self.cov = np.array(g * np.matrix(self.cov).transpose() * g)
+        self.cov = np.array(g * np.matrix(self.cov) * g.transpose())
 
         return
 
-- 
2.43.0


From 311a1647f5f8aa46436e506a0b3fb347158d607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 26/66] fix: transform the covariance of the baseline alone

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 162b11b..a9f176c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -176,7 +176,7 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
-- 
2.43.0


From 00c737b743e2d87ed07c7985b97e00d3285dff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 27/66] fix: transform covariances of models with a part
 without parameters

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a9f176c..67d0b44 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -194,6 +194,9 @@ class ModelCovariance(object):
         g = np.identity(self.cov.shape[0])
 
         for i in parts:
+            if len(self.mmap[i]) == 0:
+                # A part without parameters has nothing to transform
+                continue
             start = self.mmap[i][0]
             stop = self.mmap[i][-1] + 1
             p = self.model[i]
-- 
2.43.0


From e4ae0dc4bfee8e07e411fa4ac0ac5f65989d62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 28/66] fix: joining clusters drops peaks on the wrong side of
 the border

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 67d0b44..1baa636 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -859,7 +859,7 @@ class ModelCluster(object):
                 if new_model[i]["position"] == border_x and i > 0 and new_model[i - 1]["position"] == border_x:
                     del new_model[i]
                 elif new_ids[i] != i:
-                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) and (
+                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) or (
                         new_model[i]["position"] < border_x and new_ids[i] >= len(left.model)
                     ):
                         del new_model[i]
-- 
2.43.0


From d74140cc62cb6b9cf2adc1ecc43b3506af5f1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 29/66] fix: the slice of a cluster without an explicit one can
 be changed

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 1baa636..0b10e05 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -505,7 +505,7 @@ class ModelCluster(object):
             # Sets self.slice, self.size, self.r_cluster, self.y_cluster,
             # and self.error_cluster.
             if args[4] is None:
-                self.change_slice(slice(len(self.r_data)))
+                self.change_slice(slice(0, len(self.r_data)))
             else:
                 self.change_slice(args[4])
 
-- 
2.43.0


From 2b441f340cede372ebd2b156512f248239800e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 30/66] fix: pruning ends when fitting has removed the last
 removable peak

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0b10e05..4246b73 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1534,6 +1534,9 @@ class ModelCluster(object):
                     check_models.append(best_model)
                 else:
                     check_models.append(None)
+            if check_models.count(None) == len(check_models):
+                # Fitting has cleaned away the last removable peak
+                break
 
             # Check the ith model
             # Use orig_model for initial parameters of each fit, but best_model for the parameters
-- 
2.43.0


From bf6d1ef4d654b91efa7eb8ad62c285dcfd77b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 31/66] fix: peaks stay in position order when their heights
 are matched

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 4246b73..c017997 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -866,6 +866,9 @@ class ModelCluster(object):
 
             # Likely to improve any future fitting
             new_model.match_at(border_x, border_y)
+
+            # Scaling may have moved some positions slightly.
+            new_model.sort(key="position")
         elif len(m1.model) > 0:
             new_model = m1.model.copy()
         else:  # Only m2 has entries, or both are empty
-- 
2.43.0


From a615d693932dc2e22067a067035624e73b3ac8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 32/66] fix: pruning leaves the peaks in position order when
 the final fit fails

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c017997..5df6160 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1623,6 +1623,8 @@ class ModelCluster(object):
                 bmtemp = best_model[:lo]
                 bmtemp.extend(check_models[newbest_qualidx])
                 bmtemp.extend(best_model[hi:])
+                # Fitting may have moved peaks past each other.
+                bmtemp.sort(key="position")
                 prune_mc.model = bmtemp
                 prune_mc.y_data = y_nobl
                 prune_mc.y_cluster = y_nobl
-- 
2.43.0


From 18f508468e66683822038ac45bb94d53d3c0035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 33/66] fix: references outside the list of functions are
 refused with ValueError

---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..159b2f1 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if not 0 <= idx < len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..a73d12e 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if not 0 <= idx < len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index c8e4207..c700ccf 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -299,7 +299,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if not 0 <= idx < len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From b705fb938d8cf8adc4f3366f0227625f4a786ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 34/66] fix: a baseline read from a file keeps the first
 character of its data

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 2fbf078..f8e84ce 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From b30a5a7f8e2561b164aba655bb6cbf44e844162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 35/66] fix: saved extractions and traces can be read from file

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 src/diffpy/srmise/srmiselog.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..6d48011 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -316,7 +316,7 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
+            self.readstr(open(filename, "r").read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..8ea4fa9 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -247,7 +247,7 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
+            return self.readstr(open(filename, "r").read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
-- 
2.43.0


From f2584bf348ba29f7aaefeca1c510f2e726fc03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 36/66] fix: saved names of model evaluators can be looked up
 when reading

---
 src/diffpy/srmise/modelevaluators/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..be0297c 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,6 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+
+from diffpy.srmise.modelevaluators.aic import AIC  # noqa: F401
+from diffpy.srmise.modelevaluators.aicc import AICc  # noqa: F401
-- 
2.43.0


From e6ce6b8eb077cc3ed1e0d8a1562375e0349cad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 37/66] fix: an unset model evaluator can be read back

---
 src/diffpy/srmise/modelcluster.py   | 3 ++-
 src/diffpy/srmise/peakextraction.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 5df6160..a26d9d9 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -720,7 +720,8 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        evaluator = res.groups()[0].strip()
+        error_method = None if evaluator == "None" else getattr(module, evaluator)
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 6d48011..fbdb13a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -465,7 +465,8 @@ class PeakExtraction(object):
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        evaluator = res.groups()[0].strip()
+        self.error_method = None if evaluator == "None" else getattr(module, evaluator)
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
-- 
2.43.0


From 3a7304bc1825da315e6b44f58e7f7670415df9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 38/66] fix: the column of effective uncertainties is
 recognized when reading

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index fbdb13a..2a2843f 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -386,7 +386,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From f7b8927b48bd7965ee3437ef0fd21bc184f75d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 39/66] fix: an extraction without further metadata can be
 written and read

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 2a2843f..44b9370 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -708,10 +708,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 59ea5802a66e13bebfcf6b9807670956a13becf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 40/66] fix: a wrong number of data fields is refused when
 reading an extraction

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 44b9370..59f4fe8 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -509,6 +509,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-- 
2.43.0


From 1ec2072fc1b851709fe693b04ed9fcde4e42ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 41/66] fix: an unset clustering resolution can be written and
 read back

---
 src/diffpy/srmise/peakextraction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 59f4fe8..47e2aea 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -459,7 +459,7 @@ class PeakExtraction(object):
         rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
         regexp = r"\bcres *= *(%(f)s)\b" % rx
         res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        self.cres = None if res is None else float(res.groups()[0])
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
@@ -647,7 +647,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%g" % self.cres)
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
-- 
2.43.0


From ccefaf3309ed7118d8f9ea50681986c6e2617297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 42/66] fix: a model cluster without a baseline can be written

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a26d9d9..0c30d4b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -560,7 +560,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
-- 
2.43.0


From 1ab7d255a6059f18eff3c17f13204a919b317555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 43/66] fix: stability results saved with a baseline to be
 estimated can be loaded

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..4e902ae 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From 035e6b08510574840e434afa47023553b30aef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 44/66] fix: a trace is read back with its own counter and
 recursion level

---
 src/diffpy/srmise/srmiselog.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 8ea4fa9..3fcd516 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -296,14 +296,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -311,8 +311,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 1d1187113a750f19ff4d60c14c9a26d0b742b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 45/66] fix: traces of clusters with numpy indices can be read
 back

---
 src/diffpy/srmise/srmiselog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 3fcd516..009d19e 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np  # noqa: F401 -- evaluated slices may contain numpy integers
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
-- 
2.43.0


From 5e35937929e892bfe9685c6fec3ba7f28c5c3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 46/66] fix: a model cluster without peak functions can be
 written

---
 src/diffpy/srmise/modelcluster.py   | 3 ++-
 src/diffpy/srmise/peakextraction.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0c30d4b..2c9a14a 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -551,7 +551,8 @@ class ModelCluster(object):
             writepf = False
         else:
             pfbaselist = [p.owner() for p in self.model]
-            pfbaselist.extend(self.peak_funcs)
+            if self.peak_funcs is not None:
+                pfbaselist.extend(self.peak_funcs)
             pfbaselist = list(set(pfbaselist))
             pfbaselist = BaseFunction.safefunctionlist(pfbaselist)
             writepf = True
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 47e2aea..37ad2cc 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -599,7 +599,8 @@ class PeakExtraction(object):
             else:  # should be a ModelPart
                 allbf.append(self.baseline.owner())
         if self.extracted is not None:
-            allpf.extend(self.extracted.peak_funcs)
+            if self.extracted.peak_funcs is not None:
+                allpf.extend(self.extracted.peak_funcs)
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
-- 
2.43.0


From 378b344a8e27c77e2941685762fdcea8f93ad671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 47/66] fix: the lowest output level lets every message through

---
 src/diffpy/srmise/srmiselog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 009d19e..100096c 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -106,7 +106,7 @@ def setfilelevel(level):
         level = LEVELS.get(level, level)
         fh.setLevel(level)
         if level < logger.getEffectiveLevel():
-            logger.setLevel(level)
+            logger.setLevel(level or 1)  # level 0 would defer to the root logger
     else:
         emsg = "File handler does not exist, cannot set its level."
         raise SrMiseLogError(emsg)
@@ -123,7 +123,7 @@ def setlevel(level):
     level = LEVELS.get(level, level)
     ch.setLevel(level)
     if level < logger.getEffectiveLevel():
-        logger.setLevel(level)
+        logger.setLevel(level or 1)  # level 0 would defer to the root logger
 
 
 def liveplotting(lp, w=False):
-- 
2.43.0


From 8cf34cad9297a6d7f02aafb706b2e0001c824d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 48/66] fix: damaged data of a model cluster are reported with
 a readable message

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 2c9a14a..121db54 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -770,7 +770,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
-- 
2.43.0


From ce1ed936a7a2568a067a2ac968d0cd5774728e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:20 +0000
Subject: [PATCH 49/66] fix: adding external peaks leaves the data of copies of
 the cluster alone

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 121db54..ac45f48 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -533,7 +533,7 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
     def writestr(self, **kwds):
-- 
2.43.0


From fc90809bf4df4c77d6453f88244bc48720ed68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:20 +0000
Subject: [PATCH 50/66] fix: a model cluster without peak functions can be
 copied

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index ac45f48..7fe3b5e 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -489,7 +489,7 @@ class ModelCluster(object):
             self.y_error = orig.y_error
             self.change_slice(slice(s.start, s.stop, s.step))
             self.error_method = orig.error_method
-            self.peak_funcs = list(orig.peak_funcs)
+            self.peak_funcs = None if orig.peak_funcs is None else list(orig.peak_funcs)
             return
         else:  # Explicit creation
             if model is None:
-- 
2.43.0


From 12a975fc2cb3ba354b2916f8c50b548688fe9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 51/66] fix: values that are no indices are refused with a
 value error

---
 src/diffpy/srmise/basefunction.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 159b2f1..03e35a7 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -118,16 +118,19 @@ class BaseFunction(object):
                 emsg = "Argument parameterdict's keys must be strings."
                 raise ValueError(emsg)
 
+        # Check if the sorted values match the sequence from 0 to npars-1
+        emsg = (
+            "Argument parameterdict's values must uniquely specify "
+            + "the index of each parameter defined by its keys."
+        )
         # Convert values to list and sort
         vals = list(self.parameterdict.values())
-        vals.sort()
-
-        # Check if the sorted values match the sequence from 0 to npars-1
+        try:
+            vals.sort()
+        except TypeError:
+            # values which cannot be ordered are not indices
+            raise ValueError(emsg)
         if vals != list(range(self.npars)):
-            emsg = (
-                "Argument parameterdict's values must uniquely specify "
-                + "the index of each parameter defined by its keys."
-            )
             raise ValueError(emsg)
 
         self.parformats = parformats
-- 
2.43.0


From 8b84fe1fb4ce86dbc4be7c80a48c91d0b602ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 52/66] fix: half-open ranges may be given as tuples

---
 src/diffpy/srmise/peakextraction.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 37ad2cc..94fe019 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -221,11 +221,13 @@ class PeakExtraction(object):
 
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
-        else:
-            if self.rng[0] is None:
-                self.rng[0] = self.x[0]
-            if self.rng[1] is None:
-                self.rng[1] = self.x[-1]
+        elif self.rng[0] is None or self.rng[1] is None:
+            # do not assume the sequence given is mutable
+            low, high = self.rng
+            self.rng = [
+                self.x[0] if low is None else low,
+                self.x[-1] if high is None else high,
+            ]
 
         # Set baseline where the type is given, but parameters must be estimated.
         if hasattr(self.baseline, "estimate_parameters"):
-- 
2.43.0


From 9200852a254bacd617132e0ece281266278a7a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 53/66] fix: a range beyond the data selects no points

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 94fe019..8988d13 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -730,10 +730,10 @@ class PeakExtraction(object):
         object.
         """
         low_idx = 0
-        while self.x[low_idx] < max(self.x[0], self.rng[0]):
+        while low_idx < len(self.x) and self.x[low_idx] < max(self.x[0], self.rng[0]):
             low_idx += 1
         hi_idx = len(self.x)
-        while self.x[hi_idx - 1] > min(self.x[-1], self.rng[1]):
+        while hi_idx > low_idx and self.x[hi_idx - 1] > min(self.x[-1], self.rng[1]):
             hi_idx -= 1
         return slice(low_idx, hi_idx)
 
-- 
2.43.0


From 18ea68612a9b24853a91a8a777dd5a3f4d719d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 54/66] fix: qmax determined from earlier data is forgotten
 with them

---
 src/diffpy/srmise/pdfpeakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..dccb48e 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -103,6 +103,7 @@ class PDFPeakExtraction(PeakExtraction):
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
+            self.qmax_fromdata = None
             logger.info("Could not determine qmax from the data.")
 
     def clear(self):
-- 
2.43.0


From 4881beb401fa9678298cce2ca6a29298e5c72ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:22 +0000
Subject: [PATCH 55/66] fix: saved statistics of several models can be loaded

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..4e00647 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From e5b6f154a3e4781b95626a6528f5f1ce26e0d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:22 +0000
Subject: [PATCH 56/66] fix: the best uncertainties of a class are among those
 asked about

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 4e00647..36c6af0 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -544,7 +544,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From 5f6c5178ee14162314cdb695e709afd71574f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:22 +0000
Subject: [PATCH 57/66] fix: the uncertainty itself can be asked for under its
 documented name

---
 src/diffpy/srmise/multimodelselection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 36c6af0..a2ce035 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -918,7 +918,8 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dG": lambda x, **kwds: x,
+            "dg": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From a7cc7c46481528dbc35c82848f33134e94f91635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 58/66] fix: a single point without extension is evaluated
 instead of dividing by zero

---
 src/diffpy/srmise/peaks/terminationripples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 01af7b3..01587af 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -379,7 +379,7 @@ class TerminationRipples(PeakFunction):
         """
         padlen = int(2 ** np.ceil(np.log2(len(sequence))))
         padseq = fp.fft(sequence, padlen)
-        dq = 2 * np.pi / ((padlen - 1) * delta)
+        dq = 2 * np.pi / (max(padlen - 1, 1) * delta)
         lowidx = int(np.ceil(self.qmax / dq))
         hiidx = padlen + 1 - lowidx
 
-- 
2.43.0


From 758ffdac93f5fb3cf5d6da6950a996d99c7c1467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 59/66] fix: uncertainties written as infinity or too large for
 a float are not valid

---
 src/diffpy/srmise/pdfdataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..57e7728 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -322,13 +322,13 @@ class PDFDataSet(PDFComponent):
                 has_drobs = has_drobs and len(v) > 2 and not inf_or_nan.match(v[2])
                 if has_drobs:
                     v2 = float(v[2])
-                    has_drobs = v2 > 0.0
+                    has_drobs = 0.0 < v2 < float("inf")
                     self.drobs.append(v2)
                 # dGobs is valid if all values are defined and positive
                 has_dGobs = has_dGobs and len(v) > 3 and not inf_or_nan.match(v[3])
                 if has_dGobs:
                     v3 = float(v[3])
-                    has_dGobs = v3 > 0.0
+                    has_dGobs = 0.0 < v3 < float("inf")
                     self.dGobs.append(v3)
             if not has_drobs:
                 self.drobs = len(self.robs) * [0.0]
-- 
2.43.0


From fbf70496035fbec2db60c5f4b3f020da583e6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 60/66] fix: an explicit scattering type is not overridden by
 the name of the user

---
 src/diffpy/srmise/pdfdataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 57e7728..2e94f68 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -256,7 +256,11 @@ class PDFDataSet(PDFComponent):
 
         # parse header
         # stype
-        if re.search("(x-?ray|PDFgetX)", header, re.I):
+        res = re.search(r"^stype *= *([XN])\b", header, re.M)
+        if res:
+            # other words, such as the user's name, do not matter then
+            self.stype = res.group(1)
+        elif re.search("(x-?ray|PDFgetX)", header, re.I):
             self.stype = "X"
         elif re.search("(neutron|PDFgetN)", header, re.I):
             self.stype = "N"
-- 
2.43.0


From e1a409fd4e9f35a9a6041e3a80ba39ae2486bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 61/66] fix: copying a data set to itself does not clear it

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 2e94f68..8228347 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -429,7 +429,7 @@ class PDFDataSet(PDFComponent):
         """
         if other is None:
             other = PDFDataSet(self.name)
-        elif isinstance(other, PDFDataSet):
+        elif isinstance(other, PDFDataSet) and other is not self:
             other.clear()
         # some attributes can be assigned, e.g., robs, Gobs, drobs, dGobs are
         # constant so they can be shared between copies.
-- 
2.43.0


From 7ec20accd9cdc893f1036a9d652c2618f28f7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 62/66] fix: a copy of a data set has its particle diameter

---
 src/diffpy/srmise/pdfdataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 8228347..51df564 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -442,6 +442,7 @@ class PDFDataSet(PDFComponent):
             "qmax",
             "qdamp",
             "qbroad",
+            "spdiameter",
             "dscale",
             "rmin",
             "rmax",
-- 
2.43.0


From 5b7e76b12f2a9a9d2bfdf610e2a8c094be8e1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 63/66] fix: peaks at a boundary are looked for at the boundary
 point, not at the index of its cluster

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 8988d13..63f7248 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -966,8 +966,8 @@ class PeakExtraction(object):
                 full_cluster.fit(True)
 
                 # Estimate coordinate where clusters combine.
-                border_x = x[step.lastcluster_idx]
-                border_y = y[step.lastcluster_idx]
+                border_x = x[step.lastpoint_idx]
+                border_y = y[step.lastpoint_idx]
 
                 # Determine neighborhood appropriate for fitting (no larger than combined clusters)
                 if len(full_cluster.model) > 0:
-- 
2.43.0


From e39b5b09ac88ffe9f6a44deac1ac54a80069d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 64/66] fix: extraction does not change the baseline it was
 given

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 63f7248..32b1053 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -840,7 +840,7 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+        bl = self.baseline.copy()  # the final fit must not change the setting
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
-- 
2.43.0


From a73449149acd260915d879e97b52cc4f266bde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 65/66] fix: fitting does not change the initial peaks and
 baseline it was given

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 32b1053..fa9fd15 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -1390,8 +1390,8 @@ class PeakExtraction(object):
 
         # Set up ModelCluster
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From a4de77fd0ffe0fcae2bd36769035f2e68f10dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:46 +0000
Subject: [PATCH 66/66] fix: an extraction that fails leaves the trace counters
 as they were

---
 src/diffpy/srmise/modelcluster.py      |  9 +++++++--
 src/diffpy/srmise/pdfpeakextraction.py | 13 +++++++++----
 src/diffpy/srmise/peakextraction.py    | 14 ++++++++++----
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 7fe3b5e..af31d2e 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1491,7 +1491,14 @@ class ModelCluster(object):
 
         tracer = srmiselog.tracer
         tracer.pushc()
+        try:
+            self._prune(tracer)
+        finally:
+            # also when interrupted, or the next trace would be misnumbered
+            tracer.popc()
 
+    def _prune(self, tracer):
+        """Perform the pruning traced by prune."""
         y_nobl = self.y_cluster - self.valuebl()
         prune_mc = ModelCluster(
             None,
@@ -1664,8 +1671,6 @@ class ModelCluster(object):
         ]
         logger.info("\n".join(msg), self.model, self.quality().stat)
 
-        tracer.popc()
-
         return
 
 
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index dccb48e..90cdecf 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -357,10 +357,17 @@ class PDFPeakExtraction(PeakExtraction):
         # TODO: Add extraction variables for how I control resampling.  Add these to
         # newvar, clean, defaultvar, etc.  In most cases the default are just fine.
 
-        self.clearcalc()
-
         tracer = srmiselog.tracer
         tracer.pushc()
+        try:
+            return self._extract(tracer)
+        finally:
+            # also when interrupted, or the next trace would be misnumbered
+            tracer.popc()
+
+    def _extract(self, tracer):
+        """Perform the extraction traced by extract."""
+        self.clearcalc()
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
@@ -552,8 +559,6 @@ class PDFPeakExtraction(PeakExtraction):
         self.extraction_type = "extract"
         self.extracted = ext
 
-        tracer.popc()
-
         return cov
 
     def fit(self, **kwds):
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index fa9fd15..47051e4 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -833,10 +833,19 @@ class PeakExtraction(object):
         ----------
         recursion_depth: (1) Tracks recursion with extract_single.
         """
-        self.clearcalc()
         tracer = srmiselog.tracer
         tracer.pushc()
         tracer.pushr()
+        try:
+            return self._extract_single(tracer, recursion_depth)
+        finally:
+            # also when interrupted, or the next trace would be misnumbered
+            tracer.popc()
+            tracer.popr()
+
+    def _extract_single(self, tracer, recursion_depth):
+        """Perform the extraction traced by extract_single."""
+        self.clearcalc()
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
@@ -1366,9 +1375,6 @@ class PeakExtraction(object):
         self.extraction_type = "extract_single"
         self.extracted = mclusters[0]
 
-        tracer.popc()
-        tracer.popr()
-
         if recursion_depth == 1:
             return cov
 
-- 
2.43.0

