From e7137abc05556498bc1852ac1062bd8843c9df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:34 +0000
Subject: [PATCH 01/34] fix: scalar phi12 tracking read one value past its
 phase array

The per-turn phi12 array built for a scalar phi12 held nturns values, but
the tracking loop reads index nturns on the last turn.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..23d9475 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,13 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // one value per turn, including the initial turn and the last one
+    const int n_values = nturns + 1;
+    real_t *ptr_phi12 = new real_t[n_values];
+    std::fill_n(ptr_phi12, n_values, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({n_values}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From aa1969f24644ee90d3dbba445717209b47173b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:01 +0000
Subject: [PATCH 02/34] fix: recreated waterfall kept the previous iteration's
 projection

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..f2bae26 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -8,6 +8,7 @@
  * Meant to be called by a Python/C++ wrapper.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <stdexcept>
@@ -402,6 +403,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, 0);
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +423,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, 0);
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
@@ -498,6 +501,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, 0);
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -518,6 +522,7 @@ void reconstruct_multi(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, 0);
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From 4578b5b385fefb1129459b3929079a51401ef381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 03/34] fix: loop index of the reciprocal particle count was
 shared between threads

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index f2bae26..09b303c 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -274,11 +274,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -305,11 +304,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
-- 
2.43.0


From 44b92995f3f479d5bd9b7f83ec4801b51a791f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:29 +0000
Subject: [PATCH 04/34] fix: threads of the multi-bunch routines updated the
 same bins and weights

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 09b303c..c90df9f 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -38,7 +38,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -73,7 +73,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -242,7 +241,6 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int ncenters) {
 
     int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
@@ -336,16 +334,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                const int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From da4f81b80f6701eef148ae849b00f7e5c0575fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 05/34] fix: multi-bunch discrepancy covered the first profile
 only and summed over bunches

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index c90df9f..bdf8c78 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -158,13 +158,14 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int ncenter) {
 
     int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
+        real_t squared_sum = 0;
         for (int i = 0; i < all_bins; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            const int bin = i % nbins;
+            if (bin < cutright[c] && bin >= cutleft[c])
             {
                 squared_sum += std::pow(diff_prof[i], 2.0);
             }
-- 
2.43.0


From ffd11cf5bab5c2ae3b904d71339e033ab4c930ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:26 +0000
Subject: [PATCH 06/34] fix: multi-bunch weights were clipped and summed for
 the first bunch only

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index bdf8c78..c7f53ca 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -484,9 +484,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart * ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart * ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -510,7 +510,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart * ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 61a5e40ba75d09ceb03229caf6658666dff7c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:21 +0000
Subject: [PATCH 07/34] fix: multi-bunch reconstruction used bins outside the
 measured profile

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 12 +++++++-----
 longitudinal_tomography/cpp_routines/reconstruct.h   |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index c7f53ca..b796389 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -68,6 +68,7 @@ template <typename real_t>
 void project_multi(real_t *flat_rec,                     // inn/out
                    int *flat_points,        // inn
                    const real_t *weights,   // inn
+                   const bool *mask,    //inn
                    const int *centers,  //inn
                    const int npart,
                    const int nprof,
@@ -79,7 +80,7 @@ void project_multi(real_t *flat_rec,                     // inn/out
         {
             for (int j = 0; j < nprof; j++)
             {
-                flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
+                if (mask[i + c*npart]) flat_rec[flat_points[i*nprof + j] + centers[c]] += weights[i + c*npart];
             }
         }
     }
@@ -246,7 +247,8 @@ void count_particles_in_bin_multi(real_t *rparts,
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
                 bin = xpRound0[j * nprof + i] + centers[c];
-                rparts[bin + i * nbins] += 1;
+                if (bin >= 0 && bin < nbins)
+                    rparts[bin + i * nbins] += 1;
             }
         }
 
@@ -343,7 +345,7 @@ void create_mask(const int *xpRound0,       //inn
             for (int j = 0; j < nprof; j++)
             {
                 const int bin = xpRound0[i * nprof + j] + centers[c];
-                if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
+                if ((bin < cutleft[c]) || (bin >= cutright[c])) {mask[i + c*npart] = false;}
             }
         }
     }
@@ -497,7 +499,7 @@ void reconstruct_multi(real_t *weights,             // out
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
             std::fill_n(flat_rec, all_bins, 0);
-            project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
+            project_multi(flat_rec, flat_points, weights, mask, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
 
@@ -518,7 +520,7 @@ void reconstruct_multi(real_t *weights,             // out
 
         // Calculating final discrepancy
         std::fill_n(flat_rec, all_bins, 0);
-        project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
+        project_multi(flat_rec, flat_points, weights, mask, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
         find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
diff --git a/longitudinal_tomography/cpp_routines/reconstruct.h b/longitudinal_tomography/cpp_routines/reconstruct.h
index cfb7ee9..3c39403 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.h
+++ b/longitudinal_tomography/cpp_routines/reconstruct.h
@@ -47,6 +47,7 @@ template <typename real_t>
 void project_multi(real_t *flat_rec,
                               int *flat_points,
                               const real_t *weights,
+                              const bool *mask,
                               const int *centers,
                               const int npart,
                               const int nprof,
-- 
2.43.0


From 094fae5fa181c84adba3607c58e7ce26430e043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:41 +0000
Subject: [PATCH 08/34] fix: multi-bunch particle count read the coordinates
 transposed

---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 9d328dc14edaf9ef01757771d5f16af1e01b7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:31 +0000
Subject: [PATCH 09/34] fix: phase space image accepted particles outside of
 the image

---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..a50c015 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -22,13 +22,13 @@ template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
-        int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
-        phase_space[index] += weight[i];
+        }
+        phase_space[yp[i] + xp[i] * n_bins] += weight[i];
     }
 
     return phase_space;
-- 
2.43.0


From 44eed796b9312abf2142f1f060681569d7ed72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:50 +0000
Subject: [PATCH 10/34] fix: GPU reconstruction kept the previous iteration's
 projection

---
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 2 ++
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index a1f38a3..6c1b5ae 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -150,6 +150,7 @@ def reconstruct_cuda(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
+        flat_rec[:] = 0
         flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
@@ -162,6 +163,7 @@ def reconstruct_cuda(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
+    flat_rec[:] = 0
     flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index cbcd957..173f59e 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -121,6 +121,7 @@ def reconstruct_cupy(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
+        flat_rec[:] = 0
         flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
@@ -134,6 +135,7 @@ def reconstruct_cupy(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
+    flat_rec[:] = 0
     flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
-- 
2.43.0


From 0801eae16621fded729d9932a80641c19126596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:13 +0000
Subject: [PATCH 11/34] fix: cupy reciprocal ignored bins beyond the number of
 particles

---
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index 173f59e..28f2be1 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -75,7 +75,7 @@ def reciprocal_particles(xp: cp.ndarray,
                          n_particles: int) -> cp.ndarray:
 
     rparts = count_particles_in_bin(xp, n_profiles, n_particles, n_bins)
-    max_bin_val = max_2d(rparts, n_particles, n_profiles)
+    max_bin_val = max_2d(rparts, n_bins, n_profiles)
 
     # Setting 0's to 1's to avoid zero division
     rparts = cp.where(rparts == 0, 1, rparts)
-- 
2.43.0


From 64d5aaf4aa87469860d31568553bf1b12a284f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:51 +0000
Subject: [PATCH 12/34] fix: multi-bunch hybrid reconstruction projected
 particles outside of their bunch

---
 .../tomography/tomography_multibunch.py           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tomography/tomography_multibunch.py b/longitudinal_tomography/tomography/tomography_multibunch.py
index bc53fd3..aa5336e 100644
--- a/longitudinal_tomography/tomography/tomography_multibunch.py
+++ b/longitudinal_tomography/tomography/tomography_multibunch.py
@@ -112,7 +112,7 @@ class Tomography(TomographyABC):
 
         masks = []
         for cent, cut in zip(centers, cuts):
-            mask = np.all(((self.xp+cent)>cut[0])*((self.xp+cent)<cut[1]),
+            mask = np.all(((self.xp+cent)>=cut[0])*((self.xp+cent)<cut[1]),
                           axis=1)
             masks += mask.tolist()
         masks = np.array(masks)
@@ -151,9 +151,10 @@ class Tomography(TomographyABC):
             for j in range(nBunches):
                 start = j*self.nparts
                 stop = (j+1)*self.nparts
-                self.recreated = self._project(flat_points + centers[j],
-                                               weight[start:stop],
-                                               self.nparts)
+                mask = masks[start:stop]
+                self.recreated = self._project(flat_points[mask] + centers[j],
+                                               weight[start:stop][mask],
+                                               np.sum(mask))
 
                 self.full_recreated += self.recreated
 
@@ -183,8 +184,10 @@ class Tomography(TomographyABC):
         for j in range(nBunches):
             start = j*self.nparts
             stop = (j+1)*self.nparts
-            self.recreated = self._project(flat_points + centers[j],
-                                           weight[start:stop], self.nparts)
+            mask = masks[start:stop]
+            self.recreated = self._project(flat_points[mask] + centers[j],
+                                           weight[start:stop][mask],
+                                           np.sum(mask))
 
             self.full_recreated += self.recreated
         self.recreated = self._normalize_profiles(self.full_recreated)
-- 
2.43.0


From 5525be4ca5775bfc75fc2346e2d1b5a92cf0a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:37 +0000
Subject: [PATCH 13/34] fix: report profiles left without signal when
 normalising

---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 50cc241..767c287 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -226,7 +226,7 @@ class TomographyABC(ABC):
         return self._nprofs
 
     def _normalize_profiles(self, waterfall: np.ndarray) -> np.ndarray:
-        if not waterfall.any():
+        if not waterfall.any(axis=1).all():
             raise expt.WaterfallReducedToZero()
         waterfall /= conf.sum(waterfall, axis=1)[:, None]
         return waterfall
-- 
2.43.0


From 6c1b73cc1a5bf2ab02fbb84ab8be51a60f7406ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:00 +0000
Subject: [PATCH 14/34] fix: reject not-a-number particle coordinates

---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 767c287..7b9b079 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -177,7 +177,7 @@ class TomographyABC(ABC):
                       f'{value.shape[1]} profiles.'
                 raise expt.CoordinateImportError(msg)
 
-            if conf.any(value < 0) or conf.any(value >= self.nbins):
+            if not conf.all((value >= 0) & (value < self.nbins)):
                 msg = 'X coordinate of particles outside of image width'
                 raise expt.XPOutOfImageWidthError(msg)
 
-- 
2.43.0


From a70294ef7f2552d1d5edca34699bd30185c3bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:26 +0000
Subject: [PATCH 15/34] fix: reject particles outside of the image in
 array-module phase space

---
 longitudinal_tomography/python_routines/data_treatment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/python_routines/data_treatment.py b/longitudinal_tomography/python_routines/data_treatment.py
index 2468bc7..602b672 100644
--- a/longitudinal_tomography/python_routines/data_treatment.py
+++ b/longitudinal_tomography/python_routines/data_treatment.py
@@ -9,6 +9,9 @@ def make_phase_space(xp: conf.ndarray[conf.int32],
                      yp: conf.ndarray[conf.int32],
                      weights: conf.ndarray,
                      n_bins: int, result_cpu: bool = True) -> conf.ndarray:
+    if conf.any((xp < 0) | (xp >= n_bins) | (yp < 0) | (yp >= n_bins)):
+        raise IndexError('Index out of bounds')
+
     index = yp + xp * n_bins
 
     phase_space = conf.zeros(n_bins**2)
-- 
2.43.0


From 065c6ada429fa94bb06216f89f676e389c4de2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:54 +0000
Subject: [PATCH 16/34] fix: shift rec_prof only by the profiles removed in
 front of it

---
 longitudinal_tomography/data/pre_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 1450080..b06d2a7 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -289,7 +289,7 @@ def filter_profiles(waterfall: Iterable[float], xp: Iterable[float] = None,
         Tracked and binned particles of shape (n_particles, n_profiles)
     rec_prof: int
         Reconstruction profile. The profile will be shifted by the number of
-        removed profiles.
+        profiles removed in front of it.
 
     Returns
     -------
@@ -319,7 +319,8 @@ def filter_profiles(waterfall: Iterable[float], xp: Iterable[float] = None,
 
         output.append(good_yp)
     if rec_prof is not None:
-        shift = len(waterfall) - len(good_waterfall)
+        # Only the profiles removed in front of rec_prof change its index.
+        shift = int(np.sum(~good_frames[:rec_prof]))
         shifted_rec_prof = rec_prof - shift
 
         if shifted_rec_prof < 0:
-- 
2.43.0


From 3e9e32591c31b16825bae3f2e616081d07149027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:18 +0000
Subject: [PATCH 17/34] fix: report a baseline percentage that covers no bin

---
 longitudinal_tomography/compat/fortran.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/compat/fortran.py b/longitudinal_tomography/compat/fortran.py
index 780d9fa..3f4a103 100644
--- a/longitudinal_tomography/compat/fortran.py
+++ b/longitudinal_tomography/compat/fortran.py
@@ -260,7 +260,8 @@ def calc_baseline(waterfall: np.ndarray, ref_prof: int,
     Raises
     ------
     InputError: Exception
-        Raised if percentage is not given as a float between 0 and 1.
+        Raised if percentage is not given as a float between 0 and 1,
+        or if it covers less than one bin.
 
     """
     asrt.assert_inrange(percent, 'percent', 0.0, 1.0, expt.InputError,
@@ -270,4 +271,8 @@ def calc_baseline(waterfall: np.ndarray, ref_prof: int,
     nbins = len(waterfall[ref_prof])
     iend = int(percent * nbins)
 
+    if iend < 1:
+        raise expt.InputError(f'{percent} of a profile of {nbins} bins '
+                              f'contains no bin to create baseline from.')
+
     return np.sum(waterfall[ref_prof, :iend]) / np.floor(percent * nbins)
-- 
2.43.0


From a4731441197cd9d0f838c1c9e11eb853869b685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:42 +0000
Subject: [PATCH 18/34] fix: scale the only bin correctly when rebinning by
 more than the profile length

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index b06d2a7..a7888e3 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -412,7 +412,7 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     nprofs = data.shape[0]
     nbins = data.shape[1]
 
-    i0 = (int(nbins / rbn) - 1) * rbn
+    i0 = max(int(nbins / rbn) - 1, 0) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
     ans[:] *= rbn / (nbins - i0)
-- 
2.43.0


From acf289bcfd85fe70d33b2e433f32d38e02e1f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 19/34] fix: name the offending indices in errors of array
 assertions

---
 longitudinal_tomography/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/assertions.py b/longitudinal_tomography/assertions.py
index adae17c..1920e28 100644
--- a/longitudinal_tomography/assertions.py
+++ b/longitudinal_tomography/assertions.py
@@ -434,7 +434,7 @@ def _assert_log_arr(log_array_ok: np.ndarray, error_class: Type[Exception],
     if not log_array_ok.all():
         error_msg = '\nError found at index: ' \
                     '{}\n'.format(
-                        np.argwhere(log_array_ok is False).flatten()
+                        np.argwhere(~log_array_ok).flatten()
                         + index_offset
                     )
         raise error_class(error_msg + msg)
-- 
2.43.0


From 2365f275414d97320e31997bd2d23cdc0b1787ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:42 +0000
Subject: [PATCH 20/34] fix: synchronous point fit used the voltages of the
 wrong turn

---
 longitudinal_tomography/utils/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index b8a6a89..f9f3736 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -526,7 +526,7 @@ def phase_low_mch(phase: float, machine: 'MachineABC',
 
     return phase_low(phase, bunch_phaselength, machine.vrf1_at_turn,
                      machine.vrf2_at_turn, machine.phi0, machine.h_ratio,
-                     machine.phi12, rf_turn, machine.machine_ref_frame)
+                     machine.phi12, rf_turn, rf_turn)
 
 
 def dphase_low_mch(phase: float, machine: 'MachineABC',
-- 
2.43.0


From 401bd41ad77ceaa3aa43b801229d8d70f84a9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 21/34] fix: accept histograms and bins given as
 two-dimensional vectors

---
 longitudinal_tomography/data/post_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/post_process.py b/longitudinal_tomography/data/post_process.py
index 1b23c44..c3126a3 100644
--- a/longitudinal_tomography/data/post_process.py
+++ b/longitudinal_tomography/data/post_process.py
@@ -277,13 +277,13 @@ def _std_from_histogram(histogram: Iterable[float], bins: Iterable[float])\
     float :
         The standard deviation of the histogram
     """
-    asrt.assert_array_numel_equal((histogram, bins), ('histogram', 'bins'),
-                                  histogram.size)
-
     # guard against 2 dim arrays
     bins = bins.flatten()
     histogram = histogram.flatten()
 
+    asrt.assert_array_numel_equal((histogram, bins), ('histogram', 'bins'),
+                                  histogram.size)
+
     bin_width = bins[1] - bins[0]
     mid_values = bins + bin_width / 2
 
-- 
2.43.0


From d9dd5d99308ea706c6067ec70984364a53f05e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 22/34] fix: allow tracking from the last profile

---
 longitudinal_tomography/tracking/tracking.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..f9bd530 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -146,12 +146,14 @@ class Tracking(ParticleTracker):
                          ValueError, '|deltaturn| must be less than the'
                          + ' number of turns between profiles')
 
-        asrt.assert_less(machine.dturns*recprof + deltaturn,
-                         'reconstruction turn',
-                         machine.dturns*(machine.nprofiles-1), ValueError,
-                         'Reconstruction turn '
-                         + '(machine.dturns*recprof + deltaturn) must be less'
-                         + ' than the total number of measured turns.')
+        asrt.assert_less_or_equal(machine.dturns*recprof + deltaturn,
+                                  'reconstruction turn',
+                                  machine.dturns*(machine.nprofiles-1),
+                                  ValueError,
+                                  'Reconstruction turn '
+                                  + '(machine.dturns*recprof + deltaturn) '
+                                  + 'must not be greater than the last '
+                                  + 'measured turn.')
 
         asrt.assert_greater_or_equal(machine.dturns*recprof + deltaturn,
                                      'reconstruction turn', 0, ValueError,
-- 
2.43.0


From 7a418bacfc89d20f7f90b490c460e4079219b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 23/34] fix: leave the density unmodified when drawing
 macroparticles

---
 longitudinal_tomography/data/data_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..280a933 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,9 +261,9 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
 
     prob = density.flatten()
+    prob[prob / sumDens < threshold] = 0
     prob = prob / np.sum(prob)
     coords = np.array(list(itl.product(tRange, ERange)))
     n_macro = int(n_macro)
-- 
2.43.0


From 94ccf7da35b09986ecdd84c3816ec91b3c2fc05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:51 +0000
Subject: [PATCH 24/34] fix: leave the profile unmodified when plotting a
 reconstruction

---
 longitudinal_tomography/utils/tomo_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 9f0bdc0..7213209 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -131,7 +131,7 @@ def show(image: np.ndarray, diff: np.ndarray, rec_prof: np.ndarray,
     """
 
     # Normalizing recprof:
-    rec_prof[:] /= np.sum(rec_prof)
+    rec_prof = rec_prof / np.sum(rec_prof)
 
     # Creating plot
     gs = gridspec.GridSpec(4, 4)
-- 
2.43.0


From ec4926a2ddbc7cd14ef51011c0c341782920efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:20 +0000
Subject: [PATCH 25/34] fix: interpolate phi12 given to ProgramsMachine

---
 .../tracking/programs_machine.py              | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..1d451d7 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -87,6 +87,7 @@ class ProgramsMachine(MachineABC):
                 raise ValueError('You can only pass either phi12 or '
                                  'phase_function, not both.')
             self.phase_raw = None
+            self.phi12_raw = self.phi12
             self.process_phase = 0
         elif phase_function is not None:
             self.phase_raw = phase_function
@@ -132,19 +133,19 @@ class ProgramsMachine(MachineABC):
                 self.phase_raw[1, :]
             )
         elif self.process_phase == 0:
-            if isinstance(self.phi12, np.ndarray):
-                if self.phi12.size() == 1:
-                    pass
-                elif len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
-                    self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif len(self.phi12) == len(self.voltage_raw):
-                    self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
-                                           self.phi12)
-                else:
-                    raise ValueError(f'Do not know how to interpolate phi12 '
-                                     f'array of shape {self.phi12.shape}. '
-                                     f'It should either match voltage '
-                                     f'function or provide its own time axis.')
+            phi12 = np.asarray(self.phi12_raw)
+            if phi12.size == 1:
+                self.phi12 = np.full(len(momentum_time), phi12.item())
+            elif len(phi12.shape) == 2 and phi12.shape[0] == 2:
+                self.phi12 = np.interp(momentum_time, *phi12)
+            elif phi12.shape == self.voltage_raw[0].shape:
+                self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
+                                       phi12)
+            else:
+                raise ValueError(f'Do not know how to interpolate phi12 '
+                                 f'array of shape {phi12.shape}. '
+                                 f'It should either match voltage '
+                                 f'function or provide its own time axis.')
 
         # interpolate second harmonic voltage & phase if applicable
         if len(self.harmonics) == 2:
-- 
2.43.0


From 77986f9385259d0a5cc7122a903a705c8072ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:50 +0000
Subject: [PATCH 26/34] fix: refuse momentum programs that do not cover the
 turns of a ProgramsMachine

---
 longitudinal_tomography/tracking/programs_machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 1d451d7..19bb2ad 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -314,7 +314,7 @@ class ProgramsMachine(MachineABC):
         turn = self.i0
 
         k = 0
-        while turn < nturns:
+        while turn <= nturns and k < len(time):
 
             while time_interp[i + 1] <= time[k]:
                 momentum_interp.append(
@@ -350,7 +350,7 @@ class ProgramsMachine(MachineABC):
             initial_index = 0
 
         final_index = initial_index + nturns
-        if final_index > len(time_interp) + 1:
+        if initial_index < 0 or final_index > len(time_interp):
             raise ValueError('Not enough data in momentum program to '
                              f'interpolate {nturns} turns.')
 
-- 
2.43.0


From c920945d5201012879065c70befab3baff5f9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 27/34] fix: track with self-fields in tomo_run when the
 machine asks for them

---
 longitudinal_tomography/utils/tomo_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_run.py b/longitudinal_tomography/utils/tomo_run.py
index db2dfce..484edcd 100644
--- a/longitudinal_tomography/utils/tomo_run.py
+++ b/longitudinal_tomography/utils/tomo_run.py
@@ -106,7 +106,7 @@ def run(input: str, reconstruct_profile: bool = None,
     if tomoscope:
         tracker.enable_fortran_output(profiles.profile_charge)
 
-    if tracker.self_field_flag:
+    if machine.self_field_flag:
         profiles.calc_self_fields()
         tracker.enable_self_fields(profiles)
 
-- 
2.43.0


From 30597ee3f9b9985921bb18aed8c3e704144155c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 28/34] fix: let shortcuts.track start from the first film by
 default

---
 longitudinal_tomography/shortcuts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/shortcuts.py b/longitudinal_tomography/shortcuts.py
index 39a4c4b..5893d16 100644
--- a/longitudinal_tomography/shortcuts.py
+++ b/longitudinal_tomography/shortcuts.py
@@ -46,6 +46,9 @@ def track(machine: MachineABC, reconstruction_idx: int = None,
           callback: t.Callable = None) \
         -> t.Tuple[np.ndarray, np.ndarray]:
 
+    if reconstruction_idx is None:
+        reconstruction_idx = machine.filmstart
+
     tracker = Tracking(machine)
     dphi, denergy = tracker.track(reconstruction_idx, callback=callback)
     xp, yp = particles.physical_to_coords(dphi, denergy, machine,
-- 
2.43.0


From db31b0de8ce4392e343e26d31319c2ddeeb962d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:30 +0000
Subject: [PATCH 29/34] fix: run_hybrid_multi: a particle on the left limit of
 a bunch is inside, and only the particles inside are projected

---
 longitudinal_tomography/tomography/tomography.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/tomography/tomography.py b/longitudinal_tomography/tomography/tomography.py
index 208c5e7..636d091 100644
--- a/longitudinal_tomography/tomography/tomography.py
+++ b/longitudinal_tomography/tomography/tomography.py
@@ -193,7 +193,7 @@ class Tomography(TomographyABC):
 
         masks = []
         for cent, cut in zip(centers, cuts):
-            mask = np.all(((self.xp+cent)>cut[0])*((self.xp+cent)<cut[1]),
+            mask = np.all(((self.xp+cent)>=cut[0])*((self.xp+cent)<cut[1]),
                           axis=1)
             masks.append(mask)
         masks = np.array(masks)
@@ -245,8 +245,10 @@ class Tomography(TomographyABC):
             self.full_recreated = np.zeros_like(self.waterfall)
 
             for j in range(nBunches):
-                self.recreated = self._project_multi(flat_points + centers[j],
-                                                      weight[j], self.nparts)
+                self.recreated = self._project_multi(
+                                            flat_points[masks[j]] + centers[j],
+                                            weight[j][masks[j]],
+                                            np.sum(masks[j]))
 
                 self.full_recreated += self.recreated
 
@@ -271,8 +273,10 @@ class Tomography(TomographyABC):
         self.full_recreated = np.zeros_like(self.waterfall)
         
         for j in range(nBunches):
-            self.recreated = self._project_multi(flat_points + centers[j],
-                                                  weight[j], self.nparts)
+            self.recreated = self._project_multi(
+                                            flat_points[masks[j]] + centers[j],
+                                            weight[j][masks[j]],
+                                            np.sum(masks[j]))
             self.full_recreated += self.recreated
         self.recreated = self._normalize_profiles(self.full_recreated)
 
-- 
2.43.0


From 934cc273eae49d89d9c6affe3adbcea6bf47cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:07 +0000
Subject: [PATCH 30/34] fix: pass the deltaturn argument in
 tomolib_wrappers.kick_and_drift

---
 longitudinal_tomography/cpp_routines/tomolib_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
index 879083a..1529ea7 100644
--- a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
+++ b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
@@ -203,12 +203,12 @@ ftn_out: boolean, optional, default=False
 
     if machine is not None:
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
-                                      machine, rec_prof, nturns, nparts,
+                                      machine, rec_prof, 0, nturns, nparts,
                                       ftn_out)
     elif all([x is not None for x in machine_args]):
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
                                       phi0, deltaE0, drift_coef, phi12,
-                                      h_ratio, dturns, rec_prof, nturns,
+                                      h_ratio, dturns, rec_prof, 0, nturns,
                                       nparts, ftn_out)
     else:
         raise expt.InputError(
-- 
2.43.0


From cdb7ac38a643518bba4d4a753f83ed4697831e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 31/34] fix: accept integer samples in rebin and
 raw_data_to_profiles

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 longitudinal_tomography/utils/tomo_input.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index a7888e3..c0674aa 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -415,6 +415,6 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     i0 = max(int(nbins / rbn) - 1, 0) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
-    ans[:] *= rbn / (nbins - i0)
+    ans = ans * (rbn / (nbins - i0))
     ans = ans.reshape((nprofs, 1))
     return ans
diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 1e723bb..a6e10f8 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -484,7 +484,8 @@ def raw_data_to_profiles(waterfall: np.ndarray, machine: MachineABC, rbn: int,
 
     waterfall = np.array(waterfall)
     # Subtracting baseline
-    waterfall[:] -= fortran.calc_baseline(waterfall, machine.beam_ref_frame)
+    waterfall = waterfall - fortran.calc_baseline(waterfall,
+                                                  machine.beam_ref_frame)
     # Rebinning
     (waterfall,
      machine.dtbin,
-- 
2.43.0


From 065fc3c55a1472552c9be49b89b45a8f2c91cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 32/34] fix: zero crossing of the falling flank in
 foot_tangent_fit and foot_tangent_fit_density

---
 longitudinal_tomography/utils/tomographics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 828a7f5..26d0170 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -124,7 +124,7 @@ def foot_tangent_fit(y: Iterable[float], dx: float = 1) -> Tuple[float, float]:
 
     foot_left = left_index - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
                                                +2*y_left[2] + 6*y_left[3])
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     return foot_left * dx, foot_right * dx
@@ -147,7 +147,7 @@ def foot_tangent_fit_density(y: Iterable[float], x: Iterable[float],
 
     y_right = y_zero[right_index - 2:right_index + 2]
 
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     foot_density = np.interp(foot_right, np.arange(len(x)), x)
-- 
2.43.0


From 05d346c595a266e5501e19405067b21078e642fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 33/34] fix: axes of images that are not square in rms_params

---
 longitudinal_tomography/utils/tomographics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 26d0170..ad87f68 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -323,8 +323,8 @@ def rms_params(tomo_image: Iterable[float], dt: float, dE: float)\
         RMS emittance, mean dt, RMS dt, mean dE and RMS dE.
     """
 
-    y_matrix_tomo1, x_matrix_tomo1 = np.meshgrid(np.arange(tomo_image.shape[0]),
-                                                 np.arange(tomo_image.shape[1]))
+    y_matrix_tomo1, x_matrix_tomo1 = np.meshgrid(np.arange(tomo_image.shape[1]),
+                                                 np.arange(tomo_image.shape[0]))
     xbar = np.sum(tomo_image * x_matrix_tomo1)
     xms = np.sum(tomo_image * x_matrix_tomo1**2.)
     ybar = np.sum(tomo_image * y_matrix_tomo1)
@@ -338,7 +338,7 @@ def rms_params(tomo_image: Iterable[float], dt: float, dE: float)\
     mean_dt = xbar * dt
     sigma_dt = np.sqrt(xms - xbar**2.) * dt
 
-    mean_dE = (ybar - tomo_image.shape[0]/2) * dE
+    mean_dE = (ybar - tomo_image.shape[1]/2) * dE
     sigma_dE = np.sqrt(yms - ybar**2.) * dE
 
     return rmsemittance, mean_dt, sigma_dt, mean_dE, sigma_dE
-- 
2.43.0


From d25ebb9abc627bcfc0231c789588917d5c6de22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 34/34] fix: time bins with a single particle in
 tomo_weight_clipping

---
 longitudinal_tomography/utils/tomographics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index ad87f68..cd721d9 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -613,9 +613,7 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
             idx_minmax = np.append(idx_minmax, idx_max)
 
         elif len(idx_in) == 1:
-            idx_minmax.append(np.where(map_tomo_y
-                                       == np.max(map_tomo_y[idx_in,
-                                                            idx_frame]))[0][0])
+            idx_minmax = np.append(idx_minmax, idx_in[0])
 
     new_weight_tomo = (new_weight_tomo
                        / np.sum(new_weight_tomo)
-- 
2.43.0

