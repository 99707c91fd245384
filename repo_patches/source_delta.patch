From 77711337c5fb08d8b0a7532b069de38928b6756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 01/21] fix: linear_interpolation with no spikes no longer
 raises IndexError

---
 proadv/filtration/replacement/replacements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..3d69033 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -123,6 +123,10 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     # Create a copy of the velocity data to avoid modifying the original array
     modified_data = np.copy(velocities)
 
+    # Nothing to interpolate without spikes
+    if np.size(spike_indices) == 0:
+        return np.around(modified_data, decimals=decimals)
+
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
 
-- 
2.43.0


From 35535c8849f1a0d40374a504c5bbbee01e18ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 02/21] fix: kalman_filter replacement indexes the filtered
 series and returns the result

---
 proadv/filtration/replacement/replacements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 3d69033..6bc6014 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -362,10 +362,11 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     modified_data = np.copy(velocities)
 
     # Use kalman_filter function
-    filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
+    filtered_data = np.ravel(kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise))
 
     # Replace values at spikes indices with the kalman_filter values
     modified_data[spike_indices] = filtered_data[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From 634ac89743e6cad91ecda1960496c2147518ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 03/21] fix: polynomial_replacement handles a single spike,
 index 10, and index 0 next to spikes 1-10

---
 proadv/filtration/replacement/replacements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 6bc6014..ce94d53 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -419,7 +419,8 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
     a = 0
-    for i in spike_indices.squeeze():
+    spike_indices = np.ravel(spike_indices)
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
@@ -427,7 +428,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
                 modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                                                     spike_indices[(spike_indices >= 1) & (spike_indices <= 10)], decimals)
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From 27ffaf1747d3409c50b1c46c3eb1b9b70bc26c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 04/21] fix: cubic_12points_polynomial uses the 12 neighbours
 on each side and rejects invalid indices

---
 proadv/filtration/replacement/replacements.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index ce94d53..f141e4f 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -193,6 +193,11 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     - The input velocities array is modified in-place to replace missing data points with interpolated values.
     """
 
+    if velocities.ndim != 1:
+        raise ValueError("Velocities array must be a 1D array.")
+    if np.size(spike_indices) and (np.min(spike_indices) < 0 or np.max(spike_indices) >= velocities.size):
+        raise ValueError("Spike indices must lie within the velocities array.")
+
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
 
@@ -206,12 +211,12 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
         # Check if index is near the boundaries
         if i <= 30 or i >= (len(velocities) - 30):
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+            valid_before = modified_data[:i][~np.isnan(modified_data[:i])][-1:]
+            valid_after = modified_data[i:][~np.isnan(modified_data[i:])][:1]
+            modified_data[i] = np.around(np.mean(np.append(valid_before, valid_after)), 4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.append(modified_data[i - 12: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12])
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 3f7ad07fc98589b6968a14dec006399bb484bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 05/21] fix: normal.cdf of integer and scalar input

---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..3a69544 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,13 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From 369e8b0b74eaef59e3b19836573a79fee8bcfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 06/21] fix: calculate_ab returns (1e10, 1e10) when an axis is
 not real

---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From cb71b7ccdb4d7c24a6445001a8301f194e8679ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 07/21] fix: phase-space ellipse axes a3, b3 are sqrt of the
 whole quotient

---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..7c5a4b4 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -72,8 +72,8 @@ def calculate_parameters(c, dc, dc2):
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3 = np.sqrt((a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact)
+    b3 = np.sqrt((b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From 8c3b73df8180091550edd25368f4b4b6427d26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 08/21] fix: premodification removes points beyond either
 threshold

---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 7c5a4b4..c6fac34 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -163,8 +163,8 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
     for i in removable_indices:
-- 
2.43.0


From 0449514a9ad62e29a7f32f1d0b96562d053c6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 09/21] fix: pollution_rate lower threshold lies below the
 filtered signal

---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..bf95c5e 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -21,7 +21,7 @@ def pollution_rate(x, xfil, k):
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < xfil - k * std(x))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From 25fc391040595bfa0c78dbf8541272108ad9bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 10/21] fix: brentq full_output is a dictionary when an
 endpoint is a root

---
 proadv/statistics/optimize/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..06834e8 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -66,9 +66,11 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
     # Check if we already have a root at the endpoints
     if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
+        return {'root': xpre, 'function_calls': 2, 'iterations': 0, 'converged': True,
+                'flag': 'converged'} if full_output else xpre
     if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+        return {'root': xb, 'function_calls': 2, 'iterations': 0, 'converged': True,
+                'flag': 'converged'} if full_output else xb
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
-- 
2.43.0


From 058d48093980846e61034db99136d7a6eebdc4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 11/21] fix: brentq raises ValueError when it does not converge
 and counts the last evaluation

---
 proadv/statistics/optimize/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 06834e8..a89be5e 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -144,7 +144,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
+        'function_calls': i + 3,
         'iterations': i + 1,
         'converged': False,
         'flag': 'convergence not achieved'
@@ -152,7 +152,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     if full_output:
         return result
     else:
-        return result['root']
+        raise ValueError("Failed to converge within maxiter iterations.")
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From 0d2e08bc463dc0cd5790ac0da8b1eca4e11536cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 12/21] fix: fminbound returns the point its function value
 belongs to

---
 proadv/statistics/optimize/optimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index a89be5e..0d9ffc1 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -329,8 +329,7 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
     if np.isnan(x_optimal) or np.isnan(f_current) or np.isnan(f_temp):
         convergence_flag = 2
 
-    # Set the final optimal value and function value
-    x_optimal = x_current
+    # Set the final function value
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From 570a7218dd508e3fd4a009cffd4f527c70bba6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 13/21] fix: power_spectra overlap is a percentage of the block

---
 proadv/statistics/signal/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..27d70cc 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -24,6 +24,6 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     win=hann(block, True)
 
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=int(block * overlap / 100), nfft=block, return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From 4b0bb1b11d56e8c1e7053f53b8f91f7c8c443e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 14/21] fix: spherical rotation angle uses the c-dc2 principal
 axis

---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index bc27337..25204fc 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -167,7 +167,7 @@ def spherical_phasespace_thresholding(c, iteration, c_mean):
     dc, dc2 = _gradients(c)
 
     # Calculaterotation angle
-    theta = np.around(np.arctan2(np.sum(c * dc), np.sum(dc2 ** 2)), 4)
+    theta = np.around(np.arctan2(np.sum(c * dc2), np.sum(c ** 2)), 4)
 
     # Rotate data
     x, y, z = _rotation(c, dc, dc2, theta)
-- 
2.43.0


From 0bd04b7c0e46a5e8f089e0675ffe8a8d77cec5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:28 +0000
Subject: [PATCH 15/21] fix: spherical threshold no longer misses spikes near
 the equator (sqrt of a negative)

---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index 25204fc..1282553 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -121,7 +121,7 @@ def _spike_indices(x, y, z, a, b, c):
         z1 = z[i]
         x2 = np.around(a * b * c * x1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
         y2 = np.around(a * b * c * y1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
-        zt = np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
+        zt = np.maximum(np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4), 0)
         if z1 < 0:
             z2 = -np.around(np.sqrt(zt), 4)
         elif z1 > 0:
-- 
2.43.0


From 6c004cba559126eff5f2390b8b479588fbb63287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:52 +0000
Subject: [PATCH 16/21] fix: mean keeps numeric strings that follow a
 non-numeric one

---
 proadv/statistics/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 50f90c5..7b9197d 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -217,7 +217,7 @@ def mean(array):
 
                 except ValueError:
                     # If conversion fails, it's not a number, so we take out the invalid data and calculate the rest
-                    array = [item for item in array if isinstance(item, (int, float))]
+                    array.remove(item)
                     continue
         mean_array = np.sum(array) / np.size(array)
         return mean_array
-- 
2.43.0


From 510f368d6f8d02d5b92f9c57fc2be9f593fe95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 17/21] fix: kurtotest handles samples so flat that the cube
 root's denominator is negative

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 3a69544..040a7c6 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -294,7 +294,7 @@ def kurtotest(data, alternative='two-sided'):
     elif np.isscalar(denom) and denom == 0.0:
         denom = np.ma.masked
 
-    term2 = np.ma.power((1 - 2.0 / a) / denom, 1 / 3.0)
+    term2 = np.sign(denom) * np.ma.power((1 - 2.0 / a) / np.abs(denom), 1 / 3.0)
 
     # Final z-score calculation
     z_score_final = (term1 - term2) / np.ma.sqrt(2 / (9.0 * a))
-- 
2.43.0


From e78a27a4b7a0dd3c4a5b717e424004c5901a876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 18/21] fix: xyz_to_sop keeps the only real zero for the single
 real pole (IndexError)

---
 proadv/statistics/signal/butter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/signal/butter.py b/proadv/statistics/signal/butter.py
index f149932..691829e 100644
--- a/proadv/statistics/signal/butter.py
+++ b/proadv/statistics/signal/butter.py
@@ -364,7 +364,7 @@ def xyz_to_sop(x, y, z, pg=None, *, ag=False):
                 x1 = x[x1_i]
                 x = np.delete(x, x1_i)
                 sop[ci] = _lone_xyzsop([x1, 0], [y1, 0], 1)
-            elif len(x) > 0:
+            elif np.isreal(x).any():
                 x1_i = _closest_real_complex_i(x, y1, 'real')
                 x1 = x[x1_i]
                 x = np.delete(x, x1_i)
@@ -398,13 +398,16 @@ def xyz_to_sop(x, y, z, pg=None, *, ag=False):
             # find closest zero
             if len(x) > 0:
                 x1_i = _closest_real_complex_i(x, y1, 'any')
+                if np.isreal(x).sum() == 1 and len(x) - 1 > ci - np.isreal(y).sum() % 2:
+                    # the only real zero has to stay with the single real pole
+                    x1_i = _closest_real_complex_i(x, y1, 'complex')
                 x1 = x[x1_i]
                 x = np.delete(x, x1_i)
 
                 if not np.isreal(x1):
                     sop[ci] = _lone_xyzsop([x1, x1.conj()], [y1, y2], 1)
                 else:
-                    if len(x) > 0:
+                    if np.isreal(x).any():
                         x2_i = _closest_real_complex_i(x, y1, 'real')
                         x2 = x[x2_i]
                         assert np.isreal(x2)
-- 
2.43.0


From cc43b2285fda58e3c0e310183f3b124d1a5ed67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 19/21] fix: bivariate cosine transform runs along the
 reordered axis, for odd grids too

---
 proadv/kernel/bivariate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index dd2b010..08fd235 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -154,10 +154,10 @@ def _discrete_cosine_1d(data, weight):
     """
     
     # Reorder the data for the discrete cosine transform
-    reordered = np.vstack((data[::2, :], data[::-2, :]))
+    reordered = np.vstack((data[::2, :], data[1::2, :][::-1, :]))
     
     # Compute the discrete cosine transform using FFT
-    transform = np.real(weight * np.fft.fft(reordered))
+    transform = np.real(weight * np.fft.fft(reordered, axis=0))
     
     return transform
 
-- 
2.43.0


From 84227a8fa4ff3f12c0c0bf8eaeeaa184923028b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 20/21] fix: bivariate histogram no longer shifts every sample
 up by one bin

---
 proadv/kernel/bivariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 08fd235..b43bb7c 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -130,7 +130,7 @@ def _histogram(trans, grid):
     
     # Iterate over each column and compute the bins
     for i in range(cols):
-        bins[:, i] = np.digitize(trans[:, i], hist, 1)
+        bins[:, i] = np.digitize(trans[:, i], hist) - 1
         bins[:, i] = np.minimum(bins[:, i], grid - 1)
         
     # Accumulate the binned data
-- 
2.43.0


From 93061e2a5541c756e4965cd68f8b60dd3e64d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 21/21] fix: bivariate_kernel inverts the cosine transform to
 obtain the density

---
 proadv/kernel/bivariate.py | 44 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index b43bb7c..d3a94d0 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -193,6 +193,48 @@ def _discrete_cosine_2d(data):
     return discrete
 
 
+def _inverse_cosine_1d(data):
+    """
+    Invert the 1D discrete cosine transform of each column.
+
+    Parameters
+    ------
+    data (array_like): Transform computed by _discrete_cosine_1d.
+
+    Returns
+    ------
+    original (array_like): The data before the transform.
+    """
+
+    rows = data.shape[0]
+    weight = np.exp(1j * np.arange(rows) * np.pi / (2 * rows))[:, np.newaxis]
+    reordered = np.real(np.fft.ifft(weight * data, axis=0))
+
+    # Undo the reordering
+    half = (rows + 1) // 2
+    original = np.zeros(data.shape)
+    original[::2, :] = reordered[:half, :]
+    original[1::2, :] = reordered[half:, :][::-1, :]
+
+    return original
+
+
+def _inverse_cosine_2d(data):
+    """
+    Invert the 2D discrete cosine transform of _discrete_cosine_2d.
+
+    Parameters
+    ------
+    data (array_like): 2D transform.
+
+    Returns
+    ------
+    original (array_like): The data before the transform.
+    """
+
+    return _inverse_cosine_1d(_inverse_cosine_1d(data).T).T
+
+
 def _k(s_indices):
     """
     Compute the k-value based on the given indices.
@@ -423,7 +465,7 @@ def bivariate_kernel(data, hx, hy, grid):
     a_t = np.matmul(v1, v2) * discrete
     
     # Compute density matrix
-    density_mx = _discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
+    density_mx = _inverse_cosine_2d(a_t) * (a_t.size / np.prod(scale))
     density_mx[density_mx < 0] = np.finfo(float).eps
     
     # Create vectors for x and y values
-- 
2.43.0

