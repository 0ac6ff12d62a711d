From 9d7de98bb06ab8b79435a04ed2ce300daa2c0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/23] fix: reject azimuthal orders |m| > n in the ZernPol
 constructor

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..b66e9c9 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -117,6 +117,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| should be not more than n")
                                 elif self.__n < 0:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n > 54:
-- 
2.43.0


From 5f25ea251598fe7124427cd68728812b14922356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 02/23] fix: return Fringe index as the Python int, so it is
 accepted back by fringe2osa and ZernPol(fringe=...)

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index b66e9c9..e4a1c36 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -713,7 +713,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return int((1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2)
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From f07095eb18179d9f68092f74162f2c86398d4bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/23] fix: raise ValueError instead of returning wrong orders
 for not found index in index2orders

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index e4a1c36..19a4baf 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -758,6 +758,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError("Orders for the provided index haven't been found, it is negative or too high")
         return m, n
 
     @staticmethod
-- 
2.43.0


From 7634feb75888d41da48e4e307ccdb41547cdc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 04/23] fix: product rule in the derivative of high order (n >
 38) radial polynomials with m == 0

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..e636aa3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From 10557c1ed4b12b10e9d7d6bbfc7fb2fc8fca03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/23] fix: make checks of steps in gen_polar_coordinates
 effective

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 19a4baf..f1e5c28 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1018,9 +1018,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if not 0.0 < r_step <= 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From 329a956e736ff4af19f3dd7bd66ea1c5bae3a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 06/23] fix: use all integration points in the Simpson rule on
 the angle for PSF calculation

---
 src/zernpy/calculations/calc_psfs.py       | 16 ++++++++--------
 src/zernpy/calculations/calc_psfs_numba.py |  8 ++++----
 src/zernpy/zernpsf.py                      |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..33f9bbf 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -217,9 +217,9 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
     """
     # Integration on the pupil radius using Simpson equation
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -263,14 +263,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -592,9 +592,9 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..7f6a547 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -258,9 +258,9 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
 
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -541,10 +541,10 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..b7d8a0f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -694,13 +694,13 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         # Simpson integration rule implementation
-- 
2.43.0


From 0fb5b041b9f294be64236d9457759cd5adba14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 07/23] fix: do not count the border r = 1 twice in the radial
 integral for some numbers of integration points

---
 src/zernpy/calculations/calc_psfs.py       | 6 +++---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 33f9bbf..b3ee082 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -129,7 +129,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -164,7 +164,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -558,7 +558,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 7f6a547..f71b224 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -501,7 +501,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From 3aede72e7c8e7c76eb8aba9a7373939251a80ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/23] fix: apply normalization and angular factors for high
 order polynomials in the accelerated PSF calculation

---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index f71b224..08f219c 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
-- 
2.43.0


From 4f966c59fa340101bb5cc72db39a8859962fd15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 09/23] fix: do not reject implemented high order polynomials
 in the accelerated PSF calculation

---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 08f219c..2eca24e 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -334,7 +334,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     if not hasattr(zernike_pol, "__len__") and isinstance(alpha, float):
         alpha /= wavelength  # normalize to wavelength (physical units)
         m, n = zernike_pol.get_mn_orders(); single_polynomial_provided = True
-        if n > 10 and (abs(m) != n or abs(m) != n-2):
+        if n > 10 and abs(m) != n and abs(m) != n-2:
             raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
     else:
         if not isinstance(alpha, np.ndarray):
@@ -342,7 +342,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
         polynomials_orders = []  # for checking and providing for further compilation polynomials in a tuple
         for pol in zernike_pol:
             m, n = pol.get_mn_orders(); polynomials_orders.append((m, n))
-            if n > 10 and (abs(m) != n or abs(m) != n-2):
+            if n > 10 and abs(m) != n and abs(m) != n-2:
                 raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
         polynomials_orders = tuple(polynomials_orders)  # convert list to tuple
     # Check that the calibration coefficient is sufficient for calculation
-- 
2.43.0


From b7c425a1037a340a60aedea8f2cd4612c915f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 10/23] fix: raise ValueError for wrong inputs in the ZernPSF
 constructor

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b7d8a0f..188f9af 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Single object in Sequence isn't instance of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
@@ -145,7 +147,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From 33bdba80b1ad824cd5cb437343e80f8863dd6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 11/23] fix: calculate angular frequency from the provided
 wavelength and reject zero NA in set_physical_props

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 188f9af..709b12f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -187,13 +187,13 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if NA <= 0.0 or NA > 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
+        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
         self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
-- 
2.43.0


From e1e1dafdb384218944252e7c96159a561aaa2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 12/23] fix: restore saved kernel size and type of a single
 polynomial in read_json

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 709b12f..7def00e 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -634,7 +634,8 @@ class ZernPSF:
                     ps = item; read_props += 1
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = ()
+                    self.airy = (osa_index == 0)
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
@@ -650,6 +651,7 @@ class ZernPSF:
             # Assign read physical properties
             if read_props == 8:
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.kernel_size = json_data["Kernel Size"]  # restore the saved size, it's redefined in the method above
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 2d57cd460067925071f1308f7efd4e74d7d95ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 13/23] fix: accept path provided as str in save_json

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 7def00e..36ac4cc 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -570,7 +570,7 @@ class ZernPSF:
         """
         if abs_path is None:
             abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
+        if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-- 
2.43.0


From 1f0786e7f2144f4904f327c893ea016424be223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 14/23] fix: use the default kernel size independently on the
 flag for suppressing warnings

---
 src/zernpy/zernpsf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 36ac4cc..76574b5 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -370,9 +370,12 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
-        if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
-            warnings.warn(self.__warn_message); self.__warn_message = ""
+        if not self.__physical_props_set:
+            if self.kernel_size < 3:  # kernel size also hasn't been set
+                self.kernel_size = 19
+            if not suppress_warnings:
+                self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+                warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
         if numba_installed and accelerated is None:
-- 
2.43.0


From 6b856905b56baa908ccbf4a1d16dca1316e71445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 15/23] fix: provide NA for the kernel size estimation in
 get_kernel_parallel

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 76574b5..c16c09f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -735,7 +735,7 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
             self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
-- 
2.43.0


From d0c0edcb6d945ad377c11c5439f66d528e6c130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 16/23] fix: prevent division by zero in convolution of a PSF
 kernel with the blank image

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index b3ee082..ff0a02c 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -729,7 +729,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel > 0.0:  # nothing to scale for the blank image
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From aa5142fa8579134e3fbbd20fec9b98a90b9933bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 17/23] fix: do not share workers between instances of
 DispenserManager

---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..0477650 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -54,6 +54,7 @@ class DispenserManager():
 
         """
         self.verbose_info = verbose_info
+        self.__workers_pool = []; self.__triggers = []; self.__queues = []  # not share workers between class instances
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
         # Checking input parameters - workers
-- 
2.43.0


From 05dd0123eb375b95395e28b1d6f05a3ba72af8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 18/23] fix: zeros of the shape of the angles for a single
 radius with exact equations above the order 40

---
 src/zernpy/zernikepol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index f1e5c28..3c77ef3 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -422,10 +422,12 @@ class ZernPol:
         else:
             if self.__n > MAX_RADIAL_ORDER_COEFFS:
                 warnings.warn(self.__warn_mes_r + warn_mess_r_long)
-                if isinstance(r, float):
-                    return 0.0
-                elif isinstance(r, np.ndarray):
+                if isinstance(r, np.ndarray):
                     return np.zeros(shape=r.shape)
+                elif isinstance(theta, np.ndarray):
+                    return np.zeros(shape=theta.shape)
+                else:
+                    return 0.0
             else:
                 return nTr*radial_polynomial_eq(self, r)
 
-- 
2.43.0


From ff9e84bb6a0f4233beb07de40177ba2bd917d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 19/23] fix: raise ValueError for containers and objects
 without items or length as the polynomials of a PSF

---
 src/zernpy/zernpsf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index c16c09f..3ab4e07 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -114,15 +114,19 @@ class ZernPSF:
             else:
                 self.airy = False
         elif hasattr(zernpol, '__len__'):
-            seq_length = len(zernpol)
+            try:
+                seq_length = len(zernpol)
+            except TypeError:  # e.g., classes or 0-dimensional arrays
+                raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence with 'ZernPol' instances")
             # Empty sequence as the input not acceptable
             if seq_length == 0:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
-                if not isinstance(zernpol[0], ZernPol):
+                single_pol = next(iter(zernpol))  # also for not indexed containers
+                if not isinstance(single_pol, ZernPol):
                     raise ValueError("Single object in Sequence isn't instance of the 'ZernPol' class")
-                self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
+                self.zernpol = single_pol; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
                 else:
-- 
2.43.0


From 76d395f7ccce0976d4b24bfc91e7ff4c34b7b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 20/23] fix: no repetition of the last values in the generated
 polar coordinates because of floating point errors

---
 src/zernpy/zernikepol.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 3c77ef3..a1c4822 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1024,12 +1024,12 @@ class ZernPol:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
         if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
-        Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
-        # Check that the last values on the generated ranges appeared not outside of ranges
-        if Rs[Rs.shape[0]-1] > 1.0:
-            Rs[Rs.shape[0]-1] = 1.0
-        if Thetas[Thetas.shape[0]-1] > 2.0*np.pi:
-            Thetas[Thetas.shape[0]-1] = 2.0*np.pi
+        # Number of steps for covering the entire ranges, small tolerance - for preventing repetition or absence of the last value
+        # because of floating point errors (e.g., for the step 1/6)
+        n_steps_r = int(np.ceil((1.0/r_step)*(1.0 - 1E-13))); n_steps_theta = int(np.ceil((2.0*np.pi/theta_rad_step)*(1.0 - 1E-13)))
+        Rs = r_step*np.arange(n_steps_r + 1.0); Thetas = theta_rad_step*np.arange(n_steps_theta + 1.0)
+        # Assign the last values exactly to the upper limits of ranges
+        Rs[n_steps_r] = 1.0; Thetas[n_steps_theta] = 2.0*np.pi
         return polar_vectors(Rs, Thetas)
 
     @staticmethod
-- 
2.43.0


From f00730314f361ae5cc0065a3763ffb175b22255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 21/23] fix: a short file name for saving a PSF of many
 polynomials, the composed one was too long for file systems

---
 src/zernpy/calculations/calc_psfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index ff0a02c..9004629 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -18,6 +18,7 @@ from scipy.ndimage import convolve
 import json
 from matplotlib.patches import Circle
 from functools import partial
+from hashlib import md5
 from typing import Union
 # import time
 
@@ -801,6 +802,9 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
             json_file_path = saved_psfs_folder.joinpath(f"psf_{(m, n)}_{expansion_coefficient}.json")
         else:
             json_file_path = saved_psfs_folder.joinpath(f"psf_{osa_indices}_{expansion_coefficient}.json")
+    file_name = json_file_path.name.encode()
+    if len(file_name) > 255:  # too long names (many polynomials) aren't accepted by file systems
+        json_file_path = json_file_path.with_name(f"psf_{md5(file_name).hexdigest()}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
     data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-- 
2.43.0


From ada5d73aa02842974eba6611d8b2124dd6bbfe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 22/23] fix: warning about a JSON file without polynomials
 instead of their combination with other amplitudes

---
 src/zernpy/zernpsf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 3ab4e07..45bcb29 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -642,9 +642,9 @@ class ZernPSF:
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
                     osa_index = item; self.zernpol = ZernPol(osa=osa_index); self.polynomials = ()
-                    self.airy = (osa_index == 0)
+                    self.airy = (osa_index == 0); read_props += 1
                 elif key == "Polynomials":
-                    osa_indices = item; pols = []; pols_len = len(osa_indices)
+                    osa_indices = item; pols = []; pols_len = len(osa_indices); read_props += 1
                     if pols_len == 1:
                         self.zernpol = ZernPol(osa=osa_indices[0])
                         if osa_indices[0] == 0:
@@ -656,7 +656,7 @@ class ZernPSF:
                             pols.append(ZernPol(osa=index))
                         self.polynomials = pols; self.zernpol = None; self.airy = False
             # Assign read physical properties
-            if read_props == 8:
+            if read_props == 9:
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
                 self.kernel_size = json_data["Kernel Size"]  # restore the saved size, it's redefined in the method above
             else:
-- 
2.43.0


From 89f7da8c34dfc300818e72afff6b7c7ee0eb6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 23/23] fix: properties given as numpy numbers are saved,
 json.dump() raised TypeError and left a broken file

---
 src/zernpy/calculations/calc_psfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 9004629..25529e9 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -819,7 +819,7 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
         with open(json_file_path, 'w') as json_write_file:
-            json.dump(data4serialization, json_write_file)
+            json.dump(data4serialization, json_write_file, default=lambda value: value.item())  # numpy numbers converted to python ones
     return str(json_file_path.absolute())
 
 
-- 
2.43.0

