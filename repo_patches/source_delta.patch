From ae479f838768f9c193762212cf50c9672d2fbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 01/30] fix: friction term of the momentum end condition
 (kappa) has head-loss units and sign

---
 pipedream_solver/nsuperlink.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..9138d96 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2321,8 +2321,8 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
     t_0 = - dx_uk / g / A_uk / dt
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
-        t_1[n] = friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
-                                n_uk[n], Sf_method_uk[n], g)
+        t_1[n] = - friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
+                                  n_uk[n], Sf_method_uk[n], g) / g / A_uk[n]
     t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
     return t_0 + t_1 + t_2
 
@@ -2337,7 +2337,7 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
         t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
-                                n_dk[n], Sf_method_dk[n], g)
+                                n_dk[n], Sf_method_dk[n], g) / g / A_dk[n]
     t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
     return t_0 + t_1 + t_2
 
-- 
2.43.0


From 54e995205a6507222bd8903bdff8b51a640b01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 02/30] fix: orifice availability limit uses the superjunction
 the flow is drawn from at equal heads

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 9138d96..f39d057 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1555,7 +1555,7 @@ class nSuperLink(SuperLink):
         _Qo_next = numba_solve_orifice_flows(H_j, u, _z_inv_j, _z_o, _tau_o, _y_max_o, _Co, _Ao,
                                              _unidir_o, _J_uo, _J_do, g)
         # TODO: Move this inside numba function
-        upstream_ctrl = (H_j[_J_uo] > H_j[_J_do])
+        upstream_ctrl = (H_j[_J_uo] >= H_j[_J_do])
         _Qo_max = np.where(upstream_ctrl, _V_sj[_J_uo], _V_sj[_J_do]) / dt
         _Qo_next = np.sign(_Qo_next) * np.minimum(np.abs(_Qo_next), _Qo_max)
         # Export instance variables
-- 
2.43.0


From 43125b2307e7e2ec273495164076f0e19ed060e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 03/30] fix: parabolic section uses the surface width at the
 current depth and stays full above full depth

---
 pipedream_solver/geometry.py  | 5 +++--
 pipedream_solver/ngeometry.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..4dc87fb 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -529,10 +529,10 @@ class Parabolic():
             Width of channel (meters)
         """
         y_max = g1
-        b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
+        b = g2 * np.sqrt(y / y_max)
         A = 2 * b * y / 3
         return A
 
@@ -553,10 +553,10 @@ class Parabolic():
             Width of channel (meters)
         """
         y_max = g1
-        b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
+        b = g2 * np.sqrt(y / y_max)
         x = 4 * y / b
         Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
@@ -598,6 +598,7 @@ class Parabolic():
         b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
+        y[y > y_max] = y_max[y > y_max]
         B = b * np.sqrt(y / y_max)
         return B
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..e7c0a7a 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -575,12 +575,12 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         Width of channel (meters)
     """
     y_max = g1
-    b = g2
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
     if y > y_max:
         y = y_max
+    b = g2 * np.sqrt(y / y_max)
     A = 2 * b * y / 3
     return A
 
@@ -602,12 +602,12 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         Width of channel (meters)
     """
     y_max = g1
-    b = g2
     y = (h_Ik + h_Ip1k) / 2
     if y <= 0:
         y = eps
     if y > y_max:
         y = y_max
+    b = g2 * np.sqrt(y / y_max)
     x = 4 * y / b
     Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
@@ -654,6 +654,8 @@ def Parabolic_B_ik(h_Ik, h_Ip1k, g1, g2):
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
+    if y > y_max:
+        y = y_max
     B = b * np.sqrt(y / y_max)
     return B
 
-- 
2.43.0


From 7ed985aef7d9decaf4bc9e360fd8a83823a74265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 04/30] fix: elliptical top width is the derivative of the area

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 4dc87fb..e8b8bd9 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -703,8 +703,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index e7c0a7a..b608045 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -736,8 +736,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0


From 8ef5ac876d213ab114039b92b3bce8b660a5422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 05/30] fix: wetted perimeter of elliptical superlinks at the
 end sections

---
 pipedream_solver/nsuperlink.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index f39d057..0df507d 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -571,6 +571,8 @@ class nSuperLink(SuperLink):
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
         # Compute hydraulic geometry for regular geometries
+        handle_elliptical_boundary_perimeter(_Pe_uk, _geom_codes, _h_Ik, H_j, _z_inv_uk, _theta_uk,
+                                             _g1_ik, _g2_ik, _i_1k, _I_1k, _J_uk)
         numba_boundary_geometry(_A_uk, _Pe_uk, _R_uk, _B_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
                                 _geom_codes, _i_1k, _I_1k, _J_uk)
@@ -623,6 +625,8 @@ class nSuperLink(SuperLink):
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
         # Compute hydraulic geometry for regular geometries
+        handle_elliptical_boundary_perimeter(_Pe_dk, _geom_codes, _h_Ik, H_j, _z_inv_dk, _theta_dk,
+                                             _g1_ik, _g2_ik, _i_nk, _I_Np1k, _J_dk)
         numba_boundary_geometry(_A_dk, _Pe_dk, _R_dk, _B_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
                                 _geom_codes, _i_nk, _I_Np1k, _J_dk)
@@ -1772,6 +1776,17 @@ def numba_hydraulic_geometry(_A_ik, _Pe_ik, _R_ik, _B_ik, _h_Ik,
                                                                       g3_i, g4_i, g5_i, g6_i, g7_i)
     return 1
 
+def handle_elliptical_boundary_perimeter(_Pe_bk, _geom_codes, _h_Ik, _H_j, _z_inv_bk, _theta_bk,
+                                         _g1_ik, _g2_ik, _i_bk, _I_bk, _J_bk):
+    is_ellipse = (_geom_codes[_i_bk] ==
+                  pipedream_solver.geometry.geom_code['elliptical'])
+    if is_ellipse.any():
+        _i_g = _i_bk[is_ellipse]
+        _h_I_g = _h_Ik[_I_bk[is_ellipse]]
+        _h_J_g = _theta_bk[is_ellipse] * (_H_j[_J_bk[is_ellipse]] - _z_inv_bk[is_ellipse])
+        _Pe_bk[is_ellipse] = pipedream_solver.geometry.Elliptical.Pe_ik(_h_I_g, _h_J_g,
+                                                                         _g1_ik[_i_g], _g2_ik[_i_g])
+
 @njit(int64(float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
             float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
             int64[:], int64[:], int64[:], int64[:]),
-- 
2.43.0


From ac9a5d0087f1c3f65dc55fb5eb922c40c12f30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 06/30] fix: stored volume of tabular storages integrates area
 over depth

---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 0df507d..659aed7 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..c58a0ea 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(self.A, self.h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From 769a95941bc3f4367be0201814239d1cdbb14879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 07/30] fix: tabular storage offsets follow the sorted storage
 order

---
 pipedream_solver/nsuperlink.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 659aed7..fcbd4db 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -440,13 +440,11 @@ class nSuperLink(SuperLink):
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
             sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
-            _storage_inds = []
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
             order = []
-            ix = 0
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
@@ -454,16 +452,14 @@ class nSuperLink(SuperLink):
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
-                _storage_inds.append(ix)
                 order.append(storage_name_to_ind[name])
-                ix += len(h)
                 _storage_lens.append(len(h))
             order = np.argsort(order)
             _storage_hs = np.concatenate([_storage_hs[i] for i in order])
             _storage_As = np.concatenate([_storage_As[i] for i in order])
             _storage_Vs = np.concatenate([_storage_Vs[i] for i in order])
-            _storage_inds = np.asarray(_storage_inds)[order]
             _storage_lens = np.asarray(_storage_lens)[order]
+            _storage_inds = np.cumsum(_storage_lens) - _storage_lens
             _storage_js = sj_to_storage_ind.index.values
             _storage_codes = sj_to_storage_ind.values
         # Export instance variables
-- 
2.43.0


From b32bc993f5587f280392be575ca4de8416561e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 08/30] fix: tabular storage area is held at its end values
 outside the table

---
 pipedream_solver/nsuperlink.py | 6 +++---
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index fcbd4db..6911329 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1993,8 +1993,8 @@ def numba_compute_tabular_storage_areas(h_j, A_sj, hs, As, sjs, sts, inds, lens)
         size = lens[st]
         h_range = hs[ind:ind+size]
         A_range = As[ind:ind+size]
-        Amin = A_range.min()
-        Amax = A_range.max()
+        Amin = A_range[0]
+        Amax = A_range[size - 1]
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
@@ -2025,7 +2025,7 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
         hmax = h_range.max()
         Vmin = V_range.min()
         Vmax = V_range.max()
-        Amax = A_range.max()
+        Amax = A_range[size - 1]
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index c58a0ea..6903cfb 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -65,7 +65,7 @@ class Tabular():
         self.V = scipy.integrate.cumulative_trapezoid(self.A, self.h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
-        self.Amax = self.A.max()
+        self.Amax = self.A[self.h.argmax()]
         self.A_interpolator = scipy.interpolate.interp1d(self.h, self.A)
         self.V_interpolator = scipy.interpolate.interp1d(self.h, self.V)
 
-- 
2.43.0


From a8886576169ef447377c14415e6e39ae54d5c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 09/30] fix: water-quality sections use each link's own shape
 and diameter

---
 pipedream_solver/nquality.py | 52 ++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0818254..dd92f93 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -273,7 +273,7 @@ class QualityBuilder():
         _I_1k = self._I_1k
         _I_Np1k = self._I_Np1k
         self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(_I_1k,
-               _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
+               _I_Np1k, self._i_1k, self._i_nk, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
                self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next, self._z_inv_j, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
                self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
                self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev)
@@ -1646,24 +1646,30 @@ def c_I_b(c_ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
 
 @njit
 def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
-    if _geom_codes[0] ==1:
-        d = _g1_ik
-        y = 0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-        y[y < 0] = 0
-        y[y > d] = d[y > d]
-        r = d / 2
-        phi = y / r
-        phi[phi < 0] = 0
-        phi[phi > 2] = 2
-        theta = np.arccos(1 - phi)
-        _A_ik_next = r**2 * (theta - np.cos(theta) * np.sin(theta))
-    elif _geom_codes[0] ==3:
-        _A_ik_next = _B_ik[Ix_ik]*0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-    else:
-        raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')    
+    _A_ik_next = np.zeros(len(Ix_ik))
+    for i in range(len(Ix_ik)):
+        y = 0.5*(_h_Ik_next[_Ik[i]] + _h_Ik_next[_Ip1k[i]])
+        if _geom_codes[i] ==1:
+            d = _g1_ik[i]
+            if y < 0:
+                y = 0.0
+            elif y > d:
+                y = d
+            r = d / 2
+            phi = y / r
+            if phi < 0:
+                phi = 0
+            elif phi > 2:
+                phi = 2
+            theta = np.arccos(1 - phi)
+            _A_ik_next[i] = r**2 * (theta - np.cos(theta) * np.sin(theta))
+        elif _geom_codes[i] ==3:
+            _A_ik_next[i] = _B_ik[i]*y
+        else:
+            raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
     return _A_ik_next
 @njit
-def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
+def geometry_WQ2(_I_1k, _I_Np1k, _i_1k, _i_nk, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
                  _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_j, _H_j_prev, _Q_dk_next,
                  _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
                  _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
@@ -1675,8 +1681,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         _Q_uk_dn_next[k] = (_Q_uk_next[k] - (0.5*_B_uk[k]*_dx_uk[k])
                                 *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
         # Calculate the cross-sectional area of upstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+        if _geom_codes[_i_1k[k]] ==1:
+            d = _g1_ik[_i_1k[k]]
             y = 0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]])
             if y < 0:
                 y = 0.0
@@ -1704,7 +1710,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_uk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_1k[k]] ==3:
             _A_uk_next[k] = (_B_uk[k]*0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]]))
             _A_uk_prev[k] = (_B_uk[k]*0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]]))
         else:
@@ -1716,8 +1722,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                                 *(_H_j_next[_J_dk[k]] - _H_j_prev[_J_dk[k]])/_dt)
         
         # Calculate the cross-sectional area of downstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+        if _geom_codes[_i_nk[k]] ==1:
+            d = _g1_ik[_i_nk[k]]
             y = 0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
@@ -1744,7 +1750,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_dk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_nk[k]] ==3:
             _A_dk_next[k] = (_B_dk[k]*0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]]))
             _A_dk_prev[k] = (_B_dk[k]*0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]]))
         else:
-- 
2.43.0


From dbb05ffa616249c4d8745f3d86c532ec292d808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 10/30] fix: step advances by the model's time step when none
 is passed

---
 pipedream_solver/superlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..abe9d7c 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4054,6 +4054,8 @@ class SuperLink():
              first_time=False, implicit=True, banded=False, first_iter=True):
         _method = self._method
         _exit_hydraulics = self._exit_hydraulics
+        if dt is None:
+            dt = self._dt
         if banded:
             self.solve_banded_matrix(implicit=implicit)
         else:
@@ -4117,6 +4119,8 @@ class SuperLink():
         implicit : bool
             (Deprecated)
         """
+        if dt is None:
+            dt = self._dt
         if banded is None:
             banded = self.banded
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
-- 
2.43.0


From 867ce699fcb60ca2077d97165c16bfe4aa4d334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 11/30] fix: water-quality step without a time step uses the
 hydraulic model's last time step

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index dd92f93..7b1cb24 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -977,9 +977,9 @@ class QualityBuilder():
         --------
         None
         """
-        self.import_hydraulic_states(_dt=dt)
         if dt is None:
             dt = self._dt
+        self.import_hydraulic_states(_dt=dt)
         if Q_0j is None:
             Q_0j = self.hydraulics._Q_in
         if Q_0Ik is None:
-- 
2.43.0


From f6a94255168f4c5f3f828c407b1c6c0b2395fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 12/30] fix: building a model no longer adds its shapes to the
 shared geometry code table

---
 pipedream_solver/nsuperlink.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 6911329..70ca8fc 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -318,7 +318,7 @@ class nSuperLink(SuperLink):
         nk = self.nk
         n_o = self.n_o
         # Handle regular geometries
-        _geom_codes = np.array([_geom_numbers.setdefault(shape, 0)
+        _geom_codes = np.array([_geom_numbers.get(shape, 0)
                                 for shape in _shape_ik], dtype=np.int64)
         _is_irregular = _shape_ik == 'irregular'
         _has_irregular = _is_irregular.any()
@@ -378,7 +378,7 @@ class nSuperLink(SuperLink):
                                      pipedream_solver.geometry.geom_code['elliptical'])
         # Handle orifices
         if n_o:
-            _geom_codes_o = np.array([_geom_numbers.setdefault(shape, 0)
+            _geom_codes_o = np.array([_geom_numbers.get(shape, 0)
                                       for shape in _shape_o], dtype=np.int64)
             self._geom_codes_o = _geom_codes_o
         # Add default Preissman slot for circular
-- 
2.43.0


From 891aae1bea3d9c3acf1834f5b72a0613926b6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 13/30] fix: building a model no longer writes sample_points
 into the caller's transects

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 70ca8fc..36ca252 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -347,7 +347,7 @@ class nSuperLink(SuperLink):
             for name, transect in transects.items():
                 x = transect['x']
                 y = transect['y']
-                sample_points = transect.setdefault('sample_points', 100)
+                sample_points = transect.get('sample_points', 100)
                 w = np.linspace(0., y.max(), sample_points)
                 A = np.array([pipedream_solver.ngeometry.Transect_A_ik(w_i, x, y) for w_i in w])
                 B = np.array([pipedream_solver.ngeometry.Transect_B_ik(w_i, x, y) for w_i in w])
-- 
2.43.0


From 3cc3c9135c91e71db85c594bb37fb4b58c7b8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 14/30] fix: bed slope of the downstream end section is guarded
 by its own length

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index abe9d7c..118ef0e 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -730,7 +730,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From 7d84d6f0a31accfdf969a18039f0083234eb5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 15/30] fix: the band of the matrix reaches the outermost
 diagonal that holds a link

The scan stopped at the first empty diagonal, so with a network whose numbering
leaves a diagonal empty the banded solver dropped the coupling terms beyond it.
---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 118ef0e..6118f96 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -952,8 +952,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From 71417eb75b3f5c11628980db212d4b0954b27009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 16/30] fix: a superlink turned to flow downhill takes the
 parameters of its ends along

The constructor exchanged the end superjunctions of a superlink given in the
uphill direction but left the invert offsets, end lengths and loss coefficients
with the wrong end.
---
 pipedream_solver/superlink.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 6118f96..b8e5f09 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -308,6 +308,14 @@ class SuperLink():
                 if cond:
                     superlinks.loc[k, 'sj_0'] = sj_1
                     superlinks.loc[k, 'sj_1'] = sj_0
+                    # Each end takes its own parameters along
+                    superlinks.loc[k, 'in_offset'] = z_inv_dk
+                    superlinks.loc[k, 'out_offset'] = z_inv_uk
+                    for up, down in (('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
+                        if (up in superlinks.columns) and (down in superlinks.columns):
+                            value_up = superlinks.loc[k, up]
+                            superlinks.loc[k, up] = superlinks.loc[k, down]
+                            superlinks.loc[k, down] = value_up
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From cd451390147b5994cdab7ddfe5dd8fa17d73eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 17/30] fix: water-quality parameters follow the automatic
 reordering of superjunctions

With auto_permute the hydraulic model reorders its superjunctions; the decay
coefficients, initial concentrations and boundary flags kept the table's order.
---
 pipedream_solver/nquality.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 7b1cb24..a8da385 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -97,6 +97,8 @@ class QualityBuilder():
     def __init__(self, hydraulics, superjunction_params, superlink_params,
                  junction_params=None, link_params=None, c_min=0.0, c_max=np.inf):
         self.hydraulics = hydraulics
+        # Superjunctions may have been reordered by the hydraulic model
+        superjunction_params = superjunction_params.iloc[self.hydraulics.permutations]
         self._ki = self.hydraulics._ki
         self._kI = self.hydraulics._kI
         self._K_j = superjunction_params['K'].values.astype(np.float64)
-- 
2.43.0


From e4400bddc12287941d9b76a86c65633945d600b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 18/30] fix: ponded depth grows by the excess rate times the
 time step

---
 pipedream_solver/infiltration.py  | 6 +++---
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..99fbecd 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -368,9 +368,9 @@ class GreenAmpt():
         A_s = self.A_s
         self.Q = np.maximum((i - f), 0.) * A_s
 
-    def compute_ponding_depth(self, i):
+    def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f)
+        self.d += (i - f) * dt
         self.d = np.maximum(self.d, 0.)
 
     def step(self, dt, i):
@@ -402,7 +402,7 @@ class GreenAmpt():
         if unsat_case_3.any():
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..44c5b41 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -198,7 +198,7 @@ class nGreenAmpt(GreenAmpt):
         if numba_any(unsat_case_3):
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
-- 
2.43.0


From bffd369eafb17f63e6ffa4b4c044734fa74fc202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 19/30] fix: cumulative infiltration does not become negative
 while the soil recovers

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 99fbecd..b25d644 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -141,7 +141,7 @@ class GreenAmpt():
         d_theta = kr * theta_dmax * dt
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
-        F -= d_theta * Lu
+        F[:] = np.maximum(F - d_theta * Lu, 0.)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From ab8f1551999c37791f3d41bba84ed43c38f4ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 20/30] fix: metre to inch conversion in the Green-Ampt soil
 constants

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index b25d644..898b53f 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -50,7 +50,7 @@ class GreenAmpt():
         # Maximum soil moisture deficit
         self.theta_dmax = np.copy(self.theta_d)
         # Initialize constant parameters
-        m_to_in = 39.97
+        m_to_in = 39.37
         in_to_m = 0.0254
         s_to_hr = 3600
         hr_to_s = 1 / 3600
-- 
2.43.0


From ebea3e42c5afc1cc1e2aa078430044ba3cfa09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 21/30] fix: plain Green-Ampt starts the root search where the
 derivative is not zero

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 898b53f..3772998 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -252,7 +252,7 @@ class GreenAmpt():
             n = sub_dt.size
             F_2 = np.zeros(n, dtype=float)
             for i in range(n):
-                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, F[cond_2][i],
+                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, Fs[cond_2][i],
                                                self.derivative_green_ampt,
                                                args=(Fs[cond_2][i], sub_dt[i], Ks[cond_2][i],
                                                      theta_d[cond_2][i], psi_f[cond_2][i]))
-- 
2.43.0


From b73d3e3f9006bc0164a75fa69ea78ca7c3c653b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 22/30] fix: accelerated Green-Ampt leaves saturation when less
 water is available than can infiltrate

---
 pipedream_solver/ninfiltration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 44c5b41..6c7ee3c 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -152,7 +152,8 @@ class nGreenAmpt(GreenAmpt):
         F_2 = np.zeros(n, dtype=float)
         # Run green ampt equation
         dts = np.full(n, dt)
-        F_2 = run_green_ampt_newton(F_2, F, F, dts, Ks, theta_d, psi_f, ia)
+        F_2 = run_green_ampt_newton(F_2, F, F, dts, Ks, theta_d, psi_f, ia,
+                                    bounded=False)
         dF = F_2 - F
         cond = (dF > ia * dt)
         if cond.any():
-- 
2.43.0


From 76521b6ca62c4c9b32394b15ad432ba030896b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 23/30] fix: record the model's current state, not its previous
 one, when a simulation starts

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..2f8684f 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -229,7 +229,7 @@ class Simulation():
             if state in self.model.states:
                 setattr(self.states, state, {})
                 getattr(self.states, state).update({float(model.t) :
-                                                    np.copy(model.states[state])})
+                                                    np.copy(getattr(model, state))})
 
     def __enter__(self):
         return self
-- 
2.43.0


From 44a77ffad7c23ff33ab9743a3bbcfca825eb3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 24/30] fix: start the simulation at the requested start time

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 2f8684f..7871295 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -151,11 +151,11 @@ class Simulation():
         if t_start is None:
             if any_inputs:
                 self.t_start = min(i.index.min() for i in self.inputs if i is not None)
-                self.model.t = self.t_start
             else:
                 self.t_start = model.t
         else:
             self.t_start = t_start
+        self.model.t = self.t_start
         if t_end is None:
             if any_inputs:
                 self.t_end = max(i.index.max() for i in self.inputs if i is not None)
-- 
2.43.0


From 608b705b8853321d0ff8d0cbe6e484b19f739cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 25/30] fix: retry a rejected step with the caller's tolerance
 and norm

---
 pipedream_solver/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 7871295..cba910b 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -569,7 +569,8 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol,
+                          norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From 7ead0b4b94e1cbeddc6bb3e072202bbbc509185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 26/30] fix: scale truncation errors by the magnitude of the
 heads

---
 pipedream_solver/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index cba910b..520ca4f 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -326,9 +326,8 @@ class Simulation():
             rtol = self.rtol
         current_state = self.model.H_j
         previous_state = self.model.states['H_j']
-        # TODO: This should probably be absolute value
-        max_state = np.maximum(current_state, previous_state)
-        scaled_err = err / (atol + max_state * rtol)
+        max_state = np.maximum(np.abs(current_state), np.abs(previous_state))
+        scaled_err = np.abs(err) / (atol + max_state * rtol)
         return scaled_err
 
     def _normed_error(self, scaled_err, norm=2):
-- 
2.43.0


From 0dff356c7ebc30650133613e30978d9e39fe75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 27/30] fix: square-root Kalman filter uses transposed factors
 and returns the innovation covariance

---
 pipedream_solver/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index 60c7314..e66f577 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -162,9 +162,9 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     """
     I = np.eye(A_1.shape[0])
     A_1_inv = np.linalg.inv(A_1)
-    Rq = np.linalg.cholesky(Qcov)
-    Rr = np.linalg.cholesky(Rcov)
-    F = np.linalg.cholesky(P_x_k_k)
+    Rq = np.linalg.cholesky(Qcov).T @ C.T
+    Rr = np.linalg.cholesky(Rcov).T
+    F = np.linalg.cholesky(P_x_k_k).T
     
     x_k1_k = A_1_inv @ b
     Fbar = np.linalg.qr(np.vstack((F@A_2.T@A_1_inv.T, Rq)), mode='r')
@@ -177,5 +177,6 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     x_hat = x_k1_k + L_x_k1 @ (Z_next - H @ x_k1_k)
     
     P_x_k1_k1 = Fhat.T@Fhat
+    P_zz = G.T@G
     b_hat = A_1 @ x_hat
-    return b_hat, P_x_k1_k1
+    return b_hat, P_x_k1_k1, P_zz
-- 
2.43.0


From fa69a81279b56a97e7cf5a08b9d6d847a15c67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 28/30] fix: raise when the bounded root search does not
 converge instead of returning None

---
 pipedream_solver/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index e66f577..69d6822 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -96,6 +96,7 @@ def bounded_newton_raphson(f, df, x0, x_lb, x_ub, args,
             x_lb = x
         else:
             x_ub = x
+    raise ValueError('No zero found')
 
 def _kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
                           Qcov, Rcov):
-- 
2.43.0


From faae2a752b351551fd793b9f2ad9c8329117949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 29/30] fix: locate each superlink's interior unknowns when
 superlinks have different numbers of links

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index b8e5f09..73e5f41 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -661,7 +661,7 @@ class SuperLink():
         self._I_1k = self.start_nodes
         self._I_2k = self.forward_I_I[self._I_1k]
         self._i_1k = self.forward_I_i[self._I_1k]
-        self._k_1k = np.cumsum(self.nk - 1) - (self.nk[0] - 1)
+        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
         self._T_ik = np.zeros(self._ik.size)
         self._U_Ik = np.zeros(self._I.size)
         self._V_Ik = np.zeros(self._I.size)
-- 
2.43.0


From a4ac08e07a8fe0169c38017986588b051df4fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:27 +0000
Subject: [PATCH 30/30] fix: pass link_concentrations_from_recurrence arguments
 in the order the recurrences take them

---
 pipedream_solver/nquality.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index a8da385..bec4b63 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -943,12 +943,12 @@ class QualityBuilder():
         _c_1k = _c_Ik[_I_1k]
         _c_Np1k = _c_Ik[_I_Np1k]
         # Compute internal flow estimates in both directions
-        c_ik_b = c_i_b(_X_Ik[~_is_end], _c_Ik[~_is_end],
-                       _Y_Ik[~_is_end], _Z_Ik[~_is_end],
-                       np.repeat(_c_Np1k, nk))
-        c_ik_f = c_i_f(_U_Ik[~_is_end], _c_Ik[~_is_start],
-                       _V_Ik[~_is_end], _W_Ik[~_is_end],
-                       np.repeat(_c_1k, nk))
+        c_ik_b = c_i_b(_c_Ik[~_is_end], np.repeat(_c_Np1k, nk),
+                       _X_Ik[~_is_end], _Y_Ik[~_is_end],
+                       _Z_Ik[~_is_end])
+        c_ik_f = c_i_f(_c_Ik[~_is_start], np.repeat(_c_1k, nk),
+                       _U_Ik[~_is_end], _V_Ik[~_is_end],
+                       _W_Ik[~_is_end])
         return c_ik_b, c_ik_f
 
     def step(self, dt=None, c_bc=None, c_0j=None, Q_0j=None, c_0Ik=None,
-- 
2.43.0

