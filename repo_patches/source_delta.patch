From 2aa9f9d6378bbf4c9ea591f74290fac20f83f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 01/37] fix: offset of each superlink's interior unknowns when
 superlinks have different numbers of links

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..b9149da 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -653,7 +653,7 @@ class SuperLink():
         self._I_1k = self.start_nodes
         self._I_2k = self.forward_I_I[self._I_1k]
         self._i_1k = self.forward_I_i[self._I_1k]
-        self._k_1k = np.cumsum(self.nk - 1) - (self.nk[0] - 1)
+        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
         self._T_ik = np.zeros(self._ik.size)
         self._U_Ik = np.zeros(self._I.size)
         self._V_Ik = np.zeros(self._I.size)
-- 
2.43.0


From 5f4266a53164299e0153e7be6c52522bcab55475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 02/37] fix: downstream end slope guards on the downstream end
 length

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index b9149da..4328e2c 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -730,7 +730,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From 67ad5be19f0ea6218f17812a79d763c1b3266e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 03/37] fix: friction loss in the momentum-based superlink end
 conditions (sign upstream, head units)

---
 pipedream_solver/nsuperlink.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..c7193dd 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2324,7 +2324,7 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
         t_1[n] = friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
                                 n_uk[n], Sf_method_uk[n], g)
     t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
-    return t_0 + t_1 + t_2
+    return t_0 - t_1 / g / A_uk + t_2
 
 @njit(float64[:](float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
                  int64[:], float64, float64), cache=True)
@@ -2339,7 +2339,7 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
         t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
                                 n_dk[n], Sf_method_dk[n], g)
     t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
-    return t_0 + t_1 + t_2
+    return t_0 + t_1 / g / A_dk + t_2
 
 @njit(float64[:](float64[:], float64[:], float64[:], float64[:], float64[:],
                  float64[:], float64, float64), cache=True)
-- 
2.43.0


From 3acac583aefd3b801cda477d003bc474fc240509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:01 +0000
Subject: [PATCH 04/37] fix: Darcy-Weisbach friction divides by zero when there
 is no flow

---
 pipedream_solver/nsuperlink.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index c7193dd..88ba678 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2047,9 +2047,13 @@ def friction_slope(Q_ik_t, dx_ik, A_ik, R_ik, n_ik, Sf_method_ik, g=9.81):
             # kinematic viscosity(meter^2/sec), we can consider this is constant.
             nu = 0.0000010034
             Re = (np.abs(Q_ik_t) / A_ik) * 4 * R_ik / nu
-            f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
-            t_1 = (0.01274 * g * f * np.abs(Q_ik_t) * dx_ik
-                   / (A_ik * R_ik))
+            if Re > 0:
+                f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
+                t_1 = (0.01274 * g * f * np.abs(Q_ik_t) * dx_ik
+                       / (A_ik * R_ik))
+            else:
+                # No friction loss in water at rest
+                t_1 = 0.
         else:
             raise ValueError('Invalid friction method.')
         return t_1
-- 
2.43.0


From a9b6cb9b113b7a753110f2af66566ae57c81bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:46 +0000
Subject: [PATCH 05/37] fix: tabular storage volumes integrate area over depth
 (cumtrapz had its arguments swapped and is gone from scipy)

---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 88ba678..f2a41ea 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..157e008 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From 4e502f76e5d804c7ee4f25b8ae98b534ee8c830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 06/37] fix: offsets of storage tables that are not listed in
 name order

---
 pipedream_solver/nsuperlink.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index f2a41ea..7951dd5 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -440,13 +440,11 @@ class nSuperLink(SuperLink):
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
             sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
-            _storage_inds = []
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
             order = []
-            ix = 0
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
@@ -454,16 +452,14 @@ class nSuperLink(SuperLink):
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
-                _storage_inds.append(ix)
                 order.append(storage_name_to_ind[name])
-                ix += len(h)
                 _storage_lens.append(len(h))
             order = np.argsort(order)
             _storage_hs = np.concatenate([_storage_hs[i] for i in order])
             _storage_As = np.concatenate([_storage_As[i] for i in order])
             _storage_Vs = np.concatenate([_storage_Vs[i] for i in order])
-            _storage_inds = np.asarray(_storage_inds)[order]
             _storage_lens = np.asarray(_storage_lens)[order]
+            _storage_inds = np.cumsum(_storage_lens) - _storage_lens
             _storage_js = sj_to_storage_ind.index.values
             _storage_codes = sj_to_storage_ind.values
         # Export instance variables
-- 
2.43.0


From 25bda9f68e3cb345c8e01ee3c036f134dd6bb03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 07/37] fix: top width of elliptical sections (chord of the
 ellipse, not its polar radius)

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..7b95570 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -702,8 +702,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..5f7e3d3 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -734,8 +734,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0


From 436c787e849e6422bcb033733f86a2bb6d5fc220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 08/37] fix: area and perimeter of parabolic sections use the
 top width at the water depth

---
 pipedream_solver/geometry.py  | 11 ++++++++---
 pipedream_solver/ngeometry.py | 12 +++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 7b95570..c840a7c 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -533,7 +533,9 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
-        A = 2 * b * y / 3
+        # Top width at depth y
+        B = b * np.sqrt(y / y_max)
+        A = 2 * B * y / 3
         return A
 
     @classmethod
@@ -557,8 +559,10 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
-        x = 4 * y / b
-        Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+        # Top width at depth y
+        B = b * np.sqrt(y / y_max)
+        x = 4 * y / B
+        Pe = (B / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
 
     @classmethod
@@ -598,6 +602,7 @@ class Parabolic():
         b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
+        y[y > y_max] = y_max[y > y_max]
         B = b * np.sqrt(y / y_max)
         return B
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 5f7e3d3..04c7854 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -581,7 +581,9 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         y = 0
     if y > y_max:
         y = y_max
-    A = 2 * b * y / 3
+    # Top width at depth y
+    B = b * np.sqrt(y / y_max)
+    A = 2 * B * y / 3
     return A
 
 @njit(float64(float64, float64, float64, float64),
@@ -608,8 +610,10 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         y = eps
     if y > y_max:
         y = y_max
-    x = 4 * y / b
-    Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+    # Top width at depth y
+    B = b * np.sqrt(y / y_max)
+    x = 4 * y / B
+    Pe = (B / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
 
 @njit(float64(float64, float64),
@@ -654,6 +658,8 @@ def Parabolic_B_ik(h_Ik, h_Ip1k, g1, g2):
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
+    if y > y_max:
+        y = y_max
     B = b * np.sqrt(y / y_max)
     return B
 
-- 
2.43.0


From 2d3efc0d8409dc24df9077c9143e6e4218fd8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 09/37] fix: closed orifices with a curved opening divide by
 zero

---
 pipedream_solver/nsuperlink.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 7951dd5..888d8d9 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1857,7 +1857,10 @@ def numba_orifice_geometry(_Ao, h_eo, u_o, _g1_o, _g2_o, _g3_o, _geom_codes_o, n
         g3 = _g3_o[i]
         u = u_o[i]
         h_e = h_eo[i]
-        if geom_code:
+        if u == 0:
+            # Orifice is closed
+            _Ao[i] = 0.
+        elif geom_code:
             if geom_code == 1:
                 _Ao[i] = pipedream_solver.ngeometry.Circular_A_ik(h_e, h_e, g1 * u)
             elif geom_code == 2:
-- 
2.43.0


From 0e9b627133168a7fc96cbdc942205dc2b8cf053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 10/37] fix: wetted perimeter at the ends of elliptical
 superlinks was never computed

---
 pipedream_solver/nsuperlink.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 888d8d9..e4d21e8 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -567,6 +567,9 @@ class nSuperLink(SuperLink):
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
         # Compute hydraulic geometry for regular geometries
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_uk, _geom_codes, _i_1k, _I_1k, _J_uk, _h_Ik,
+                                             H_j, _z_inv_uk, _theta_uk, _g1_ik, _g2_ik)
         numba_boundary_geometry(_A_uk, _Pe_uk, _R_uk, _B_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
                                 _geom_codes, _i_1k, _I_1k, _J_uk)
@@ -619,6 +622,9 @@ class nSuperLink(SuperLink):
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
         # Compute hydraulic geometry for regular geometries
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_dk, _geom_codes, _i_nk, _I_Np1k, _J_dk, _h_Ik,
+                                             H_j, _z_inv_dk, _theta_dk, _g1_ik, _g2_ik)
         numba_boundary_geometry(_A_dk, _Pe_dk, _R_dk, _B_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
                                 _geom_codes, _i_nk, _I_Np1k, _J_dk)
@@ -1691,6 +1697,18 @@ def handle_elliptical_perimeter(_Pe_ik, _ellipse_ix, _Ik, _Ip1k, _h_Ik, _g1_ik,
                                                             _g1_ik[_ik_g],
                                                             _g2_ik[_ik_g])
 
+def handle_elliptical_boundary_perimeter(_Pe_bk, _geom_codes, _i_bk, _I_bk, _J_bk, _h_Ik,
+                                         _H_j, _z_inv_bk, _theta_bk, _g1_ik, _g2_ik):
+    _k_g = np.flatnonzero(_geom_codes[_i_bk] ==
+                          pipedream_solver.geometry.geom_code['elliptical'])
+    if (_k_g.size > 0):
+        _i_g = _i_bk[_k_g]
+        _Pe_bk[_k_g] = pipedream_solver.geometry.Elliptical.Pe_ik(_h_Ik[_I_bk[_k_g]],
+                                                            _theta_bk[_k_g] * (_H_j[_J_bk[_k_g]]
+                                                                               - _z_inv_bk[_k_g]),
+                                                            _g1_ik[_i_g],
+                                                            _g2_ik[_i_g])
+
 @njit(int64(float64[:], float64[:], float64[:], float64[:], float64[:],
             float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
             int64[:], int64[:], int64[:]),
-- 
2.43.0


From 1451537b30d6d2b527336a02996e3dc1ed3c38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 11/37] fix: storage tables that no tabular superjunction uses
 raise KeyError, and functional superjunctions read them

---
 pipedream_solver/nsuperlink.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index e4d21e8..5c5b3ce 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -433,19 +433,22 @@ class nSuperLink(SuperLink):
         # All entries must either be function or tabular
         assert (_tabular.sum() + _functional.sum()) == _storage_type.shape[0]
         # Configure tabular storages
-        if storages:
+        if storages and _tabular.any():
             _tabular_storages = _storage_table[_tabular]
             _storage_indices = pd.Series(_tabular_storages.index, _tabular_storages.values)
             unique_storage_names = np.unique(_storage_indices.index.values)
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
-            sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
+            sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
             order = []
             for name, storage in storages.items():
+                # Skip tables that no superjunction refers to
+                if name not in storage_name_to_ind.index:
+                    continue
                 A = storage['A']
                 h = storage['h']
                 V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
-- 
2.43.0


From b26ef891e64b10efbd28951d5c2346362182f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 12/37] fix: bandwidth of systems with an empty diagonal inside
 the band

---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 4328e2c..a0c4ec2 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -952,8 +952,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From e76927d558ea98b30d286ae216703090b88d0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 13/37] fix: repositioning junctions indexes the positions of
 one superlink with a network-wide index

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 5c5b3ce..7bce0ea 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3190,11 +3190,11 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             _z_inv_I = _z_inv_Ik[_I_1:_I_end]
             _h_I = _h_Ik[_I_1:_I_end]
             _dx_i = _dx_ik[_i_1:_i_end]
+            _x0 = _x_I[0]
             # Move junction if downstream head is within range
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[_I_1]
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-- 
2.43.0


From e032c68dab34182ac7666c79882b00def500b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 14/37] fix: repositioned junctions return to a centre that
 ignores the upstream end length

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 7bce0ea..ad38167 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3198,7 +3198,7 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-                x_m = _xc[k]
+                x_m = _xc[k] + _x0
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From 9313e629061f6b51e556e5ffe5fa6b8b7826c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 15/37] fix: repositioning a junction upstream duplicates the
 flow of the wrong link

---
 pipedream_solver/nsuperlink.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index ad38167..178f940 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3227,7 +3227,11 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             # If position has shifted interpolate flow
             if shifted:
                 ix = np.arange(nlinks)
-                ix[pos_prev] = pos_next
+                # The link that is split keeps its flow in both parts
+                if pos_next > pos_prev:
+                    ix[pos_prev] = pos_next
+                else:
+                    ix[pos_prev] = pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
                 _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
-- 
2.43.0


From 333c1b7cf5b8caec708c5ccaa1692beac9c69498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 16/37] fix: weights of the mean flow of links merged by
 repositioning were swapped

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 178f940..5b0cc0d 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3234,6 +3234,6 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
                     ix[pos_prev] = pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
-                _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
+                _Q_i[pos_prev - 1] = r * _Q_i[pos_prev - 1] + (1 - r) * _Q_i[pos_prev]
                 _Q_ik[_i_1:_i_end] = _Q_i[ix]
 
-- 
2.43.0


From 17c2a3e506781ca52c62ab6b0d212c9f6fbbb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 17/37] fix: step without a time step uses the default time
 step of the model

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index a0c4ec2..3b69b3d 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4115,6 +4115,8 @@ class SuperLink():
         implicit : bool
             (Deprecated)
         """
+        if dt is None:
+            dt = self._dt
         if banded is None:
             banded = self.banded
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
-- 
2.43.0


From b2cc7ad84dd95f66cb69a24f05736bf4c0beb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 18/37] fix: saved states lack whether superlink ends are
 connected

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 3b69b3d..cfda972 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3924,6 +3924,8 @@ class SuperLink():
         self.states['A_dk'] = np.copy(self.A_dk)
         self.states['A_sj'] = np.copy(self.A_sj)
         self.states['V_j'] = np.copy(self.V_j)
+        self.states['_theta_uk'] = np.copy(self._theta_uk)
+        self.states['_theta_dk'] = np.copy(self._theta_dk)
 
     def load_state(self, states={}, exclude_states=set(),
                    compute_hydraulic_geometries=True):
-- 
2.43.0


From 587feba524c7ba3ad562aef68312807652075709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 19/37] fix: saved states of models with mobile junctions lack
 their positions

---
 pipedream_solver/superlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index cfda972..a8c2d69 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3926,6 +3926,10 @@ class SuperLink():
         self.states['V_j'] = np.copy(self.V_j)
         self.states['_theta_uk'] = np.copy(self._theta_uk)
         self.states['_theta_dk'] = np.copy(self._theta_dk)
+        if self.mobile_elements:
+            self.states['_dx_ik'] = np.copy(self._dx_ik)
+            self.states['_z_inv_Ik'] = np.copy(self._z_inv_Ik)
+            self.states['_elem_pos'] = np.copy(self._elem_pos)
 
     def load_state(self, states={}, exclude_states=set(),
                    compute_hydraulic_geometries=True):
-- 
2.43.0


From 93bb80ce5a3dce272b53d289fa4b07eefa878750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 20/37] fix: simulations given a start time start at time zero

---
 pipedream_solver/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..e1281c9 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -156,6 +156,7 @@ class Simulation():
                 self.t_start = model.t
         else:
             self.t_start = t_start
+            self.model.t = self.t_start
         if t_end is None:
             if any_inputs:
                 self.t_end = max(i.index.max() for i in self.inputs if i is not None)
-- 
2.43.0


From 002f27d391c5b5200548b59fa36b66a55752dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 21/37] fix: retried steps forget the tolerance and the norm of
 the error

---
 pipedream_solver/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index e1281c9..66bdb26 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -570,7 +570,8 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol, norm=norm,
+                          coeffs=coeffs, safety_factor=safety_factor, **kwargs)
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From f929d5d3884e210e779d5f0b12aa506118cb8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 22/37] fix: error estimates of adaptive steps cancel between
 superjunctions and change sign with the datum

---
 pipedream_solver/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 66bdb26..6e6f41e 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -327,9 +327,8 @@ class Simulation():
             rtol = self.rtol
         current_state = self.model.H_j
         previous_state = self.model.states['H_j']
-        # TODO: This should probably be absolute value
-        max_state = np.maximum(current_state, previous_state)
-        scaled_err = err / (atol + max_state * rtol)
+        max_state = np.maximum(np.abs(current_state), np.abs(previous_state))
+        scaled_err = np.abs(err) / (atol + max_state * rtol)
         return scaled_err
 
     def _normed_error(self, scaled_err, norm=2):
-- 
2.43.0


From 81739b83b5b5eae6acfa1c85c50c846400b04cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 23/37] fix: square root Kalman filter (triangles, signal-input
 matrix, missing innovation covariance)

---
 pipedream_solver/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index 60c7314..f82306c 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -162,9 +162,10 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     """
     I = np.eye(A_1.shape[0])
     A_1_inv = np.linalg.inv(A_1)
-    Rq = np.linalg.cholesky(Qcov)
-    Rr = np.linalg.cholesky(Rcov)
-    F = np.linalg.cholesky(P_x_k_k)
+    # Upper triangular square roots such that X.T @ X is the covariance
+    Rq = np.linalg.cholesky(Qcov).T @ C.T
+    Rr = np.linalg.cholesky(Rcov).T
+    F = np.linalg.cholesky(P_x_k_k).T
     
     x_k1_k = A_1_inv @ b
     Fbar = np.linalg.qr(np.vstack((F@A_2.T@A_1_inv.T, Rq)), mode='r')
@@ -176,6 +177,7 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     Fhat = np.linalg.qr(np.block([[Fbar@(I - L_x_k1@H).T], [Rr@L_x_k1.T]]), mode='r')
     x_hat = x_k1_k + L_x_k1 @ (Z_next - H @ x_k1_k)
     
+    P_zz = G.T@G
     P_x_k1_k1 = Fhat.T@Fhat
     b_hat = A_1 @ x_hat
-    return b_hat, P_x_k1_k1
+    return b_hat, P_x_k1_k1, P_zz
-- 
2.43.0


From 2e43fa6e8677c03972db75dc8c6ff3f6fd2d142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 24/37] fix: covariance of a single observation becomes a
 vector

---
 pipedream_solver/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 6e6f41e..428045d 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -169,7 +169,7 @@ class Simulation():
             self.Rcov = np.zeros((model.M, model.M))
         elif np.isscalar(Rcov):
             self.Rcov = Rcov * np.eye(model.M)
-        elif (Rcov.shape[0] == Rcov.size):
+        elif (Rcov.ndim == 1):
             assert isinstance(Rcov, np.ndarray)
             self.Rcov = np.diag(Rcov)
         else:
@@ -179,7 +179,7 @@ class Simulation():
             self.Qcov = np.zeros((model.M, model.M))
         elif np.isscalar(Qcov):
             self.Qcov = Qcov * np.eye(model.M)
-        elif (Qcov.shape[0] == Qcov.size):
+        elif (Qcov.ndim == 1):
             assert isinstance(Qcov, np.ndarray)
             self.Qcov = np.diag(Qcov)
         else:
@@ -189,7 +189,7 @@ class Simulation():
             self.C = np.eye(model.M)
         elif np.isscalar(C):
             self.C = C * np.eye(model.M)
-        elif (C.shape[0] == C.size):
+        elif (C.ndim == 1):
             assert isinstance(C, np.ndarray)
             self.C = np.diag(C)
         else:
@@ -199,7 +199,7 @@ class Simulation():
             self.H = np.eye(model.M)
         elif np.isscalar(H):
             self.H = H * np.eye(model.M)
-        elif (H.shape[0] == H.size):
+        elif (H.ndim == 1):
             assert isinstance(H, np.ndarray)
             self.H = np.diag(H)
         else:
-- 
2.43.0


From 8bd84cef9ae5b73e5a6afa4e6a11f1864bf10ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 25/37] fix: wrong conversion of metres to inches in the
 recovery of soil moisture

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..6390d72 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -50,7 +50,7 @@ class GreenAmpt():
         # Maximum soil moisture deficit
         self.theta_dmax = np.copy(self.theta_d)
         # Initialize constant parameters
-        m_to_in = 39.97
+        m_to_in = 39.37
         in_to_m = 0.0254
         s_to_hr = 3600
         hr_to_s = 1 / 3600
-- 
2.43.0


From f188bee68f480a5c8d9d49272600b001be7bf54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 26/37] fix: cumulative infiltration becomes negative while the
 soil dries

---
 pipedream_solver/infiltration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 6390d72..b57c40a 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -142,6 +142,7 @@ class GreenAmpt():
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
         F -= d_theta * Lu
+        F[:] = np.maximum(F, 0.)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From 644ab5d9421d3c29162cafa44bf8d8da32431654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 27/37] fix: saturation within a step starts the search from
 the infiltration of another element

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index b57c40a..7a9d565 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -253,7 +253,7 @@ class GreenAmpt():
             n = sub_dt.size
             F_2 = np.zeros(n, dtype=float)
             for i in range(n):
-                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, F[cond_2][i],
+                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, Fs[cond_2][i],
                                                self.derivative_green_ampt,
                                                args=(Fs[cond_2][i], sub_dt[i], Ks[cond_2][i],
                                                      theta_d[cond_2][i], psi_f[cond_2][i]))
-- 
2.43.0


From 32ca61e19279f08a82f458d045b9aad4e8c81ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 28/37] fix: ponding depth adds a rate to a depth

---
 pipedream_solver/infiltration.py  | 6 +++---
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 7a9d565..175daa5 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -369,9 +369,9 @@ class GreenAmpt():
         A_s = self.A_s
         self.Q = np.maximum((i - f), 0.) * A_s
 
-    def compute_ponding_depth(self, i):
+    def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f)
+        self.d = self.d + (i - f) * dt
         self.d = np.maximum(self.d, 0.)
 
     def step(self, dt, i):
@@ -403,7 +403,7 @@ class GreenAmpt():
         if unsat_case_3.any():
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..44c5b41 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -198,7 +198,7 @@ class nGreenAmpt(GreenAmpt):
         if numba_any(unsat_case_3):
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
-- 
2.43.0


From beb9850ec6f703f6241b8f52615b23a4f23fea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 29/37] fix: water quality takes the previous area of links
 from the latest iterate of the flow

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0818254..24a97de 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -258,7 +258,7 @@ class QualityBuilder():
         # Calculate the cross-sectional area of links
         Ix_ik = np.arange(len(self._dx_ik_next))
         self._A_ik_next = geometry_WQ1(Ix_ik, self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._h_Ik_next, self._Ik, self._Ip1k, self._B_ik)
-        self._A_ik_prev = self.hydraulics._A_ik
+        self._A_ik_prev = geometry_WQ1(Ix_ik, self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._h_Ik_prev, self._Ik, self._Ip1k, self._B_ik)
         self._Q_ik_up_next, self._Q_ik_dn_next = Q_ik_up_dn(Ix_ik, self._Ik, self._Ip1k, _dt, self._Q_ik_next, self._B_ik, self._dx_ik_next, self._h_Ik_next, self._h_Ik_prev)
         _J_uk = self._J_uk
         _J_dk = self._J_dk
-- 
2.43.0


From 929baf3ccdb6bd287bce15cb8a94aa2b86abdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 30/37] fix: water quality ignores the offsets in the area of
 end reaches

---
 pipedream_solver/nquality.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 24a97de..d501927 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -274,7 +274,8 @@ class QualityBuilder():
         _I_Np1k = self._I_Np1k
         self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(_I_1k,
                _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
-               self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next, self._z_inv_j, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
+               self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next,
+               self.hydraulics._z_inv_uk, self.hydraulics._z_inv_dk, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
                self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
                self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev)
         
@@ -1664,7 +1665,7 @@ def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
     return _A_ik_next
 @njit
 def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
-                 _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_j, _H_j_prev, _Q_dk_next,
+                 _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_uk, _z_inv_dk, _H_j_prev, _Q_dk_next,
                  _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
                  _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
     
@@ -1677,7 +1678,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         # Calculate the cross-sectional area of upstream boundary links
         if _geom_codes[0] ==1:
             d = _g1_ik[k]
-            y = 0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]])
+            y = 0.5*(max(_H_j_next[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_next[_I_1k[k]])
             if y < 0:
                 y = 0.0
             elif y > d:
@@ -1691,7 +1692,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
             theta = np.arccos(1 - phi)
             _A_uk_next[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
             
-            y = 0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]])
+            y = 0.5*(max(_H_j_prev[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_prev[_I_1k[k]])
             if y < 0:
                 y = 0.0
             elif y > d:
@@ -1705,8 +1706,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
             theta = np.arccos(1 - phi)
             _A_uk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
         elif _geom_codes[0] ==3:
-            _A_uk_next[k] = (_B_uk[k]*0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]]))
-            _A_uk_prev[k] = (_B_uk[k]*0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]]))
+            _A_uk_next[k] = (_B_uk[k]*0.5*(max(_H_j_next[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_next[_I_1k[k]]))
+            _A_uk_prev[k] = (_B_uk[k]*0.5*(max(_H_j_prev[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_prev[_I_1k[k]]))
         else:
             raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
             
@@ -1718,7 +1719,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         # Calculate the cross-sectional area of downstream boundary links
         if _geom_codes[0] ==1:
             d = _g1_ik[k]
-            y = 0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]])
+            y = 0.5*(max(_H_j_next[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
             elif y > d:
@@ -1731,7 +1732,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_dk_next[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-            y = 0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]])
+            y = 0.5*(max(_H_j_prev[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_prev[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
             elif y > d:
@@ -1745,8 +1746,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
             theta = np.arccos(1 - phi)
             _A_dk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
         elif _geom_codes[0] ==3:
-            _A_dk_next[k] = (_B_dk[k]*0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]]))
-            _A_dk_prev[k] = (_B_dk[k]*0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]]))
+            _A_dk_next[k] = (_B_dk[k]*0.5*(max(_H_j_next[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_next[_I_Np1k[k]]))
+            _A_dk_prev[k] = (_B_dk[k]*0.5*(max(_H_j_prev[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_prev[_I_Np1k[k]]))
         else:
             raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
 
-- 
2.43.0


From 734d31c02fce45b29739d56ca06cef9c5a985273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 31/37] fix: water quality takes the diameter of end reaches
 from another superlink

---
 pipedream_solver/nquality.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index d501927..b716324 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -274,7 +274,7 @@ class QualityBuilder():
         _I_Np1k = self._I_Np1k
         self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(_I_1k,
                _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
-               self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next,
+               self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._i_1k, self._i_nk, self._H_j_next,
                self.hydraulics._z_inv_uk, self.hydraulics._z_inv_dk, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
                self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
                self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev)
@@ -1665,7 +1665,7 @@ def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
     return _A_ik_next
 @njit
 def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
-                 _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_uk, _z_inv_dk, _H_j_prev, _Q_dk_next,
+                 _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _i_1k, _i_nk, _H_j_next, _z_inv_uk, _z_inv_dk, _H_j_prev, _Q_dk_next,
                  _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
                  _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
     
@@ -1677,7 +1677,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                                 *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
         # Calculate the cross-sectional area of upstream boundary links
         if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+            d = _g1_ik[_i_1k[k]]
             y = 0.5*(max(_H_j_next[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_next[_I_1k[k]])
             if y < 0:
                 y = 0.0
@@ -1718,7 +1718,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         
         # Calculate the cross-sectional area of downstream boundary links
         if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+            d = _g1_ik[_i_nk[k]]
             y = 0.5*(max(_H_j_next[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
-- 
2.43.0


From a614e723ae57b07c1f1b2164dc83ed87d70381f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 32/37] fix: water quality step without a time step size fails

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index b716324..4e92d40 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -978,9 +978,9 @@ class QualityBuilder():
         --------
         None
         """
-        self.import_hydraulic_states(_dt=dt)
         if dt is None:
             dt = self._dt
+        self.import_hydraulic_states(_dt=dt)
         if Q_0j is None:
             Q_0j = self.hydraulics._Q_in
         if Q_0Ik is None:
-- 
2.43.0


From 4a82e61a0a2f679689317265e41f306e924f7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 33/37] fix: covariance of prescribed concentrations grows with
 their volume

---
 pipedream_solver/nquality.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 4e92d40..0147343 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -1024,7 +1024,7 @@ class QualityBuilder():
         Q_cov = (N_process_sigma**2)*np.eye(_M, _M)
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        A1_k[I_k,I_k] = np.where(self.bc, 0., A_sj_k*H_j_k_next/_dt)
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
@@ -1066,7 +1066,7 @@ class QualityBuilder():
             Q_cov = (N_process_sigma**2)*np.ones((_M, _M))
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        A1_k[I_k,I_k] = np.where(self.bc, 0., A_sj_k*H_j_k_next/_dt)
         self.x_hat, self.P_k, self.A_k, self.B_k = KF_WQ2(A1_k, I_k, A_sj_k, H_j_k_next, _dt, self.b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, self.A_L_kf, Q_cov, R_cov, measure)
         self._c_j = self.x_hat
         self._c_j_prev_kf = self.x_hat
@@ -1080,7 +1080,7 @@ class QualityBuilder():
         A_sj_k = self.hydraulics.A_sj
         H_j_k_next = self._H_j_next - self._z_inv_j
         I_k = np.arange(0, _M, 1)
-        A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        A1_k[I_k,I_k] = np.where(self.bc, 0., A_sj_k*H_j_k_next/_dt)
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
-- 
2.43.0


From aed780df20409c736354405f0e7b80761009a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 34/37] fix: water quality takes the shape of the first link
 for all links

---
 pipedream_solver/nquality.py | 44 ++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0147343..b1c5490 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -1647,21 +1647,27 @@ def c_I_b(c_ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
 
 @njit
 def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
-    if _geom_codes[0] ==1:
-        d = _g1_ik
-        y = 0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-        y[y < 0] = 0
-        y[y > d] = d[y > d]
-        r = d / 2
-        phi = y / r
-        phi[phi < 0] = 0
-        phi[phi > 2] = 2
-        theta = np.arccos(1 - phi)
-        _A_ik_next = r**2 * (theta - np.cos(theta) * np.sin(theta))
-    elif _geom_codes[0] ==3:
-        _A_ik_next = _B_ik[Ix_ik]*0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-    else:
-        raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')    
+    _A_ik_next = np.zeros(Ix_ik.size)
+    for i in Ix_ik:
+        y = 0.5*(_h_Ik_next[_Ik[i]] + _h_Ik_next[_Ip1k[i]])
+        if _geom_codes[i] == 1:
+            d = _g1_ik[i]
+            if y < 0:
+                y = 0.0
+            elif y > d:
+                y = d
+            r = d / 2
+            phi = y / r
+            if phi < 0:
+                phi = 0
+            elif phi > 2:
+                phi = 2
+            theta = np.arccos(1 - phi)
+            _A_ik_next[i] = r**2 * (theta - np.cos(theta) * np.sin(theta))
+        elif _geom_codes[i] == 3:
+            _A_ik_next[i] = _B_ik[i] * y
+        else:
+            raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
     return _A_ik_next
 @njit
 def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
@@ -1676,7 +1682,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         _Q_uk_dn_next[k] = (_Q_uk_next[k] - (0.5*_B_uk[k]*_dx_uk[k])
                                 *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
         # Calculate the cross-sectional area of upstream boundary links
-        if _geom_codes[0] ==1:
+        if _geom_codes[_i_1k[k]] == 1:
             d = _g1_ik[_i_1k[k]]
             y = 0.5*(max(_H_j_next[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_next[_I_1k[k]])
             if y < 0:
@@ -1705,7 +1711,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_uk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_1k[k]] == 3:
             _A_uk_next[k] = (_B_uk[k]*0.5*(max(_H_j_next[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_next[_I_1k[k]]))
             _A_uk_prev[k] = (_B_uk[k]*0.5*(max(_H_j_prev[_J_uk[k]] - _z_inv_uk[k], 0.) + _h_Ik_prev[_I_1k[k]]))
         else:
@@ -1717,7 +1723,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                                 *(_H_j_next[_J_dk[k]] - _H_j_prev[_J_dk[k]])/_dt)
         
         # Calculate the cross-sectional area of downstream boundary links
-        if _geom_codes[0] ==1:
+        if _geom_codes[_i_nk[k]] == 1:
             d = _g1_ik[_i_nk[k]]
             y = 0.5*(max(_H_j_next[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
@@ -1745,7 +1751,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_dk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_nk[k]] == 3:
             _A_dk_next[k] = (_B_dk[k]*0.5*(max(_H_j_next[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_next[_I_Np1k[k]]))
             _A_dk_prev[k] = (_B_dk[k]*0.5*(max(_H_j_prev[_J_dk[k]] - _z_inv_dk[k], 0.) + _h_Ik_prev[_I_Np1k[k]]))
         else:
-- 
2.43.0


From fcc6e8c783a9fa92291447d30fa64ff687c3b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 35/37] fix: turning around an adverse superlink leaves
 offsets, end lengths, loss coefficients and flow behind

---
 pipedream_solver/superlink.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index a8c2d69..ca3013d 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -308,6 +308,14 @@ class SuperLink():
                 if cond:
                     superlinks.loc[k, 'sj_0'] = sj_1
                     superlinks.loc[k, 'sj_1'] = sj_0
+                    # Properties of the two ends and the flow are turned around as well
+                    for col_u, col_d in (('in_offset', 'out_offset'), ('dx_uk', 'dx_dk'),
+                                         ('C_uk', 'C_dk')):
+                        if (col_u in superlinks.columns) and (col_d in superlinks.columns):
+                            value_u = superlinks.loc[k, col_u]
+                            superlinks.loc[k, col_u] = superlinks.loc[k, col_d]
+                            superlinks.loc[k, col_d] = value_u
+                    superlinks.loc[k, 'Q_0'] = -superlinks.loc[k, 'Q_0']
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From a8f1ea8880bfc505119dbbe04285fcdde4e2de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 36/37] fix: adverse superlinks with supplied internal links
 are connected the wrong way round

---
 pipedream_solver/superlink.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index ca3013d..a961d97 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -296,7 +296,9 @@ class SuperLink():
         # TODO: Ensure index is int
         # TODO: This needs to be done for orifices/weirs/pumps as well
         # Ensure nominal direction of superlinks is correct
-        if (superlinks is not None) and (superjunctions is not None):
+        # (internal links and junctions that are supplied keep the direction they have)
+        if ((superlinks is not None) and (superjunctions is not None)
+                and ((links is None) or (junctions is None))):
             for k in superlinks.index.values:
                 sj_0 = superlinks.loc[k, 'sj_0']
                 sj_1 = superlinks.loc[k, 'sj_1']
-- 
2.43.0


From 98bc8f7fc69883e99a0c0f11b0d5260bc192c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 37/37] fix: first recorded state of a simulation is the one
 before the last step of the model

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 428045d..c2070c8 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -230,7 +230,7 @@ class Simulation():
             if state in self.model.states:
                 setattr(self.states, state, {})
                 getattr(self.states, state).update({float(model.t) :
-                                                    np.copy(model.states[state])})
+                                                    np.copy(getattr(model, state))})
 
     def __enter__(self):
         return self
-- 
2.43.0

