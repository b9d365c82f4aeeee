From f41049a7a577291bb742095d414d29ff1cee2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:51 +0000
Subject: [PATCH 01/57] fix: unpolarised incoherent TMM returned uninitialised
 absorption when no layer absorbs

---
 rayflare/transfer_matrix_method/tmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index c0e8e23..05a2780 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -711,6 +711,7 @@ class tmm_structure:
                     A_per_layer * output["A"],
                     np.sum(A_per_layer, axis=0),
                     where=np.sum(A_per_layer, axis=0) != 0,
+                    out=np.zeros_like(A_per_layer),
                 )
 
         output["A_per_layer"] = output["A_per_layer"].T
-- 
2.43.0


From d714b1ca1a2aa2377081e887e770fb2ac95282d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:53 +0000
Subject: [PATCH 02/57] fix: unpolarised profile coefficients of partly
 coherent stacks used s-polarised data for the p part

---
 rayflare/transfer_matrix_method/tmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 05a2780..c8ece97 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -525,7 +525,7 @@ class tmm_structure:
 
                 else:
                     fraction_reaching_s = 1 - np.cumsum(A_per_layer_s, axis=0)
-                    fraction_reaching_p = 1 - np.cumsum(A_per_layer_s, axis=0)
+                    fraction_reaching_p = 1 - np.cumsum(A_per_layer_p, axis=0)
                     fraction_reaching = 0.5 * (
                         fraction_reaching_s + fraction_reaching_p
                     )
@@ -567,7 +567,7 @@ class tmm_structure:
                     for l in layers:
                         if coherency_list[l] == "c":
                             fn_s = tmm.inc_find_absorp_analytic_fn(l, out_s)
-                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_s)
+                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_p)
                             fn_l = fn_s.add(fn_p).scale(0.5)
                             fn.a1 = np.vstack((fn.a1, fn_l.a1))
                             fn.a3 = np.vstack((fn.a3, fn_l.a3))
-- 
2.43.0


From 1240950503997f6a1ea87b8a5edaee5934fc16de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:53 +0000
Subject: [PATCH 03/57] fix: profile coefficients of incoherent layers (s or p
 polarisation) were off by one layer and ignored reflection

---
 rayflare/transfer_matrix_method/tmm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index c8ece97..69be045 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -461,7 +461,11 @@ class tmm_structure:
                     output["profile"] = data["absor"]
 
                 else:
-                    fraction_reaching = 1 - np.cumsum(A_per_layer, axis=0)
+                    # power which gets to each layer: what is not reflected or
+                    # absorbed in the layers above
+                    fraction_reaching = 1 - np.cumsum(
+                        np.vstack((output["R"], A_per_layer)), axis=0
+                    )
                     fn = tmm.absorp_analytic_fn()
                     fn.a1, fn.a3, fn.A1, fn.A2, fn.A3 = (
                         np.empty((0, num_wl)),
-- 
2.43.0


From 3d1e22a721b575e61e96c81576228d6ab32e3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:54 +0000
Subject: [PATCH 04/57] fix: lookup tables for a single side raised an error,
 and other side orders mixed up front and rear

---
 rayflare/transfer_matrix_method/lookup_table.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index bd629b0..a3a4a9d 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -86,7 +86,7 @@ def make_TMM_lookuptable(
         pols = ["s", "p"]
 
         R = xr.DataArray(
-            np.empty((2, 2, len(wavelengths), n_angles)),
+            np.empty((len(sides), 2, len(wavelengths), n_angles)),
             dims=["side", "pol", "wl", "angle"],
             coords={
                 "side": sides,
@@ -97,7 +97,7 @@ def make_TMM_lookuptable(
             name="R",
         )
         T = xr.DataArray(
-            np.empty((2, 2, len(wavelengths), n_angles)),
+            np.empty((len(sides), 2, len(wavelengths), n_angles)),
             dims=["side", "pol", "wl", "angle"],
             coords={
                 "side": sides,
@@ -108,7 +108,7 @@ def make_TMM_lookuptable(
             name="T",
         )
         Alayer = xr.DataArray(
-            np.empty((2, 2, n_angles, len(wavelengths), n_layers)),
+            np.empty((len(sides), 2, n_angles, len(wavelengths), n_layers)),
             dims=["side", "pol", "angle", "wl", "layer"],
             coords={
                 "side": sides,
@@ -122,7 +122,7 @@ def make_TMM_lookuptable(
 
         if profile:
             Aprof = xr.DataArray(
-                np.empty((2, 2, n_angles, 6, len(prof_layers), len(wavelengths))),
+                np.empty((len(sides), 2, n_angles, 6, len(prof_layers), len(wavelengths))),
                 dims=["side", "pol", "angle", "coeff", "layer", "wl"],
                 coords={
                     "side": sides,
@@ -143,7 +143,8 @@ def make_TMM_lookuptable(
         # doesn't matter, but it needs to be set to something. Larger value means we don't make extremely large arrays
         # no reason during the calculation
 
-        for i1, side in enumerate(sides):
+        for side in sides:
+            i1 = 0 if side == 1 else 1  # front or flipped stack
             prof_layer_side = prof_layer_list[i1]
             R_loop = np.empty((len(wavelengths), n_angles))
             T_loop = np.empty((len(wavelengths), n_angles))
-- 
2.43.0


From ff0c0c8b9194a66f59591aa432aee868566ab753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 05/57] fix: rear TMM redistribution matrices of partly
 coherent stacks used the coherency list in front order

---
 rayflare/transfer_matrix_method/tmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 69be045..bec79f6 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -199,6 +199,9 @@ def TMM(
             trns = incidence
             inc = transmission
 
+            if coherency_list is not None:
+                coherency_list = coherency_list[::-1]
+
         if options["pol"] == "u":
             pols = ["s", "p"]
 
-- 
2.43.0


From f9b473b6bd860e0e049b3c4f9ef1b4242350caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 06/57] fix: directions on the edge of an angular bin were put
 in the wrong bin, or out of range

---
 rayflare/angles.py                             | 1 +
 rayflare/matrix_formalism/multiply_matrices.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/rayflare/angles.py b/rayflare/angles.py
index b69d35d..2195077 100644
--- a/rayflare/angles.py
+++ b/rayflare/angles.py
@@ -196,5 +196,6 @@ def theta_summary_A(A_mat, angle_vector):
 
 def overall_bin(x, phi_intv, angle_vector_0):
     phi_ind = np.digitize(x, phi_intv[x.coords["theta_bin"].data[0]], right=True) - 1
+    phi_ind = np.maximum(phi_ind, 0)  # phi = 0 is part of the first bin
     ov_bin = np.argmin(abs(angle_vector_0 - x.coords["theta_bin"].data[0])) + phi_ind
     return ov_bin
diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 8390f2b..8804580 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -99,14 +99,15 @@ def make_v0(
     )
     n_a_in = int(len(angle_vector) / 2)
     v0 = np.zeros((num_wl, n_a_in))
-    th_bin = np.digitize(th_in, theta_intv) - 1
+    # bins include their upper edge, as in the redistribution matrices
+    th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
     phi_intv = phi_intv[th_bin]
     ov_bin = np.argmin(abs(angle_vector[:, 0] - th_bin))
     if phi_in == "all":
         n_phis = len(phi_intv) - 1
         v0[:, ov_bin : (ov_bin + n_phis)] = 1 / n_phis
     else:
-        phi_ind = np.digitize(phi_in, phi_intv) - 1
+        phi_ind = max(np.digitize(phi_in, phi_intv, right=True) - 1, 0)
         ov_bin = ov_bin + phi_ind
         v0[:, ov_bin] = 1
     return v0
@@ -332,7 +333,7 @@ def matrix_multiplication(
 
     thetas = angle_vector[:n_a_in, 1]
 
-    if options.phi_in != "all" and options.phi_in > options.phi_symmetry:
+    if options.phi_in != "all":
         # fold phi_in back into phi_symmetry
         phi_in = fold_phi(options["phi_in"], options["phi_symmetry"])
 
-- 
2.43.0


From 43c8ddd95aeca44962a7e8c0485c891761c6ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 07/57] fix: ray-traced redistribution matrices held
 uninitialised data for incidence bins without rays

---
 rayflare/ray_tracing/rt.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b78cbd1..5685d11 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -413,12 +413,23 @@ def RT_wl(
                 local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
 
     # normalize
-    out_mat = np.divide(out_mat, n_rays_in_bin, where=n_rays_in_bin != 0)
+    out_mat = np.divide(
+        out_mat,
+        n_rays_in_bin,
+        where=n_rays_in_bin != 0,
+        out=np.zeros_like(out_mat),
+    )
     overall_abs_frac = np.divide(
-        n_rays_in_bin_abs, n_rays_in_bin, where=n_rays_in_bin != 0
+        n_rays_in_bin_abs,
+        n_rays_in_bin,
+        where=n_rays_in_bin != 0,
+        out=np.zeros_like(n_rays_in_bin_abs),
     )
     abs_scale = np.divide(
-        overall_abs_frac, np.sum(A_mat, 0), where=np.sum(A_mat, 0) != 0
+        overall_abs_frac,
+        np.sum(A_mat, 0),
+        where=np.sum(A_mat, 0) != 0,
+        out=np.zeros_like(overall_abs_frac),
     )
 
     intgr = np.divide(
-- 
2.43.0


From 8d2c5723b42332a691047cef1a5f9857f898ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 08/57] fix: mirror matrix sent light to the wrong bin when its
 azimuth folded to exactly zero

---
 rayflare/matrix_formalism/ideal_cases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index ae9f963..53a8d46 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -131,6 +131,8 @@ def mirror_matrix(
 
             phis_out = fold_phi(angle_vector_phi + np.pi, options["phi_symmetry"])
 
+        phis_out[phis_out == 0] = 1e-10
+
         # matrix will be all zeros with just one '1' in each column/row. Just need to determine where it goes
 
         binned_theta = np.digitize(angle_vector_th, theta_intv, right=True) - 1
-- 
2.43.0


From 83eaa191d49cea1acbd25594a94e9b61127aa465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 09/57] fix: Lambertian matrix did not follow Lambert's cosine
 law (solid angle of the bins left out)

---
 rayflare/matrix_formalism/ideal_cases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index 53a8d46..96ac068 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -43,9 +43,9 @@ def lambertian_matrix(
 
     else:
         theta_values = np.unique(angle_vector[angle_vector[:, 1] < np.pi / 2, 1])
-        dtheta = np.diff(theta_intv[theta_intv <= np.pi / 2])
 
-        dP = np.cos(theta_values) * dtheta
+        # projected solid angle of each theta bin: integral of cos(theta)*sin(theta)
+        dP = np.diff(np.sin(theta_intv[theta_intv <= np.pi / 2]) ** 2)
 
         # matrix has indexing (out, in): row picks out 'out' entry, column picks out which v0 element
 
-- 
2.43.0


From e133ee93abaf7bcb395f4f56c082bdbe77190e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 10/57] fix: Lambertian matrix for rear incidence transmitted
 all light instead of reflecting it

---
 rayflare/matrix_formalism/ideal_cases.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index 96ac068..56ba137 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -69,7 +69,12 @@ def lambertian_matrix(
 
         whole_matrix_T = np.zeros_like(whole_matrix_R)
 
-        whole_matrix = np.vstack([whole_matrix_R, whole_matrix_T])
+        if front_or_rear == "front":
+            whole_matrix = np.vstack([whole_matrix_R, whole_matrix_T])
+
+        else:
+            # bins are in order of theta, so the order is reversed below the surface
+            whole_matrix = np.vstack([whole_matrix_T, np.flip(whole_matrix_R, 0)])
 
         A_matrix = np.zeros((1, int(len(angle_vector) / 2)))
 
-- 
2.43.0


From 89a339429b0544950cbdf558f441b5468637588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:08 +0000
Subject: [PATCH 11/57] fix: ray-traced interface profiles were zero when
 calculated at a single wavelength

---
 rayflare/ray_tracing/rt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 5685d11..5121770 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -624,7 +624,7 @@ def calculate_interface_profiles(
 
         A_lookup_front = lookuptable.Alayer.loc[
             dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[front_incidence])
         data_front = data_prof_layers[front_incidence]
 
         ## CHECK! ##
@@ -645,7 +645,7 @@ def calculate_interface_profiles(
 
         params_front = lookuptable.Aprof.loc[
             dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[front_incidence])
 
         s_params = params_front.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -673,7 +673,7 @@ def calculate_interface_profiles(
 
         A_lookup_back = lookuptable.Alayer.loc[
             dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[rear_incidence])
 
         data_back = data_prof_layers[rear_incidence]
 
@@ -685,7 +685,7 @@ def calculate_interface_profiles(
 
         params_back = lookuptable.Aprof.loc[
             dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        ].sel(wl=wl * 1e9, method="nearest").interp(angle=th_array[rear_incidence])
 
         s_params = params_back.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -1317,8 +1317,11 @@ def make_profiles_wl(
 
     # lookuptable layers are 1-indexed
 
-    data = lookuptable.loc[dict(side=1, pol=pol)].interp(
-        angle=pr.coords["local_theta"], wl=wl * 1e9
+    # the table contains this wavelength; interpolation is not possible if it is the only one
+    data = (
+        lookuptable.loc[dict(side=1, pol=pol)]
+        .sel(wl=wl * 1e9, method="nearest")
+        .interp(angle=pr.coords["local_theta"])
     )
 
     params = (
-- 
2.43.0


From 28ea0facac6ff5e01bd59d99b6725b8f0f8c7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:08 +0000
Subject: [PATCH 12/57] fix: ray tracing only the incidence angle raised an
 error for phi_in = 'all'

---
 rayflare/ray_tracing/rt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 5121770..47fda03 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -134,7 +134,11 @@ def RT(
 
             if options["phi_in"] == "all":
                 # get relevant phis
-                phis_in = np.tile(options["phi_in"], n_reps)
+                th_bin = np.digitize(th_in, theta_intv, right=True) - 1
+                phi_bins = angles_in[angles_in[:, 0] == th_bin, 2]
+                n_angles = max(n_reps, len(phi_bins))
+                thetas_in = np.tile(th_in, n_angles)
+                phis_in = np.resize(phi_bins, n_angles)
             else:
                 if options["phi_in"] == 0:
                     phis_in = np.tile(0.0001, n_reps)
-- 
2.43.0


From d9878de940e33c720bfebe5e7402398c397a3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:08 +0000
Subject: [PATCH 13/57] fix: bulk profile of a bulk without absorption was
 calculated from uninitialised data

---
 rayflare/matrix_formalism/multiply_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 8804580..4a9f21f 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -186,7 +186,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     per_bin = v_1 - v_2  # total absorption per bin
     abscos = np.abs(np.cos(thetas))
     denom = 1 - np.exp(-alphas[:, None] * d / abscos[None, :])
-    norm = np.divide(per_bin, denom, where=denom != 0)
+    norm = np.divide(per_bin, denom, where=denom != 0, out=np.zeros_like(per_bin))
 
     result = np.empty((v_1.shape[0], len(depths)))
 
@@ -201,7 +201,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     # but at short wavelengths this causes an issue where the integrated depth profile
     # is not equal to the total absorption. Scale the profile to fix this and make things
     # consistent.
-    scale = np.divide(A, check, where=check != 0)
+    scale = np.divide(A, check, where=check != 0, out=np.zeros_like(check))
 
     corrected = scale[:, None] * result
 
-- 
2.43.0


From edcbb0c26afa7edc054bc48d5638144440718ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 14/57] fix: ray-tracing ignored shadowing by neighbouring unit
 cells and surfaces more than one unit cell away

---
 rayflare/ray_tracing/rt.py | 82 ++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 47fda03..f276c89 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1546,8 +1546,9 @@ def exit_side(r_a, d, Lx, Ly):
     denom = np.sum(d * n, axis=1)
     denom[denom == 0] = 1e-12
     t = np.sum((p_0 - r_a) * n, axis=1) / denom  # r_intersect = r_a + t*d
-    which_intersect = t > 0  # only want intersections of forward-travelling ray
-    t[~which_intersect] = float(
+    leaving = denom < 0  # normals point inwards: sides the ray is travelling towards
+    t = np.maximum(t, 0)
+    t[~leaving] = float(
         "inf"
     )  # set others to inf to avoid finding when doing min
     which_side = np.argmin(t)  # find closest plane
@@ -1555,6 +1556,18 @@ def exit_side(r_a, d, Lx, Ly):
     return which_side, t[which_side]
 
 
+def enter_unit_cell(r_a, d, surf):
+    """Moves a ray to where it enters the height range of the surface, translated into the unit cell there. From this
+    point on, it can be followed from one unit cell to the next without missing any part of the surface.
+    """
+    z_in = surf.z_max + 1e-6 if d[2] < 0 else surf.z_min - 1e-6
+    r_a = r_a + d * (z_in - r_a[2]) / d[2]
+    r_a[0] = r_a[0] % surf.Lx
+    r_a[1] = r_a[1] % surf.Ly
+
+    return r_a
+
+
 def calc_angle(x):
     v1 = np.array([0, 1])
     return np.math.atan2(np.linalg.det([x, v1]), np.dot(x, v1))  # - 180 to 180
@@ -1693,12 +1706,7 @@ def single_ray_stack(
 
         if periodic:
 
-            r_a[0] = r_a[0] - surf.Lx * (
-                (r_a[0] + d[0] * (surf.zcov - r_a[2]) / d[2]) // surf.Lx
-            )
-            r_a[1] = r_a[1] - surf.Ly * (
-                (r_a[1] + d[1] * (surf.zcov - r_a[2]) / d[2]) // surf.Ly
-            )
+            r_a = enter_unit_cell(r_a, d, surf)
 
         if direction == 1:
             ni = nks[mat_index]
@@ -1814,12 +1822,7 @@ def single_ray_interface(
 
         surf = surfaces[surf_index]
 
-        r_a[0] = r_a[0] - surf.Lx * (
-            (r_a[0] + d[0] * (surf.zcov - r_a[2]) / d[2]) // surf.Lx
-        )
-        r_a[1] = r_a[1] - surf.Ly * (
-            (r_a[1] + d[1] * (surf.zcov - r_a[2]) / d[2]) // surf.Ly
-        )
+        r_a = enter_unit_cell(r_a, d, surf)
 
         res, theta, phi, r_a, d, theta_loc, _, _ = single_interface_check(
             r_a,
@@ -1970,27 +1973,32 @@ def single_interface_check(
 
     d0 = d
     intersect = True
-    checked_translation = False
+    interacted = False
     # [top, right, bottom, left]
     translation = np.array([[0, -Ly, 0], [-Lx, 0, 0], [0, Ly, 0], [Lx, 0, 0]])
     n_misses = 0
-    i1 = 0
+    n_cells = 0
 
     while intersect:
-        i1 = i1 + 1
         with np.errstate(
             divide="ignore", invalid="ignore"
         ):  # there will be divide by 0/multiply by inf - this is fine but gives lots of warnings
             result = check_intersect(r_a, d, tri)
-        if result is False and not checked_translation:
-            if i1 > 1:
-                which_side, _ = exit_side(r_a, d, Lx, Ly)
-                r_a = r_a + translation[which_side]
+        if result is False:
+
+            # a ray which has not left the height range of the surface continues in the neighbouring unit cell
+            in_range = (d[2] < 0 and r_a[2] > tri.z_min) or (
+                d[2] > 0 and r_a[2] < tri.z_max
+            )
+            which_side, t = exit_side(r_a, d, Lx, Ly)
+
+            if in_range and np.isfinite(t) and n_cells < 1000:
+                r_a = r_a + t * d + translation[which_side]
                 # if random pyramid, need to change surface at this point
                 tri.refresh()
-                checked_translation = True
+                n_cells += 1
 
-            else:
+            elif not interacted:
                 if n_misses < 100:
                     # misses surface. Try again
                     if d[2] < 0:  # coming from above
@@ -2010,7 +2018,7 @@ def single_interface_check(
                             ]
                         )
                     n_misses += 1
-                    i1 = 0
+                    n_cells = 0
 
                 else:
                     # ray keeps missing, probably because it's travelling (almost) exactly perpendicular to surface.
@@ -2021,29 +2029,6 @@ def single_interface_check(
                     o_p = np.real(atan2(d[1], d[0]))
                     return 0, o_t, o_p, r_a, d, 0, n_interactions, side
 
-        elif result is False and checked_translation:
-
-            if (side == 1 and d[2] < 0 and r_a[2] > tri.z_min) or (
-                side == -1 and d[2] > 0 and r_a[2] < tri.z_max
-            ):
-                # going down but above surface
-
-                if r_a[0] > Lx or r_a[0] < 0:
-                    r_a[0] = (
-                        r_a[0] % Lx
-                    )  # translate back into until cell before doing any additional translation
-                if r_a[1] > Ly or r_a[1] < 0:
-                    r_a[1] = (
-                        r_a[1] % Ly
-                    )  # translate back into until cell before doing any additional translation
-                ex, t = exit_side(r_a, d, Lx, Ly)
-
-                r_a = r_a + t * d + translation[ex]
-                # also change surface here
-                tri.refresh()
-
-                checked_translation = True
-
             else:
 
                 o_t = np.real(acos(d[2] / np.linalg.norm(d)))
@@ -2108,7 +2093,8 @@ def single_interface_check(
                 intersn + d / 1e9
             )  # this is to make sure the raytracer doesn't immediately just find the same intersection again
 
-            checked_translation = False  # reset, need to be able to translate the ray back into the unit cell again if necessary
+            interacted = True
+            n_cells = 0
 
             if A is not None:
                 # intersect = False
-- 
2.43.0


From 1e24bec0755e39bd6f8cf9698dbc37d2d059894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 15/57] fix: periodic ray-tracing assumed that the unit cell
 starts at the origin

---
 rayflare/ray_tracing/rt.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index f276c89..0281e81 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1562,8 +1562,8 @@ def enter_unit_cell(r_a, d, surf):
     """
     z_in = surf.z_max + 1e-6 if d[2] < 0 else surf.z_min - 1e-6
     r_a = r_a + d * (z_in - r_a[2]) / d[2]
-    r_a[0] = r_a[0] % surf.Lx
-    r_a[1] = r_a[1] % surf.Ly
+    r_a[0] = surf.x_min + (r_a[0] - surf.x_min) % surf.Lx
+    r_a[1] = surf.y_min + (r_a[1] - surf.y_min) % surf.Ly
 
     return r_a
 
@@ -1990,7 +1990,9 @@ def single_interface_check(
             in_range = (d[2] < 0 and r_a[2] > tri.z_min) or (
                 d[2] > 0 and r_a[2] < tri.z_max
             )
-            which_side, t = exit_side(r_a, d, Lx, Ly)
+            which_side, t = exit_side(
+                r_a - np.array([tri.x_min, tri.y_min, 0]), d, Lx, Ly
+            )
 
             if in_range and np.isfinite(t) and n_cells < 1000:
                 r_a = r_a + t * d + translation[which_side]
@@ -2004,16 +2006,16 @@ def single_interface_check(
                     if d[2] < 0:  # coming from above
                         r_a = np.array(
                             [
-                                np.random.rand() * Lx,
-                                np.random.rand() * Ly,
+                                tri.x_min + np.random.rand() * Lx,
+                                tri.y_min + np.random.rand() * Ly,
                                 tri.z_max + 0.01,
                             ]
                         )
                     else:
                         r_a = np.array(
                             [
-                                np.random.rand() * Lx,
-                                np.random.rand() * Ly,
+                                tri.x_min + np.random.rand() * Lx,
+                                tri.y_min + np.random.rand() * Ly,
                                 tri.z_min - 0.01,
                             ]
                         )
-- 
2.43.0


From 590e45cdc14b9f4858efcb931ca3640a9185023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 16/57] fix: rays hitting an edge between facets could pass
 through a reflecting surface

---
 rayflare/ray_tracing/rt.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 0281e81..a4ba8db 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -2091,9 +2091,9 @@ def single_interface_check(
                 n0, n1, theta, d, N, side, pol, rnd, wl, lookuptable
             )
 
-            r_a = np.real(
-                intersn + d / 1e9
-            )  # this is to make sure the raytracer doesn't immediately just find the same intersection again
+            # this is to make sure the raytracer doesn't immediately just find the same intersection again. Move away
+            # from the facet along its normal, so that a ray which hits an edge does not end up behind the next facet
+            r_a = np.real(intersn + np.sign(np.dot(d, N)) * N / 1e9)
 
             interacted = True
             n_cells = 0
@@ -2205,9 +2205,9 @@ def single_cell_check(
                 n0, n1, theta, d, N, side, pol, rnd, wl, lookuptable
             )
 
-            r_a = np.real(
-                intersn + d / 1e9
-            )  # this is to make sure the raytracer doesn't immediately just find the same intersection again
+            # this is to make sure the raytracer doesn't immediately just find the same intersection again. Move away
+            # from the facet along its normal, so that a ray which hits an edge does not end up behind the next facet
+            r_a = np.real(intersn + np.sign(np.dot(d, N)) * N / 1e9)
 
             if A is not None:
                 # intersect = False
-- 
2.43.0


From 6bdf3d2588349d6931419bd4dbefc6ba2956cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 17/57] fix: random pyramid heights were wrong for all but the
 first surface of a structure

---
 rayflare/ray_tracing/rt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index a4ba8db..abbf189 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1481,6 +1481,7 @@ class RTSurface:
 
     def shift(self, z_shift):
         self.Points[:, 2] = self.Points[:, 2] - z_shift
+        self.original_Points[:, 2] = self.original_Points[:, 2] - z_shift
         self.P_0s = self.Points[self.simplices[:, 0]]
         self.P_1s = self.Points[self.simplices[:, 1]]
         self.P_2s = self.Points[self.simplices[:, 2]]
-- 
2.43.0


From 1584a152e2dc4ed859b3b33557ae85f791025006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 18/57] fix: heights_texture assigned the heights of non-square
 arrays to the wrong points

---
 rayflare/textures/define_textures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rayflare/textures/define_textures.py b/rayflare/textures/define_textures.py
index 210473a..098f9b4 100644
--- a/rayflare/textures/define_textures.py
+++ b/rayflare/textures/define_textures.py
@@ -37,8 +37,9 @@ def heights_texture(z_points, x_width, y_width, **kwargs):
     :return: a list of two RTSurface objects: [front_incidence, rear_incidence]
     """
 
-    x = np.linspace(0, x_width, z_points.shape[0])
-    y = np.linspace(0, y_width, z_points.shape[1])
+    # rows of z_points are lines along x, columns are lines along y
+    x = np.linspace(0, x_width, z_points.shape[1])
+    y = np.linspace(0, y_width, z_points.shape[0])
 
     xy = np.meshgrid(x, y)
 
-- 
2.43.0


From cd14fedd31ae6a475ecaf5a46a768a546d88eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 19/57] fix: position of surfaces with integer coordinates was
 truncated to whole microns in a structure

---
 rayflare/ray_tracing/rt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index abbf189..b9f9248 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1397,6 +1397,9 @@ class RTSurface:
         else:
             self.distribution = None
 
+        # the surface is shifted to its position in the structure later, which needs non-integer coordinates
+        Points = np.array(Points, dtype=float)
+
         tri = Delaunay(Points[:, [0, 1]])
         self.simplices = tri.simplices
         self.Points = Points
-- 
2.43.0


From f680145c880b962c0b49091e80972561e59c5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:59 +0000
Subject: [PATCH 20/57] fix: rays leaving a surface almost vertically were
 moved far away before the next surface

---
 rayflare/ray_tracing/rt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b9f9248..63d23a9 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1991,12 +1991,13 @@ def single_interface_check(
         if result is False:
 
             # a ray which has not left the height range of the surface continues in the neighbouring unit cell
-            in_range = (d[2] < 0 and r_a[2] > tri.z_min) or (
-                d[2] > 0 and r_a[2] < tri.z_max
-            )
             which_side, t = exit_side(
                 r_a - np.array([tri.x_min, tri.y_min, 0]), d, Lx, Ly
             )
+            z_exit = r_a[2] + t * d[2]
+            in_range = (d[2] < 0 and z_exit > tri.z_min) or (
+                d[2] > 0 and z_exit < tri.z_max
+            )
 
             if in_range and np.isfinite(t) and n_cells < 1000:
                 r_a = r_a + t * d + translation[which_side]
-- 
2.43.0


From 9be4fe818b67824b4bdbff8f7f4972ffc8cf4de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:27 +0000
Subject: [PATCH 21/57] fix: rays hitting an edge between steep facets could
 end up behind one of them

---
 rayflare/ray_tracing/rt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 63d23a9..f0ed54d 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -2097,8 +2097,8 @@ def single_interface_check(
             )
 
             # this is to make sure the raytracer doesn't immediately just find the same intersection again. Move away
-            # from the facet along its normal, so that a ray which hits an edge does not end up behind the next facet
-            r_a = np.real(intersn + np.sign(np.dot(d, N)) * N / 1e9)
+            # from the facet vertically, so that a ray which hits an edge is on the same side of all facets there
+            r_a = np.real(intersn + side * np.array([0, 0, 1e-9]))
 
             interacted = True
             n_cells = 0
@@ -2211,8 +2211,8 @@ def single_cell_check(
             )
 
             # this is to make sure the raytracer doesn't immediately just find the same intersection again. Move away
-            # from the facet along its normal, so that a ray which hits an edge does not end up behind the next facet
-            r_a = np.real(intersn + np.sign(np.dot(d, N)) * N / 1e9)
+            # from the facet vertically, so that a ray which hits an edge is on the same side of all facets there
+            r_a = np.real(intersn + side * np.array([0, 0, 1e-9]))
 
             if A is not None:
                 # intersect = False
-- 
2.43.0


From afa4353bc1116aabdce1ca1406ebe77ca5a348e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:55 +0000
Subject: [PATCH 22/57] fix: ray-tracing reflected all light from absorbing
 media with a lower refractive index beyond the critical angle

---
 rayflare/ray_tracing/rt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index f0ed54d..7734ada 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1903,7 +1903,8 @@ def traverse(width, theta, alpha, x, y, I_i, positions, I_thresh, direction):
 def decide_RT_Fresnel(n0, n1, theta, d, N, side, pol, rnd, wl=None, lookuptable=None):
     ratio = np.clip(np.real(n1) / np.real(n0), -1, 1)
 
-    if abs(theta) > np.arcsin(ratio):
+    # reflection beyond the critical angle is only total if the other medium does not absorb
+    if abs(theta) > np.arcsin(ratio) and np.imag(n1) == 0:
         R = 1
     else:
         R = calc_R(n0, n1, abs(theta), pol)
@@ -1915,7 +1916,10 @@ def decide_RT_Fresnel(n0, n1, theta, d, N, side, pol, rnd, wl=None, lookuptable=
         # transmission, refraction
         # for now, ignore effect of k on refraction
         tr_par = (np.real(n0) / np.real(n1)) * (d - np.dot(d, N) * N)
-        tr_perp = -sqrt(1 - np.linalg.norm(tr_par) ** 2) * N
+        cos_sq = 1 - np.linalg.norm(tr_par) ** 2
+        if cos_sq < 0:  # only happens for an absorbing medium
+            cos_sq = (n1 / np.real(n1)) ** 2 - 1 + cos_sq
+        tr_perp = -np.real(sqrt(cos_sq)) * N
         side = -side
         d = np.real(tr_par + tr_perp)
 
-- 
2.43.0


From c9c1f281c3b726091381953ced8e68ed44a87d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 23/57] fix: interface profiles were zero when a ray was
 absorbed at grazing incidence

---
 rayflare/ray_tracing/rt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 7734ada..b05c438 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -616,7 +616,8 @@ def calculate_interface_profiles(
         )
         return by_layer
 
-    th_array = np.abs(local_thetas_i)
+    # grazing angles beyond the last one in the lookuptable: use that one, as in the ray-tracing
+    th_array = np.minimum(np.abs(local_thetas_i), lookuptable.angle.max().item())
     front_incidence = np.where(directions_i == 1)[0]
     rear_incidence = np.where(directions_i == -1)[0]
 
-- 
2.43.0


From d59c118fe2696cb4052a8fba872e8a62a0d54476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 24/57] fix: surface area of a texture was calculated from an
 angle cosine which was not normalised

---
 rayflare/ray_tracing/rt.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b05c438..a10e2be 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1471,17 +1471,9 @@ class RTSurface:
 
     def find_area(self):
         xyz = np.stack((self.P_0s, self.P_1s, self.P_2s))
-        cos_theta = np.sum((xyz[0] - xyz[1]) * (xyz[2] - xyz[1]), 1)
-
-        theta = np.arccos(cos_theta)
-        self.area = np.sum(
-            (
-                0.5
-                * np.linalg.norm(xyz[0] - xyz[1], axis=1)
-                * np.linalg.norm(xyz[2] - xyz[1], axis=1)
-                * np.sin(theta)
-            )
-        ) / (self.Lx * self.Ly)
+        # area of each triangle is half of the magnitude of the cross product of two of its sides
+        cross = np.cross(xyz[0] - xyz[1], xyz[2] - xyz[1])
+        self.area = np.sum(0.5 * np.linalg.norm(cross, axis=1)) / (self.Lx * self.Ly)
 
     def shift(self, z_shift):
         self.Points[:, 2] = self.Points[:, 2] - z_shift
-- 
2.43.0


From 2dc9ec760bd8c9e82a113a3b5f4d4cfff5e1bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 25/57] fix: hyperhemisphere had facets with the wrong
 orientation and gaps or remnants at its base

---
 rayflare/textures/standard_rt_textures.py | 135 +++++-----------------
 1 file changed, 28 insertions(+), 107 deletions(-)

diff --git a/rayflare/textures/standard_rt_textures.py b/rayflare/textures/standard_rt_textures.py
index 0dddb11..880e9c9 100644
--- a/rayflare/textures/standard_rt_textures.py
+++ b/rayflare/textures/standard_rt_textures.py
@@ -128,15 +128,18 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
         surface.simplices[index, 1] = s2_current
         surface.simplices[index, 2] = s1_current
 
-    def switch_xy(surface, X_or_Y, x_y_ind, direction):
-        # direction = 1, point OUT of sphere
-        # direction = -1, point IN to sphere
-        for index in np.arange(len(X_norm_back)):
-            current_N = surface.crossP[index, :]
-            sign = direction * np.sign(X_or_Y[index])
-            # N[2] should be < 0
-            if np.sign(current_N[x_y_ind]) != sign:
-                switch_points(surface, index)
+    def orient(surface, z_centre, direction):
+        # direction = 1, normals point OUT of sphere
+        # direction = -1, normals point IN to sphere
+        middle = np.mean([surface.P_0s, surface.P_1s, surface.P_2s], 0)
+        outwards = np.sum(surface.crossP * (middle - np.array([0, 0, z_centre])), 1)
+
+        for index in np.where(direction * outwards < 0)[0]:
+            switch_points(surface, index)
+
+        surface.crossP = np.cross(
+            surface.P_1s - surface.P_0s, surface.P_2s - surface.P_0s
+        )
 
     phi = (1 + np.sqrt(5)) / 2  # the golden ratio
     long_incr = 2 * np.pi / phi  # how much to increment the longitude
@@ -165,8 +168,8 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
         np.sum(
             np.all(
                 [
-                    np.sqrt(X**2 + Y**2) < r_cross + 0.01,
-                    np.sqrt(X**2 + Y**2) > r_cross - 0.01,
+                    np.sqrt(X**2 + Y**2) < r_cross + 0.01 * radius,
+                    np.sqrt(X**2 + Y**2) > r_cross - 0.01 * radius,
                 ],
                 axis=0,
             )
@@ -174,6 +177,11 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
         )
     )
 
+    # the line of points should be at least as dense as the points on the sphere
+    n_points = max(
+        n_points, int(np.ceil(np.sqrt(np.pi * N_points) * r_cross / radius))
+    )
+
     # new points
     Z_new = np.zeros(n_points)
     phis = np.linspace(0, 2 * np.pi, n_points)
@@ -213,32 +221,12 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     back.size = back.P_0s.shape[0]
     # back.zcov = 0
 
-    cross_normalized = front.crossP / np.sqrt(np.sum(front.crossP**2, 1))[:, None]
-    cross_normalized_back = back.crossP / np.sqrt(np.sum(back.crossP**2, 1))[:, None]
+    # remove triangles corresponding to flat face of hemisphere (these only have points at Z = 0)
 
-    # remove triangles corresponding to flat face of triangle
-
-    flat = np.abs(cross_normalized[:, 2]) > 0.9
-    bottom_surface = np.all(
-        (
-            front.P_0s[:, 2] < 0.1 * radius,
-            front.P_1s[:, 2] < 0.1 * radius,
-            front.P_2s[:, 2] < 0.1 * radius,
-        ),
-        axis=0,
-    )
-    bottom_planar = np.all((flat, bottom_surface), axis=0)
-
-    flat_back = np.abs(cross_normalized_back[:, 2]) > 0.9
-    top_surface = np.all(
-        (
-            back.P_0s[:, 2] > -0.1 * radius,
-            back.P_1s[:, 2] > -0.1 * radius,
-            back.P_2s[:, 2] > -0.1 * radius,
-        ),
-        axis=0,
+    bottom_planar = np.all(front.Points[triangles, 2] < 1e-10 * radius, axis=1)
+    top_planar = np.all(
+        back.Points[triangles_back, 2] > -1e-10 * radius, axis=1
     )
-    top_planar = np.all((flat_back, top_surface), axis=0)
 
     back.simplices = triangles_back[~top_planar]
     back.P_0s = back.P_0s[~top_planar]
@@ -254,80 +242,13 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     front.crossP = front.crossP[~bottom_planar]
     front.size = front.P_0s.shape[0]
 
-    # find the middle of each triangle (X, Y and Z points):
-
-    X_norm = np.mean([front.P_0s[:, 0], front.P_1s[:, 0], front.P_2s[:, 0]], 0)
-    Y_norm = np.mean([front.P_0s[:, 1], front.P_1s[:, 1], front.P_2s[:, 1]], 0)
-    Z_norm = np.mean([front.P_0s[:, 2], front.P_1s[:, 2], front.P_2s[:, 2]], 0)
-
-    X_norm_back = np.mean([back.P_0s[:, 0], back.P_1s[:, 0], back.P_2s[:, 0]], 0)
-    Y_norm_back = np.mean([back.P_0s[:, 1], back.P_1s[:, 1], back.P_2s[:, 1]], 0)
-    Z_norm_back = np.mean([back.P_0s[:, 2], back.P_1s[:, 2], back.P_2s[:, 2]], 0)
-
-    # make all the normals points outwards (for some reason this doesn't happen automatically
-    # with ConvexHull!) Four things to check:
-
-    # 1. In each quadrant, if x of the middle of the triangle is +ve, sign of normal should be +ve and vice versa
-    # 2. In each quadrant, if y of the middle of the triangle is +ve, sign of normal should be +ve and vice versa
-    # 3. Above the centre of the sphere, the normal should be pointing up (N[2] > 0)
-    # 4. Below the centre of the sphere, the normal should be pointing down (N[2] < 0)
-
-    # If this isn't the case, simply need to switch two of the points of the triangle to flip the direction of the normal.
-    # In this case, we flip P_1 and P_2.
-    # Note that in principle it should be sufficient to just do the first two steps, but for triangles which lie
-    # almost exactly on the x or y axis it won't work.
-
+    # make all the normals of the front surface point outwards, and those of the back surface inwards (for some reason
+    # this doesn't happen automatically with ConvexHull!): if this isn't the case, simply need to switch two of the points
+    # of the triangle to flip the direction of the normal. In this case, we flip P_1 and P_2.
     # To keep things consistent, also need to switch the indices for the simplices if you are switching points around
 
-    switch_xy(back, X_norm_back, 0, -1)
-    switch_xy(front, X_norm, 0, 1)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    switch_xy(back, Y_norm_back, 1, -1)
-    switch_xy(front, Y_norm, 1, 1)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    above_middle = np.where(Z_norm > 1.03 * h)[0]
-    below_middle = np.where(Z_norm < 0.97 * h)[0]
-
-    for index in above_middle:
-        current_N = front.crossP[index, :]
-
-        # N[2] should be > 0
-        if current_N[2] < 0:
-            switch_points(front, index)
-
-    for index in below_middle:
-        current_N = front.crossP[index, :]
-
-        # N[2] should be < 0
-        if current_N[2] > 0:
-            switch_points(front, index)
-
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    above_middle_back = np.where(Z_norm_back > -0.97 * h)[0]
-    below_middle_back = np.where(Z_norm_back < -1.03 * h)[0]
-
-    for index in above_middle_back:
-        current_N = back.crossP[index, :]
-
-        # N[2] should be < 0
-        if current_N[2] > 0:
-            switch_points(back, index)
-
-    for index in below_middle_back:
-        current_N = back.crossP[index, :]
-
-        # N[2] should be > 0
-        if current_N[2] < 0:
-            switch_points(back, index)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
+    orient(front, h, 1)
+    orient(back, -h, -1)
 
     front.N = front.crossP / np.linalg.norm(front.crossP, axis=1)[:, None]
     back.N = back.crossP / np.linalg.norm(back.crossP, axis=1)[:, None]
-- 
2.43.0


From d4216e486dbcb2ed75fb65a37f3f5ba82864aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 26/57] fix: absorption of rays with different local angles was
 shared by the layers of a film with the wrong weights

---
 rayflare/ray_tracing/rt.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index a10e2be..efdb089 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -412,7 +412,8 @@ def RT_wl(
             else:
                 # absorbed in one of the surface layers
                 n_rays_in_bin_abs[bin_in[l1] - offset] += 1
-                per_layer = A_surface_layers[l1, l2]
+                # the ray is absorbed completely: the absorption probabilities only decide how it is shared by the layers
+                per_layer = A_surface_layers[l1, l2] / np.sum(A_surface_layers[l1, l2])
                 A_mat[:, bin_in[l1] - offset] += per_layer
                 local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
 
@@ -1329,6 +1330,14 @@ def make_profiles_wl(
         .interp(angle=pr.coords["local_theta"])
     )
 
+    # each ray is absorbed completely, so the profile for each local angle should integrate to 1
+    A_total = data["Alayer"].sum("layer").data.real[:, None]
+    absorbing = A_total > 1e-10
+    pr = pr.copy(
+        data=np.divide(pr.data, A_total, where=absorbing, out=np.zeros_like(pr.data))
+        / np.maximum(np.sum(pr.data * absorbing, 0), 1e-10)
+    )
+
     params = (
         data["Aprof"]
         .drop_vars(["layer", "side", "angle", "pol"])
-- 
2.43.0


From 55b918ed6cf5355fcd054db24e8fdb821ea14b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:40 +0000
Subject: [PATCH 27/57] fix: profiles of rays absorbed in a film from the other
 side used the film's response to the side of incidence

---
 rayflare/ray_tracing/rt.py | 71 +++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index efdb089..e02230d 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -301,6 +301,7 @@ def RT_wl(
     phi_out = np.zeros((n_angles, nx * ny))
     A_surface_layers = np.zeros((n_angles, nx * ny, n_abs_layers))
     theta_local_incidence = np.zeros((n_angles, nx * ny))
+    side_local_incidence = np.ones((n_angles, nx * ny))
 
     for i2 in range(n_angles):
 
@@ -334,6 +335,7 @@ def RT_wl(
             phi_out[i2, c] = phi_o
             A_surface_layers[i2, c] = surface_A[0]
             theta_local_incidence[i2, c] = np.real(surface_A[1])
+            side_local_incidence[i2, c] = surface_A[2]
 
     phi_out = fold_phi(phi_out, phi_sym)
     phis_in = fold_phi(phis_in, phi_sym)
@@ -393,8 +395,9 @@ def RT_wl(
 
     binned_local_angles = np.digitize(theta_local_incidence, theta_intv, right=True) - 1
 
-    local_angle_mat = np.zeros(
-        (int((len(theta_intv) - 1) / 2), int(len(angle_vector) / 2))
+    # rays absorbed from the side of incidence, and (after being transmitted) from the other side
+    local_angle_mats = np.zeros(
+        (2, int((len(theta_intv) - 1) / 2), int(len(angle_vector) / 2))
     )
 
     if side == 1:
@@ -415,7 +418,11 @@ def RT_wl(
                 # the ray is absorbed completely: the absorption probabilities only decide how it is shared by the layers
                 per_layer = A_surface_layers[l1, l2] / np.sum(A_surface_layers[l1, l2])
                 A_mat[:, bin_in[l1] - offset] += per_layer
-                local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
+                local_angle_mats[
+                    int(side_local_incidence[l1, l2] == -1),
+                    binned_local_angles[l1, l2],
+                    bin_in[l1] - offset,
+                ] += 1
 
     # normalize
     out_mat = np.divide(
@@ -451,31 +458,36 @@ def RT_wl(
     A_mat = COO.from_numpy(A_mat)
 
     if Fr_or_TMM > 0:
-        local_angle_mat = np.divide(
-            local_angle_mat,
-            np.sum(local_angle_mat, 0),
-            where=np.sum(local_angle_mat, 0) != 0,
-            out=np.zeros_like(local_angle_mat),
+        n_absorbed = np.sum(local_angle_mats, (0, 1))
+        local_angle_mats = np.divide(
+            local_angle_mats,
+            n_absorbed,
+            where=n_absorbed != 0,
+            out=np.zeros_like(local_angle_mats),
         )
-        local_angle_mat[np.isnan(local_angle_mat)] = 0
-        local_angle_mat = COO.from_numpy(local_angle_mat)
+        local_angle_mat = COO.from_numpy(np.sum(local_angle_mats, 0))
 
         if calc_profile is not None:
             n_a_in = int(len(angle_vector) / 2)
             thetas = angle_vector[:n_a_in, 1]
             unique_thetas = np.unique(thetas)
 
-            profile = make_profiles_wl(
-                unique_thetas,
-                n_a_in,
-                side,
-                widths,
-                local_angle_mat,
-                wl,
-                lookuptable,
-                pol,
-                depth_spacing,
-                calc_profile,
+            profile = sum(
+                make_profiles_wl(
+                    unique_thetas,
+                    n_a_in,
+                    side * local_side,
+                    widths,
+                    COO.from_numpy(local_angle_mats[i_side]),
+                    wl,
+                    lookuptable,
+                    pol,
+                    depth_spacing,
+                    calc_profile,
+                    local_side,
+                )
+                for i_side, local_side in enumerate([1, -1])
+                if i_side == 0 or np.any(local_angle_mats[i_side] > 0)
             )
 
             profile = profile.rename({"dim_0": "z"})
@@ -1284,6 +1296,7 @@ def make_profiles_wl(
     pol,
     depth_spacing,
     prof_layers,
+    local_side=1,
 ):
     # widths and depth_spacing are passed in nm!
 
@@ -1325,16 +1338,17 @@ def make_profiles_wl(
 
     # the table contains this wavelength; interpolation is not possible if it is the only one
     data = (
-        lookuptable.loc[dict(side=1, pol=pol)]
+        lookuptable.loc[dict(side=local_side, pol=pol)]
         .sel(wl=wl * 1e9, method="nearest")
         .interp(angle=pr.coords["local_theta"])
     )
 
-    # each ray is absorbed completely, so the profile for each local angle should integrate to 1
+    # each ray is absorbed completely, so the profile for each local angle should integrate to its share of the rays
     A_total = data["Alayer"].sum("layer").data.real[:, None]
     absorbing = A_total > 1e-10
     pr = pr.copy(
         data=np.divide(pr.data, A_total, where=absorbing, out=np.zeros_like(pr.data))
+        * np.sum(pr.data, 0)
         / np.maximum(np.sum(pr.data * absorbing, 0), 1e-10)
     )
 
@@ -1726,7 +1740,7 @@ def single_ray_stack(
         # array describing absorption per layer if absorption happens
         # th_local is local angle w.r.t surface normal at that point on surface
 
-        res, theta, phi, r_a, d, th_local, n_interactions, _ = single_surface[periodic](
+        res, theta, phi, r_a, d, th_local, n_interactions, side = single_surface[periodic](
             r_a,
             d,
             ni,
@@ -1804,7 +1818,7 @@ def single_ray_stack(
         A_interface_array,
         A_interface_index,
         th_local,
-        direction,
+        side,  # side of the interface the ray was last incident from
     )
 
 
@@ -1830,7 +1844,7 @@ def single_ray_interface(
 
         r_a = enter_unit_cell(r_a, d, surf)
 
-        res, theta, phi, r_a, d, theta_loc, _, _ = single_interface_check(
+        res, theta, phi, r_a, d, theta_loc, _, side = single_interface_check(
             r_a,
             d,
             nks[mat_index],
@@ -1853,18 +1867,19 @@ def single_ray_interface(
             # staying in the same material, so mat_index does not change, but surf_index does
             surf_index = surf_index + direction
 
-            surface_A = [0, 10]
+            surface_A = [0, 10, 1]
 
         if res == 1:  # transmission
             surf_index = surf_index + direction
             mat_index = mat_index + direction  # is this right?
 
-            surface_A = [0, 10]
+            surface_A = [0, 10, 1]
 
         if res == 2:
             surface_A = [
                 theta,
                 theta_loc,
+                side,
             ]  # passed a list of absorption per layer in theta
             stop = True
             theta = 10  # theta returned by single_interface_check is actually list of absorption per layer
-- 
2.43.0


From 13c6e29425ccce240562baef11052ea3f904d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 28/57] fix: RCWA redistribution matrices put diffraction
 orders in the wrong bins and mixed up columns of the rear matrix

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 1e6b101..ed2dd49 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -375,7 +375,7 @@ def RCWA_wl_inkstone(
     logger.info(f"RCWA calculation for wavelength = {wl} nm")
 
     for i1, (th, ph) in enumerate(zip(theta, phi)):
-        S.SetExcitation(th, ph, pol[0], pol[1])
+        S.SetExcitation(th, ph + 180, pol[0], pol[1])
         S.SetFrequency(1 / wl)
         _, Ti, incpfi = rcwa_rt(S, len(widths))
         R_pfbo, T_pfbo = rcwa_rt_pfbo_inkstone(S, len(widths), incpfi)
@@ -400,12 +400,13 @@ def RCWA_wl_inkstone(
         R_pfbo = np.real(R_pfbo)
         T_pfbo = np.real(T_pfbo)
 
-        fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
-        )
-        fi_y = np.real(
+        # light incident from azimuth ph travels towards ph + 180 degrees
+        fi_x = -np.real(
             (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
+        fi_y = -np.real(
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+        )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
         fr_y = fi_y + G_basis[:, 0] * fg_1y + G_basis[:, 1] * fg_2y
@@ -413,8 +414,7 @@ def RCWA_wl_inkstone(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
-        phi_rt = fold_phi(phi_rt, phi_sym)
+        phi_rt = np.arctan2(fr_y, fr_x) % phi_sym
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
         theta_t = np.pi - np.real(np.arccos(ft_z / np.sqrt(fr_x**2 + fr_y**2 + ft_z**2)))
@@ -445,12 +445,12 @@ def RCWA_wl_inkstone(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += T_pfbo[i2]
 
         # if layer_details: # not implemented yet for Inkstone
         #
@@ -559,7 +559,7 @@ def RCWA_wl(
     logger.info(f"RCWA calculation for wavelength = {wl} nm")
 
     for i1, (th, ph) in enumerate(zip(theta, phi)):
-        S.SetExcitationPlanewave((th, ph), pol[0], pol[1], 0)
+        S.SetExcitationPlanewave((th, ph + 180), pol[0], pol[1], 0)
         S.SetFrequency(1 / wl)
         _, Ti, incpfi = rcwa_rt(S, len(widths))
         R_pfbo, T_pfbo, R_pfbo_int = rcwa_rt_pfbo(S, len(widths), incpfi)
@@ -570,7 +570,7 @@ def RCWA_wl(
             A = np.sum(A_layer[in_bin[i1]])
 
             if A > 0:
-                S.SetExcitationPlanewave((th, ph), pol[0], pol[1], 0)
+                S.SetExcitationPlanewave((th, ph + 180), pol[0], pol[1], 0)
                 S.SetFrequency(1 / wl)
 
                 for j, d in enumerate(dist):
@@ -587,12 +587,13 @@ def RCWA_wl(
         R_pfbo = np.real(R_pfbo)
         T_pfbo = np.real(T_pfbo)
 
-        fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
-        )
-        fi_y = np.real(
+        # light incident from azimuth ph travels towards ph + 180 degrees
+        fi_x = -np.real(
             (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
+        fi_y = -np.real(
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+        )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
         fr_y = fi_y + G_basis[:, 0] * fg_1y + G_basis[:, 1] * fg_2y
@@ -600,8 +601,7 @@ def RCWA_wl(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
-        phi_rt = fold_phi(phi_rt, phi_sym)
+        phi_rt = np.arctan2(fr_y, fr_x) % phi_sym
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
         theta_t = np.pi - np.real(np.arccos(ft_z / np.sqrt(fr_x**2 + fr_y**2 + ft_z**2)))
@@ -632,12 +632,12 @@ def RCWA_wl(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += T_pfbo[i2]
 
         if layer_details:
             f_z = np.sqrt((l_oc[layer_details] / (wl**2)) - fr_x**2 - fr_y**2)
-- 
2.43.0


From 638b2a0c46d6de55216d0583cdaf08a54d03acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 29/57] fix: rear RCWA redistribution matrices used the
 patterns of the layers in front order

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index ed2dd49..a6092e6 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -138,7 +138,7 @@ def RCWA(
                 prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
-        geom_list = [layer.geometry for layer in structure]
+        geom_list = [layer.geometry for layer in layers]
         geom_list.insert(0, {})  # incidence medium
         geom_list.append({})  # transmission medium
 
-- 
2.43.0


From 6b735c553e1ff74b092cbad509e9100df3fba3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 30/57] fix: RCWA redistribution matrices were NaN where
 nothing is reflected

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index a6092e6..d3d6ab3 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -433,7 +433,8 @@ def RCWA_wl_inkstone(
         T_pfbo[np.abs(T_pfbo < 1e-16)] = 0
 
         Rsum = np.sum(R_pfbo)
-        R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
+        if Rsum > 0:
+            R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
 
         theta_r[theta_r == 0] = 1e-10
         theta_t[theta_t == 0] = 1e-10
@@ -620,7 +621,8 @@ def RCWA_wl(
         T_pfbo[np.abs(T_pfbo < 1e-16)] = 0
 
         Rsum = np.sum(R_pfbo)
-        R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
+        if Rsum > 0:
+            R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
 
         theta_r[theta_r == 0] = 1e-10
         theta_t[theta_t == 0] = 1e-10
-- 
2.43.0


From 7f387b568bdb50aeec5665ea5caae776d70599bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 31/57] fix: depth profiles of rear RCWA redistribution
 matrices were sampled at other depths than stated

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index d3d6ab3..12a4722 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -134,8 +134,6 @@ def RCWA(
             layers = structure[::-1]
             trns = incidence
             inc = transmission
-            if prof_layers is not None:
-                prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
         geom_list = [layer.geometry for layer in layers]
@@ -155,10 +153,12 @@ def RCWA(
         layers_oc = np.zeros((len(wavelengths), len(structure) + 2), dtype=complex)
 
         if prof_layers is not None:
-            z_limit = np.sum(np.array(widths[1:-1]))
+            # depths are measured from the front of the stack, for both sides of incidence
+            front_widths = widths[1:-1] if front_or_rear == "front" else widths[1:-1][::-1]
+            z_limit = np.sum(np.array(front_widths))
             full_dist = np.arange(0, z_limit, options["depth_spacing"] * 1e9)
-            layer_start = np.insert(np.cumsum(np.insert(widths[1:-1], 0, 0)), 0, 0)
-            layer_end = np.cumsum(np.insert(widths[1:-1], 0, 0))
+            layer_start = np.insert(np.cumsum(np.insert(front_widths, 0, 0)), 0, 0)
+            layer_end = np.cumsum(np.insert(front_widths, 0, 0))
 
             dist = []
 
@@ -172,6 +172,11 @@ def RCWA(
                     )
                 )
 
+            z_coords = dist
+
+            if front_or_rear != "front":
+                dist = (z_limit - dist)[::-1]
+
         else:
             dist = None
 
@@ -287,7 +292,7 @@ def RCWA(
                 dims=["wl", "z", "global_index"],
                 coords={
                     "wl": wavelengths,
-                    "z": dist,
+                    "z": z_coords,
                     "global_index": np.arange(0, prof_mat.shape[2]),
                 },
             )
-- 
2.43.0


From ec98b7298dccc48e0220ed9678a71b2df6cdec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 32/57] fix: unpolarised light in RCWA was treated as linearly
 polarised at 45 degrees

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 12a4722..a1b673c 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -58,6 +58,25 @@ def process_pol(input_pol):
     return pol
 
 
+def pol_components(input_pol):
+    # unpolarised light: results are calculated for s and p polarised light and averaged
+    if isinstance(input_pol, str) and input_pol == "u":
+        return [process_pol("s"), process_pol("p")]
+
+    return [process_pol(input_pol)]
+
+
+def average_over_pols(results, n_pols):
+    # results for each polarisation component follow each other
+    if n_pols == 1:
+        return results
+
+    return [
+        tuple(sum(items) / n_pols for items in zip(*results[i1 : i1 + n_pols]))
+        for i1 in range(0, len(results), n_pols)
+    ]
+
+
 def set_incident_wave(S, s, p, options, wavelength):
     S.SetExcitationPlanewave(
         (options["theta_in"] * 180 / np.pi, options["phi_in"] * 180 / np.pi), s, p, 0
@@ -192,7 +211,7 @@ def RCWA(
         n_theta_bins = options["n_theta_bins"]
         c_az = options["c_azimuth"]
 
-        pol = process_pol(options["pol"])
+        pols = pol_components(options["pol"])
 
         if options["RCWA_method"].lower() == "s4":
             # RCWA options - S4 only
@@ -270,7 +289,9 @@ def RCWA(
                 dist,
             )
             for i1 in range(len(wavelengths))
+            for pol in pols
         )
+        allres = average_over_pols(allres, len(pols))
 
         A_mat = np.stack([item[2] for item in allres])
         full_mat = stack([item[3] for item in allres])
@@ -1107,7 +1128,7 @@ class rcwa_structure:
         get_wavelength(options)
         wl = options["wavelength"] * 1e9
 
-        pol = process_pol(options["pol"])
+        pols = pol_components(options["pol"])
 
         if not np.all(options["wavelength"] == self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
@@ -1135,7 +1156,9 @@ class rcwa_structure:
                 self.user_options,
             )
             for i1 in range(len(wl))
+            for pol in pols
         )
+        allres = average_over_pols(allres, len(pols))
 
         R = np.real(np.stack([item[0] for item in allres]))
         T = np.real(np.stack([item[1] for item in allres]))
@@ -1181,7 +1204,7 @@ class rcwa_structure:
         get_wavelength(options)
         wl = options["wavelength"] * 1e9
 
-        pol = process_pol(options["pol"])
+        pols = pol_components(options["pol"])
 
         if not np.all(options["wavelength"] == self.current_wavelengths):
             self.update_oc(options["wavelength"])
@@ -1228,9 +1251,11 @@ class rcwa_structure:
                 self.user_options,
             )
             for i1 in range(len(wl))
+            for pol in pols
         )
 
         output = np.real(np.stack(allres))
+        output = np.mean(output.reshape(len(wl), len(pols), len(dist)), axis=1)
 
         output[output < 0] = 0
 
-- 
2.43.0


From a545924bb87033b8d6c75978486d5af4ada635f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 33/57] fix: RCWA layers given as lists were dropped for a
 single wavelength or plain lists of optical constants

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index a1b673c..a497e26 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -994,15 +994,17 @@ class rcwa_structure:
                     list_for_OS.append(
                         [
                             layer[0],
-                            wavelengths,
-                            layer[1] * np.ones_like(wavelengths),
-                            layer[2] * np.ones_like(wavelengths),
+                            # two points, since OptiStack needs to interpolate (any wavelengths
+                            # will do, the values outside the range are the same)
+                            np.array([100.0, 10000.0]),
+                            layer[1] * np.ones(2),
+                            layer[2] * np.ones(2),
                         ]
                     )
 
                 if len(layer) == 5:
                     geom_list.append(layer[4])
-                    list_for_OS.append(layer[:4])
+                    list_for_OS.append([layer[0]] + [np.array(x) for x in layer[1:4]])
 
             else:
                 geom_list.append(layer.geometry)
-- 
2.43.0


From 4638ce6651516799968295b2448c2879358941a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 34/57] fix: analytic diffraction orders could not be
 calculated without S4

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index a497e26..c68367b 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -952,10 +952,10 @@ def get_reciprocal_lattice(size, orders):
     :rtype:
     """
 
-    S = S4.New(size, orders)
-    f_mat = S.GetReciprocalLattice()
+    (ax, ay), (bx, by) = size
+    area = ax * by - ay * bx
 
-    return f_mat
+    return (by / area, -bx / area), (-ay / area, ax / area)
 
 
 class rcwa_structure:
-- 
2.43.0


From a086f4c9c4622b9e4504465d49201418ff1cf247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 35/57] fix: azimuths of analytic diffraction orders were
 measured from y and lost their quadrant

---
 rayflare/analytic/diffraction.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rayflare/analytic/diffraction.py b/rayflare/analytic/diffraction.py
index 6b7f767..575d4ae 100644
--- a/rayflare/analytic/diffraction.py
+++ b/rayflare/analytic/diffraction.py
@@ -6,7 +6,6 @@
 # Contact: p.pearce@unsw.edu.au
 
 from rayflare.rigorous_coupled_wave_analysis.rcwa import (
-    fold_phi,
     get_reciprocal_lattice,
 )
 import numpy as np
@@ -75,8 +74,8 @@ def get_order_directions(
         n_out = transmission.n(wl * 1e-9)
         k_out = transmission.k(wl * 1e-9)
 
-    fi_x = np.real((n_in / wl) * np.sin(theta) * np.sin(phi))
-    fi_y = np.real((n_in / wl) * np.sin(theta) * np.cos(phi))
+    fi_x = np.real((n_in / wl) * np.sin(theta) * np.cos(phi))
+    fi_y = np.real((n_in / wl) * np.sin(theta) * np.sin(phi))
 
     xy = np.arange(-m_max, m_max + 1, 1)
 
@@ -93,8 +92,7 @@ def get_order_directions(
 
     ft_z = np.sqrt((eps_sub / (wl**2))[:, None] - fr_x**2 - fr_y**2)
 
-    phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
-    phi_rt = fold_phi(phi_rt, phi_sym)
+    phi_rt = np.arctan2(fr_y, fr_x) % phi_sym
     theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
     theta_t = np.pi - np.real(
         np.arccos(ft_z / np.sqrt(fr_x**2 + fr_y**2 + ft_z**2))
-- 
2.43.0


From 93778a904e732572975e0c319187f522aaf81ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 36/57] fix: complex refractive indices were rejected by the
 analytic diffraction orders

---
 rayflare/analytic/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/analytic/diffraction.py b/rayflare/analytic/diffraction.py
index 575d4ae..ee1f6d9 100644
--- a/rayflare/analytic/diffraction.py
+++ b/rayflare/analytic/diffraction.py
@@ -49,7 +49,7 @@ def get_order_directions(
                 "Optical constant array of incidence medium has different length to wavelength array"
             )
 
-    elif isinstance(incidence, (int, float)):
+    elif isinstance(incidence, (int, float, complex)):
         n_in = np.real(incidence)
         k_in = np.imag(incidence)
 
@@ -66,7 +66,7 @@ def get_order_directions(
                 "Optical constant array of incidence medium has different length to wavelength array"
             )
 
-    elif isinstance(transmission, (int, float)):
+    elif isinstance(transmission, (int, float, complex)):
         n_out = np.real(transmission)
         k_out = np.imag(transmission)
 
-- 
2.43.0


From ad8367784799e597615f364989d1d8169f151b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 37/57] fix: layer widths set in an rcwa_structure were lost
 when the wavelengths changed

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index c68367b..dd5f05f 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1075,10 +1075,12 @@ class rcwa_structure:
         )
 
         layers_oc = (np.array(stack_OS.get_indices(wavelengths * 1e9)) ** 2).T
-        widths = stack_OS.get_widths()
 
-        self.widths = widths
-        self.width = np.sum(self.widths[1:-1]) / 1e9
+        if not hasattr(self, "widths"):
+            # otherwise, keep the current widths, which may have been changed with set_widths
+            self.widths = stack_OS.get_widths()
+            self.width = np.sum(self.widths[1:-1]) / 1e9
+
         self.shapes_oc = shapes_oc
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
@@ -1577,9 +1579,10 @@ class rcwa_structure:
         """
 
         new_widths = np.append(
-            np.insert(np.array(new_widths, dtype="f"), 0, np.inf), np.inf
+            np.insert(np.array(new_widths, dtype=float), 0, np.inf), np.inf
         ).tolist()
         self.widths = new_widths
+        self.width = np.sum(self.widths[1:-1]) / 1e9
 
     def set_size(self, new_size):
         """Allows the user to set new basis vectors for the structure.
-- 
2.43.0


From 39cc134503a9ff535564762a213cd9a5edf588e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 38/57] fix: total width of a tmm_structure was not updated
 with the layer widths

---
 rayflare/transfer_matrix_method/tmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index bec79f6..3798c16 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -736,6 +736,7 @@ class tmm_structure:
     def set_widths(self, new_widths):
 
         self.layer_stack.set_widths(new_widths)
+        self.width = np.sum(self.layer_stack.widths) / 1e9
 
     def build_coh_list(self, options):
 
-- 
2.43.0


From 87a6a83a808cb1cf8df592fc5fdb82f022595345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 39/57] fix: rcwa_structure could not be used for another
 number of wavelengths

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index dd5f05f..9eb5caf 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1134,7 +1134,7 @@ class rcwa_structure:
 
         pols = pol_components(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
             self.update_oc(options["wavelength"])
 
@@ -1210,7 +1210,7 @@ class rcwa_structure:
 
         pols = pol_components(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
             self.update_oc(options["wavelength"])
             # if total R, A, T have already been calculated, it was for the wrong wavelengths
             self.calculate(options)
-- 
2.43.0


From 28a59b6019b8c28ee5e8a74d6d913ae5d78e994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 40/57] fix: rcwa_structure.calculate_profile returned R, A and
 T of an earlier calculation and changed its results

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 9eb5caf..6c30ba0 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1210,14 +1210,8 @@ class rcwa_structure:
 
         pols = pol_components(options["pol"])
 
-        if not np.array_equal(options["wavelength"], self.current_wavelengths):
-            self.update_oc(options["wavelength"])
-            # if total R, A, T have already been calculated, it was for the wrong wavelengths
-            self.calculate(options)
-
-        if not hasattr(self, "rat_output_A"):
-            # Need to calculate R, A, T first
-            self.calculate(options)
+        # R, A, T which have been calculated before may be for other wavelengths, angles, etc.
+        self.calculate(options)
 
         dist = options["z_points"] if "z_points" in options.keys() else None
         z_limit = options["z_limit"] if "z_limit" in options.keys() else None
-- 
2.43.0


From d4af8dbd40d0adbbd2dd264ccb1e70b688fce2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 41/57] fix: polygons given as lists moved with every RCWA
 calculation

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 6c30ba0..5a49d2e 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -806,9 +806,7 @@ def initialise_S_inkstone(size, orders, geom_list, mats_oc, shapes_oc, shape_mat
                     )
                 # ? argument are different than S4
                 elif shape["type"] == "polygon":
-                    vertices = shape["vertices"]
-                    if isinstance(vertices, tuple):
-                        vertices = list(vertices)
+                    vertices = list(shape["vertices"])
 
                     if "center" in shape:
                         center = shape["center"]
-- 
2.43.0


From 3b84040e92ac2a98e9c069ab9a629b81d5a092b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 42/57] fix: rcwa_structure ignored S4 options given later, and
 incomplete ones failed

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 71 +++++++------------
 1 file changed, 26 insertions(+), 45 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 5a49d2e..2c47302 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -77,6 +77,28 @@ def average_over_pols(results, n_pols):
     ]
 
 
+def get_S4_options(options):
+    # user options for S4, on top of the default values; None if S4 is not used
+    if options["RCWA_method"].lower() != "s4":
+        return None
+
+    S4_options = dict(
+        LatticeTruncation="Circular",
+        DiscretizedEpsilon=False,
+        DiscretizationResolution=8,
+        PolarizationDecomposition=False,
+        PolarizationBasis="Default",
+        LanczosSmoothing=False,
+        SubpixelSmoothing=False,
+        ConserveMemory=False,
+        WeismannFormulation=False,
+        Verbosity=0,
+    )
+    S4_options.update(options["S4_options"] if "S4_options" in options.keys() else {})
+
+    return S4_options
+
+
 def set_incident_wave(S, s, p, options, wavelength):
     S.SetExcitationPlanewave(
         (options["theta_in"] * 180 / np.pi, options["phi_in"] * 180 / np.pi), s, p, 0
@@ -213,26 +235,7 @@ def RCWA(
 
         pols = pol_components(options["pol"])
 
-        if options["RCWA_method"].lower() == "s4":
-            # RCWA options - S4 only
-            S4_options = dict(
-                LatticeTruncation="Circular",
-                DiscretizedEpsilon=False,
-                DiscretizationResolution=8,
-                PolarizationDecomposition=False,
-                PolarizationBasis="Default",
-                LanczosSmoothing=False,
-                SubpixelSmoothing=False,
-                ConserveMemory=False,
-                WeismannFormulation=False,
-                Verbosity=0,
-            )
-
-            user_options = options["S4_options"] if "S4_options" in options.keys() else {}
-            S4_options.update(user_options)
-
-        else:
-            S4_options = None
+        S4_options = get_S4_options(options)
 
         theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
 
@@ -1026,28 +1029,6 @@ class rcwa_structure:
 
         # depth_spacing = options['depth_spacing']
 
-        # RCWA options
-        if options["RCWA_method"].lower() == "s4":
-            S4_options = dict(
-                LatticeTruncation="Circular",
-                DiscretizedEpsilon=False,
-                DiscretizationResolution=8,
-                PolarizationDecomposition=False,
-                PolarizationBasis="Default",
-                LanczosSmoothing=False,
-                SubpixelSmoothing=False,
-                ConserveMemory=False,
-                WeismannFormulation=False,
-                Verbosity=0,
-            )
-
-            user_options = options["S4_options"] if "S4_options" in options.keys() else {}
-            S4_options.update(user_options)
-            self.user_options = S4_options
-
-        else:
-            self.user_options = None
-
     def update_oc(self, wavelengths):
         # wavelength in m
         shapes_oc = np.zeros((len(wavelengths), len(self.shape_mats)), dtype=complex)
@@ -1095,7 +1076,7 @@ class rcwa_structure:
         ]
 
         if options["RCWA_method"].lower() == "s4":
-            S = initialise_S(*(args + [options["S4_options"]]))
+            S = initialise_S(*(args + [get_S4_options(options)]))
 
         elif options["RCWA_method"].lower() == "inkstone":
             S = initialise_S_inkstone(*args)
@@ -1155,7 +1136,7 @@ class rcwa_structure:
                 self.size,
                 options["orders"],
                 options["A_per_order"],
-                self.user_options,
+                get_S4_options(options),
             )
             for i1 in range(len(wl))
             for pol in pols
@@ -1244,7 +1225,7 @@ class rcwa_structure:
                 self.widths,
                 self.size,
                 options["orders"],
-                self.user_options,
+                get_S4_options(options),
             )
             for i1 in range(len(wl))
             for pol in pols
-- 
2.43.0


From 20f3912ab50b06685e4b0027cfb9b9b4d4371325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 43/57] fix: fields and permittivity maps used the optical
 constants of another wavelength

---
 .../rigorous_coupled_wave_analysis/rcwa.py     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 2c47302..6899127 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1064,6 +1064,16 @@ class rcwa_structure:
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
 
+    def get_wl_ind(self, wavelength):
+        # index of a wavelength (in nm) for which the optical constants are available
+        diff = np.abs(self.current_wavelengths * 1e9 - wavelength)
+
+        if np.min(diff) > 1e-6:
+            self.update_oc(np.array([wavelength * 1e-9]))
+            return 0
+
+        return np.argmin(diff)
+
     def make_S(self, options, wl_ind):
         args = [
             self.size,
@@ -1267,7 +1277,7 @@ class rcwa_structure:
         :return: xs, ys, a_r, a_i. The x points, y points, and the real and imaginary parts of the dielectric function.
         """
 
-        wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+        wl_ind = self.get_wl_ind(wavelength)
 
         S = self.make_S(options, wl_ind)
 
@@ -1351,7 +1361,7 @@ class rcwa_structure:
                     the magnitude of the E-field, the magnitude of the H-field. The magnitude is given by sqrt(abs(Ex^2 + Ey^2 + Ez^2))
         """
 
-        wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+        wl_ind = self.get_wl_ind(wavelength)
 
         S = self.make_S(options, wl_ind)
 
@@ -1441,7 +1451,7 @@ class rcwa_structure:
         """
 
         if options["RCWA_method"].lower() == "s4":
-            wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+            wl_ind = self.get_wl_ind(wavelength)
 
             S = self.make_S(options, wl_ind)
 
@@ -1481,7 +1491,7 @@ class rcwa_structure:
         """
 
         if options["RCWA_method"].lower() == "s4":
-            wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+            wl_ind = self.get_wl_ind(wavelength)
 
             S = self.make_S(options, wl_ind)
 
-- 
2.43.0


From a7e2047bdbe27a7a830227e93d83f6b76141deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 44/57] fix: ray-traced interface profiles could have a sample
 at the end of a layer because of rounding

---
 rayflare/ray_tracing/rt.py | 11 ++++++++---
 rayflare/utilities.py      |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index e02230d..c408b0e 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -20,7 +20,12 @@ from warnings import warn
 from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_savepath, get_wavelength
+from rayflare.utilities import (
+    get_matrices_or_paths,
+    get_savepath,
+    get_wavelength,
+    sample_depths,
+)
 from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
 
 from rayflare import logger
@@ -1146,7 +1151,7 @@ def parallel_inner(
                 widths_int = interface_layer_widths[j1]
                 for k1, l_w in enumerate(widths_int):
                     z_lists[j1].append(
-                        xr.DataArray(np.arange(0, l_w, depth_spacing_int))
+                        xr.DataArray(sample_depths(l_w, depth_spacing_int))
                     )
                     if k1 + 1 in prof_layer_i:
                         n_z_points += len(z_lists[j1][-1])
@@ -1374,7 +1379,7 @@ def make_profiles_wl(
     z_list = []
 
     for l_w in widths:
-        z_list.append(xr.DataArray(np.arange(0, l_w, depth_spacing)))
+        z_list.append(xr.DataArray(sample_depths(l_w, depth_spacing)))
 
     offsets = np.cumsum([0] + widths)[:-1]
 
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index c7c2733..c6eb7e1 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -13,6 +13,11 @@ import xarray as xr
 
 from rayflare import logger
 
+
+def sample_depths(width, spacing):
+    """Depths of samples from 0 to the width, which is not included (also not because of rounding errors)."""
+    return np.arange(0, width - 1e-6 * spacing, spacing)
+
 def make_absorption_function(result, structure, options):
     """
     :param result: the result of an optical calculation; this can be from using the angular redistribution matrix method,
-- 
2.43.0


From 68b8eceb169b4e87e4a9986aa4304e576f8570a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 45/57] fix: make_absorption_function misplaced samples, or
 failed, when not all interfaces, layers or the bulk have profiles

---
 rayflare/transfer_matrix_method/tmm.py |   1 +
 rayflare/utilities.py                  | 315 +++++++++++++------------
 2 files changed, 165 insertions(+), 151 deletions(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 3798c16..d18748b 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -599,6 +599,7 @@ class tmm_structure:
             output["profile_coeff"] = np.stack(
                 (fn.A1, fn.A2, np.real(fn.A3), np.imag(fn.A3), fn.a1, fn.a3)
             )  # shape is (6, n_layers, num_wl)
+            output["profile_layers"] = np.array(layers)
 
         get_wavelength(options)
         wavelength = options["wavelength"] * 1e9
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index c6eb7e1..2689b5c 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -13,11 +13,92 @@ import xarray as xr
 
 from rayflare import logger
 
-
 def sample_depths(width, spacing):
     """Depths of samples from 0 to the width, which is not included (also not because of rounding errors)."""
     return np.arange(0, width - 1e-6 * spacing, spacing)
 
+
+def profile_samples(widths, spacing, each_layer=False):
+    """
+    Depths at which absorption profiles are calculated in a stack of layers. Widths and spacing in the same unit.
+
+    :param widths: widths of the layers
+    :param spacing: spacing of the samples
+    :param each_layer: True if a new series of samples starts in each layer, False if the samples are on a single grid
+
+    :return: positions, layer. Depth of each sample, and the layer it is in (starting from 1).
+    """
+    widths = np.array(widths, dtype=float)
+    end = np.cumsum(widths)
+
+    if each_layer:
+        samples = [sample_depths(width, spacing) for width in widths]
+        positions = np.hstack([[]] + [e - w + x for e, w, x in zip(end, widths, samples)])
+        layer = np.repeat(np.arange(1, len(widths) + 1), [len(x) for x in samples])
+
+    else:
+        positions = np.arange(0, np.sum(widths), spacing)
+        layer = np.searchsorted(end, positions, side="right") + 1
+        positions = positions[layer <= len(widths)]
+        layer = layer[layer <= len(widths)]
+
+    return positions, layer
+
+
+def all_layers(layer, profile_layers, profile, n_wl):
+    """
+    Absorption profile of all the layers, from the profile of some of them.
+
+    :param layer: layer of each sample
+    :param profile_layers: layers in the profile, or None
+    :param profile: profile in these layers
+    :param n_wl: number of wavelengths
+    """
+    full_profile = np.zeros((n_wl, len(layer)))
+
+    if profile_layers is not None:
+        samples = np.hstack([np.where(layer == l1)[0] for l1 in profile_layers])
+        full_profile[:, samples] = profile
+
+    return full_profile
+
+
+def film_profile(interface, profiles, spacing, n_wl):
+    """
+    Absorption profile of all the layers of an interface in the angular redistribution matrix method.
+
+    :param interface: Interface object
+    :param profiles: iterator over the calculated interface profiles (in nm-1)
+    :param spacing: depth spacing in nm
+    :param n_wl: number of wavelengths
+
+    :return: positions (in nm), profile (in m-1)
+    """
+    from solcore.absorption_calculator import OptiStack
+
+    if not interface.widths:
+        return np.zeros(0), np.zeros((n_wl, 0))
+
+    # use the same depths as in the calculation of the profiles
+    if interface.method == "RT_TMM":
+        widths = np.array(interface.widths) * 1e9
+        positions, layer = profile_samples(widths, spacing, each_layer=True)
+
+    else:
+        widths = OptiStack(interface.layers).widths
+        positions, layer = profile_samples(widths, spacing)
+
+    profile = None if interface.prof_layers is None else np.asarray(next(profiles))
+
+    # convert from nm-1 to m-1
+    prof = 1e9 * all_layers(layer, interface.prof_layers, profile, n_wl)
+
+    # rounding errors can put a sample at the end of the stack
+    keep = positions < np.sum(widths) - 1e-6 * spacing
+
+    return positions[keep], prof[:, keep]
+
+
 def make_absorption_function(result, structure, options):
     """
     :param result: the result of an optical calculation; this can be from using the angular redistribution matrix method,
@@ -46,25 +127,13 @@ def make_absorption_function(result, structure, options):
     if isinstance(structure, Structure):
         matrix_method = True
 
-    elif isinstance(structure, tmm_structure):
-        matrix_method = False
-        interfaces_and_bulks = False
-        depth_spacing = options.depth_spacing
-
-    elif isinstance(structure, rcwa_structure):
+    elif isinstance(structure, (tmm_structure, rcwa_structure)):
         matrix_method = False
         interfaces_and_bulks = False
-        depth_spacing = options.depth_spacing
 
     elif isinstance(structure, rt_structure):
         matrix_method = False
-
-        if sum(structure.tmm_or_fresnel) > 0:
-            interfaces_and_bulks = True
-
-        else:
-            interfaces_and_bulks = False
-            depth_spacing = options.depth_spacing_bulk
+        interfaces_and_bulks = sum(structure.tmm_or_fresnel) > 0
 
     else:
         raise ValueError(
@@ -73,77 +142,32 @@ def make_absorption_function(result, structure, options):
 
     if matrix_method:
 
-        profile_front = result[2][0]
-        profile_bulk = result[3][0]
-        profile_back = result[2][1]
-
-        widths_front = np.array(structure[0].widths) * 1e9  # in nm
-        width_bulk = np.array(structure[1].width) * 1e6  # in um
-        widths_back = np.array(structure[2].widths) * 1e9  # in nm
+        # the result contains profiles only for the interfaces for which they were calculated
+        interface_profiles = iter(result[2])
 
         d_ints = options.depth_spacing * 1e9  # m to nm
-        d_bulk = options.depth_spacing_bulk * 1e6  # m to um
-
-        front_positions = np.arange(0, np.sum(widths_front) - 1e-12, d_ints)  # in nm
-        bulk_positions = np.arange(0, width_bulk - 1e-12, d_bulk)  # in um
-        back_positions = np.arange(0, np.sum(widths_back) - 1e-12, d_ints)  # in nm
+        n_wl = len(options.wavelength)
 
-        layer_start = np.insert(np.cumsum(np.insert(widths_front, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_front, 0, 0))
+        pos_front, prof_front = film_profile(structure[0], interface_profiles, d_ints, n_wl)
+        pos_back, prof_back = film_profile(structure[2], interface_profiles, d_ints, n_wl)
 
-        prof_front = np.zeros((len(options.wavelength), len(front_positions)))
+        width_front = np.sum(structure[0].widths)  # in m
+        width_bulk = structure[1].width  # in m
 
-        if structure[0].prof_layers is not None:
-
-            index_offset = 0
-
-            for i1 in structure[0].prof_layers:
-                indices = np.logical_and(
-                    front_positions >= layer_start[i1], front_positions < layer_end[i1]
-                )
-                ind_diff = np.sum(indices)
-                prof_front[:, indices] = (
-                    1e9
-                    * profile_front[
-                        :, index_offset : (index_offset + ind_diff)
-                    ]  # convert from nm-1 to m-1
-                )
-                index_offset += ind_diff
-
-        layer_start = np.insert(np.cumsum(np.insert(widths_back, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_back, 0, 0))
-
-        prof_back = np.zeros((len(options.wavelength), len(back_positions)))
-
-        if structure[2].prof_layers is not None:
-
-            index_offset = 0
-
-            for i1 in structure[2].prof_layers:
-                indices = np.logical_and(
-                    back_positions >= layer_start[i1], back_positions < layer_end[i1]
-                )
-                ind_diff = np.sum(indices)
-                prof_back[:, indices] = (
-                    1e9
-                    * profile_back[
-                        :, index_offset : (index_offset + ind_diff)
-                    ]  # convert from nm-1 to m-1
-                )
-                index_offset += ind_diff
+        pos_bulk = sample_depths(width_bulk, options.depth_spacing_bulk)
 
         if options.bulk_profile:
 
-            prof_bulk = profile_bulk[:, : len(bulk_positions)]  # already in m-1
+            prof_bulk = np.asarray(result[3][0])[:, : len(pos_bulk)]  # already in m-1
 
         else:
-            prof_bulk = np.zeros_like(bulk_positions)
+            prof_bulk = np.zeros((n_wl, len(pos_bulk)))
 
         all_positions = np.hstack(
             (
-                front_positions / 1e9,
-                bulk_positions / 1e6 + np.sum(widths_front) / 1e9,
-                back_positions / 1e9 + np.sum(widths_front) / 1e9 + width_bulk / 1e6,
+                pos_front / 1e9,
+                pos_bulk + width_front,
+                pos_back / 1e9 + width_front + width_bulk,
             )
         )  # all units get converted back to m
 
@@ -161,111 +185,100 @@ def make_absorption_function(result, structure, options):
             all_data = []
             all_positions = []
 
-            cumulative_width = 0  # cumulative width in nm
-            index_offset_bulk = 0
-
-            layer_start_bulk = np.insert(np.cumsum(structure.widths, 0), 0, 0)
-            layer_end_bulk = np.cumsum(structure.widths, 0)
-
-            bulk_positions = (
-                np.arange(
-                    0, np.sum(structure.widths) * 1e6, options.depth_spacing_bulk * 1e6
-                )
-                / 1e6
-            )  # widths and spacing are in m
+            cumulative_width = 0  # cumulative width in m
+
+            # depths of the samples in the bulk layers (which are without the films between them) and the layer they
+            # are in. A sample at the boundary between two layers belongs to the lower one. Widths and spacing are in um
+            # here, like in the ray-tracing.
+            widths_bulk = 1e6 * np.array(structure.widths)
+            d_bulk = options.depth_spacing_bulk * 1e6
+            bulk_positions = sample_depths(np.sum(widths_bulk), d_bulk)
+            bulk_start = np.cumsum(widths_bulk) - widths_bulk
+            bulk_layer = (
+                np.searchsorted(bulk_start, bulk_positions + 1e-6 * d_bulk, side="right")
+                - 1
+            )
 
             for i1, surf in enumerate(structure.surfaces):
 
-                index_offset_surf = 0  # data for each interface is saved separately in a list in result["interface_profiles"]
-
                 if structure.tmm_or_fresnel[i1] == 1:  # tmm interface
 
-                    surf_positions = np.arange(
-                        0,
-                        np.sum(structure.interface_layer_widths[i1]),
-                        options.depth_spacing * 1e9,
-                    )
-                    surf_prof = np.zeros(
-                        (len(options.wavelength), len(surf_positions))
-                    )
-
-                    if hasattr(surf, "prof_layers"):
-
-                        data = result["interface_profiles"][i1]
+                    surf_widths = structure.interface_layer_widths[i1]
 
-                        layer_start = np.insert(
-                            np.cumsum(
-                                np.insert(structure.interface_layer_widths[i1], 0, 0)
-                            ),
-                            0,
-                            0,
-                        )
-                        # insert 0 because prof_layers in 1-indexed
-                        layer_end = np.cumsum(
-                            np.insert(structure.interface_layer_widths[i1], 0, 0)
+                    # the ray-tracing starts a new series of samples in each layer
+                    surf_positions, surf_layer = profile_samples(
+                        surf_widths, options.depth_spacing * 1e9, each_layer=True
+                    )
+                    # convert from nm-1 to m-1
+                    all_data.append(
+                        1e9
+                        * all_layers(
+                            surf_layer,
+                            structure.prof_layers[i1],
+                            result["interface_profiles"][i1],
+                            len(options.wavelength),
                         )
-
-                        for j1 in surf.prof_layers:
-                            indices = np.logical_and(
-                                surf_positions >= layer_start[j1],
-                                surf_positions < layer_end[j1],
-                            )
-                            ind_diff = np.sum(indices)
-
-                            surf_prof[:, indices] = (
-                                1e9
-                                * data[
-                                    :,
-                                    index_offset_surf : (index_offset_surf + ind_diff),
-                                ]  # convert from nm-1 to m-1
-                            )
-                            index_offset_surf += ind_diff
-
-                    all_data.append(surf_prof)
+                    )
                     all_positions.append(
                         surf_positions / 1e9 + cumulative_width
                     )  # convert to m
 
-                    cumulative_width += (
-                        np.sum(structure.interface_layer_widths[i1]) * 1e-9
-                    )  # cumulative in m
+                    cumulative_width += np.sum(surf_widths) * 1e-9  # cumulative in m
 
                 # bulk underneath the interface:
                 if (
                     i1 < len(structure.surfaces) - 1
                 ):  # no bulk underneath final interface!
 
-                    data = result["profile"]
+                    indices = bulk_layer == i1
 
-                    indices = np.logical_and(
-                        bulk_positions >= layer_start_bulk[i1],
-                        bulk_positions < layer_end_bulk[i1],
+                    # convert from nm-1 to m-1
+                    all_data.append(
+                        1e9 * result["profile"][:, : len(indices)][:, indices]
                     )
-                    # print(layer_start_bulk[i1], layer_end_bulk[i1])
-                    # print(indices)
-                    ind_diff = np.sum(indices)
-                    bulk_prof = (
-                        1e9
-                        * data[:, index_offset_bulk : (index_offset_bulk + ind_diff)]
-                    )  # convert from nm-1 to m-1
-                    pos_from_zero = bulk_positions[indices] - np.min(
-                        bulk_positions[indices]
+                    all_positions.append(
+                        (bulk_positions[indices] - bulk_start[i1]) / 1e6
+                        + cumulative_width
                     )
-                    # print(bulk_prof)
-                    index_offset_bulk += ind_diff
-
-                    all_data.append(bulk_prof)
-                    all_positions.append(pos_from_zero + cumulative_width)
 
                     cumulative_width += structure.widths[i1]
 
             positions = np.hstack(all_positions)
-            diff_absorb_fn = interp1d(positions, np.hstack(all_data))
+            data = np.hstack(all_data)
 
         else:
+            data = 1e9 * result["profile"]  # convert from nm-1 to m-1
+
+            # these are the depths at which the profile was calculated
+            if isinstance(structure, tmm_structure):
+                positions, layer = profile_samples(
+                    structure.layer_stack.widths, options.depth_spacing * 1e9
+                )
+                positions = positions / 1e9
+
+                data = all_layers(
+                    layer, result["profile_layers"], data, len(options.wavelength)
+                )
+
+            elif isinstance(structure, rcwa_structure):
+                positions = (
+                    np.arange(
+                        0, np.sum(structure.widths[1:-1]), options.depth_spacing * 1e9
+                    )
+                    / 1e9
+                )
+
+            else:
+                positions = (
+                    np.arange(
+                        0,
+                        np.sum(1e6 * np.array(structure.widths)),
+                        options.depth_spacing_bulk * 1e6,
+                    )
+                    / 1e6
+                )
 
-            positions = np.arange(0, structure.width*1e6, depth_spacing*1e6)/1e6
-            diff_absorb_fn = interp1d(positions, 1e9 * result["profile"])
+        diff_absorb_fn = interp1d(positions, data)
 
         return positions, diff_absorb_fn
 
-- 
2.43.0


From ef13c57d5feab403fd9717e4396c4287ded26764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 46/57] fix: options given as a plain dictionary raised an
 AttributeError in several functions

---
 .../matrix_formalism/multiply_matrices.py     | 20 ++++++++---------
 .../matrix_formalism/process_structure.py     |  4 ++--
 rayflare/ray_tracing/rt.py                    |  6 ++---
 .../rigorous_coupled_wave_analysis/rcwa.py    |  2 +-
 rayflare/transfer_matrix_method/tmm.py        |  2 +-
 rayflare/utilities.py                         | 22 +++++++++----------
 6 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 4a9f21f..8f2f265 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -308,19 +308,19 @@ def matrix_multiplication(
     :rtype:
     """
 
-    results_path = get_savepath(save_location, options.project_name)
+    results_path = get_savepath(save_location, options["project_name"])
 
     n_bulks = len(bulk_mats)
     n_interfaces = n_bulks + 1
 
     theta_spacing = (
-        options.theta_spacing if "theta_spacing" in options else "sin"
+        options["theta_spacing"] if "theta_spacing" in options else "sin"
     )
 
     theta_intv, phi_intv, angle_vector = make_angle_vector(
-        options.n_theta_bins,
-        options.phi_symmetry,
-        options.c_azimuth,
+        options["n_theta_bins"],
+        options["phi_symmetry"],
+        options["c_azimuth"],
         theta_spacing,
     )
     n_a_in = int(len(angle_vector) / 2)
@@ -333,7 +333,7 @@ def matrix_multiplication(
 
     thetas = angle_vector[:n_a_in, 1]
 
-    if options.phi_in != "all":
+    if options["phi_in"] != "all":
         # fold phi_in back into phi_symmetry
         phi_in = fold_phi(options["phi_in"], options["phi_symmetry"])
 
@@ -388,7 +388,7 @@ def matrix_multiplication(
     vf_2 = [[] for _ in range(n_interfaces)]
     vb_2 = [[] for _ in range(n_interfaces)]
 
-    if np.any(len_calcs > 0) or options.bulk_profile:
+    if np.any(len_calcs > 0) or options["bulk_profile"]:
         # need to calculate profiles in either the bulk or the interfaces
 
         a_prof = [[] for _ in range(n_interfaces)]
@@ -448,7 +448,7 @@ def matrix_multiplication(
                 A[i1].append(np.sum(vf_1[i1], 1) - np.sum(vb_1[i1], 1))
                 # print("Total absorbed, back", A[i1][-1])
 
-                if options.bulk_profile:
+                if options["bulk_profile"]:
                     A_prof[i1].append(
                         bulk_profile_calc(
                             vf_1[i1],
@@ -475,7 +475,7 @@ def matrix_multiplication(
                 )  # binning doesn't matter here because summing
                 # print("Bulk A (total):", A[i1][-1])
 
-                if options.bulk_profile:
+                if options["bulk_profile"]:
                     # vb_2 needs to be transformed to incoming ray format
                     A_prof[i1].append(
                         np.flip(
@@ -591,7 +591,7 @@ def matrix_multiplication(
             name="T",
         )
 
-        if np.any(len_calcs > 0) or options.bulk_profile:
+        if np.any(len_calcs > 0) or options["bulk_profile"]:
 
             A_prof = [np.array(item) for item in A_prof]
 
diff --git a/rayflare/matrix_formalism/process_structure.py b/rayflare/matrix_formalism/process_structure.py
index 84ab1da..54912a7 100644
--- a/rayflare/matrix_formalism/process_structure.py
+++ b/rayflare/matrix_formalism/process_structure.py
@@ -121,7 +121,7 @@ def process_structure(SC, options, save_location="default", overwrite=False):
                 which_sides = ["front", "rear"]
 
             if struct.method == "Mirror":
-                theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+                theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
                 theta_intv, phi_intv, angle_vector = make_angle_vector(
                     options["n_theta_bins"],
@@ -142,7 +142,7 @@ def process_structure(SC, options, save_location="default", overwrite=False):
                 )
 
             if struct.method == "Lambertian":
-                theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+                theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
                 theta_intv, _, angle_vector = make_angle_vector(
                     options["n_theta_bins"],
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index c408b0e..c33860e 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -99,7 +99,7 @@ def RT(
             n_jobs = 1
 
         else:
-            n_jobs = options.n_jobs if "n_jobs" in options else -1
+            n_jobs = options["n_jobs"] if "n_jobs" in options else -1
 
         if calc_profile is not None:
             depth_spacing = options["depth_spacing"] * 1e9  # convert from m to nm
@@ -119,7 +119,7 @@ def RT(
         else:
             lookuptable = None
 
-        theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+        theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
         theta_intv, phi_intv, angle_vector = make_angle_vector(
             n_theta_bins, phi_sym, c_az, theta_spacing
@@ -869,7 +869,7 @@ class rt_structure:
             n_jobs = 1
 
         else:
-            n_jobs = options.n_jobs if "n_jobs" in options else -1
+            n_jobs = options["n_jobs"] if "n_jobs" in options else -1
 
         widths = self.widths[:]
         widths.insert(0, 0)
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 6899127..a013028 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -237,7 +237,7 @@ def RCWA(
 
         S4_options = get_S4_options(options)
 
-        theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+        theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
         theta_intv, phi_intv, angle_vector = make_angle_vector(
             n_theta_bins, phi_sym, c_az, theta_spacing
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index d18748b..1cc1501 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -143,7 +143,7 @@ def TMM(
         get_wavelength(options)
         wavelengths = options["wavelength"]
 
-        theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+        theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
         theta_intv, phi_intv, angle_vector = make_angle_vector(
             options["n_theta_bins"],
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 2689b5c..0561e23 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -145,8 +145,8 @@ def make_absorption_function(result, structure, options):
         # the result contains profiles only for the interfaces for which they were calculated
         interface_profiles = iter(result[2])
 
-        d_ints = options.depth_spacing * 1e9  # m to nm
-        n_wl = len(options.wavelength)
+        d_ints = options["depth_spacing"] * 1e9  # m to nm
+        n_wl = len(options["wavelength"])
 
         pos_front, prof_front = film_profile(structure[0], interface_profiles, d_ints, n_wl)
         pos_back, prof_back = film_profile(structure[2], interface_profiles, d_ints, n_wl)
@@ -154,9 +154,9 @@ def make_absorption_function(result, structure, options):
         width_front = np.sum(structure[0].widths)  # in m
         width_bulk = structure[1].width  # in m
 
-        pos_bulk = sample_depths(width_bulk, options.depth_spacing_bulk)
+        pos_bulk = sample_depths(width_bulk, options["depth_spacing_bulk"])
 
-        if options.bulk_profile:
+        if options["bulk_profile"]:
 
             prof_bulk = np.asarray(result[3][0])[:, : len(pos_bulk)]  # already in m-1
 
@@ -191,7 +191,7 @@ def make_absorption_function(result, structure, options):
             # are in. A sample at the boundary between two layers belongs to the lower one. Widths and spacing are in um
             # here, like in the ray-tracing.
             widths_bulk = 1e6 * np.array(structure.widths)
-            d_bulk = options.depth_spacing_bulk * 1e6
+            d_bulk = options["depth_spacing_bulk"] * 1e6
             bulk_positions = sample_depths(np.sum(widths_bulk), d_bulk)
             bulk_start = np.cumsum(widths_bulk) - widths_bulk
             bulk_layer = (
@@ -207,7 +207,7 @@ def make_absorption_function(result, structure, options):
 
                     # the ray-tracing starts a new series of samples in each layer
                     surf_positions, surf_layer = profile_samples(
-                        surf_widths, options.depth_spacing * 1e9, each_layer=True
+                        surf_widths, options["depth_spacing"] * 1e9, each_layer=True
                     )
                     # convert from nm-1 to m-1
                     all_data.append(
@@ -216,7 +216,7 @@ def make_absorption_function(result, structure, options):
                             surf_layer,
                             structure.prof_layers[i1],
                             result["interface_profiles"][i1],
-                            len(options.wavelength),
+                            len(options["wavelength"]),
                         )
                     )
                     all_positions.append(
@@ -252,18 +252,18 @@ def make_absorption_function(result, structure, options):
             # these are the depths at which the profile was calculated
             if isinstance(structure, tmm_structure):
                 positions, layer = profile_samples(
-                    structure.layer_stack.widths, options.depth_spacing * 1e9
+                    structure.layer_stack.widths, options["depth_spacing"] * 1e9
                 )
                 positions = positions / 1e9
 
                 data = all_layers(
-                    layer, result["profile_layers"], data, len(options.wavelength)
+                    layer, result["profile_layers"], data, len(options["wavelength"])
                 )
 
             elif isinstance(structure, rcwa_structure):
                 positions = (
                     np.arange(
-                        0, np.sum(structure.widths[1:-1]), options.depth_spacing * 1e9
+                        0, np.sum(structure.widths[1:-1]), options["depth_spacing"] * 1e9
                     )
                     / 1e9
                 )
@@ -273,7 +273,7 @@ def make_absorption_function(result, structure, options):
                     np.arange(
                         0,
                         np.sum(1e6 * np.array(structure.widths)),
-                        options.depth_spacing_bulk * 1e6,
+                        options["depth_spacing_bulk"] * 1e6,
                     )
                     / 1e6
                 )
-- 
2.43.0


From 37133f88673c843654a656b5e4bb6bcf9d65ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 47/57] fix: unknown polarizations were treated as unpolarized
 light, or gave NaN

---
 rayflare/ray_tracing/rt.py                      | 3 +++
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 rayflare/transfer_matrix_method/tmm.py          | 3 ++-
 rayflare/utilities.py                           | 8 +++++++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index c33860e..d78ca64 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -21,6 +21,7 @@ from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
 from rayflare.utilities import (
+    check_pol,
     get_matrices_or_paths,
     get_savepath,
     get_wavelength,
@@ -94,6 +95,7 @@ def RT(
         n_theta_bins = options["n_theta_bins"]
         c_az = options["c_azimuth"]
         pol = options["pol"]
+        check_pol(pol)
 
         if not options["parallel"]:
             n_jobs = 1
@@ -953,6 +955,7 @@ class rt_structure:
         n_reps = int(np.ceil(options["n_rays"] / (nx * ny)))
 
         pol = options["pol"]
+        check_pol(pol)
         randomize = options["randomize_surface"]
 
         initial_mat = (
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index a013028..28f4e43 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -44,7 +44,7 @@ def process_pol(input_pol):
         pol = input_pol
 
     else:
-        if input_pol in "sp":
+        if input_pol in ["s", "p"]:
             pol = (int(input_pol == "s"), int(input_pol == "p"))
 
         elif input_pol == "u":
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 1cc1501..fdbe233 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -13,7 +13,7 @@ from solcore.absorption_calculator import tmm_core_vec as tmm
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import check_pol, get_matrices_or_paths, get_wavelength
 
 
 def TMM(
@@ -604,6 +604,7 @@ class tmm_structure:
         get_wavelength(options)
         wavelength = options["wavelength"] * 1e9
         pol = options["pol"]
+        check_pol(pol)
         angle = options["theta_in"]
 
         coherent = options["coherent"] if "coherent" in options.keys() else True
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 0561e23..77d1554 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -366,4 +366,10 @@ def get_wavelength(options):
         logger.warning(
             "The option 'wavelengths' (plural) will be deprecated in the next major version. Please use 'wavelength' (singular) instead. "
             "Currently, wavelengths (plural) will override wavelength (singular) if both are specified."
-        )
\ No newline at end of file
+        )
+
+
+def check_pol(pol):
+    """Raises an error for a polarization which is not 's', 'p' or 'u'."""
+    if not isinstance(pol, str) or pol not in ["s", "p", "u"]:
+        raise ValueError(f"Polarization must be 's', 'p' or 'u', not {pol!r}.")
-- 
2.43.0


From 416a306908d956c1bf71fbc59b66dea14fdbdf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 48/57] fix: rt_structure ignored materials for which no width
 was given

---
 rayflare/ray_tracing/rt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index d78ca64..d1cbe48 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -784,6 +784,12 @@ class rt_structure:
         overwrite=False,
     ):
 
+        if len(materials) != len(widths) or len(textures) != len(materials) + 1:
+            raise ValueError(
+                "The number of materials ({}) and widths ({}) must be the same, and one less than the number of "
+                "textures ({}).".format(len(materials), len(widths), len(textures))
+            )
+
         self.textures = textures
         self.widths = widths
 
-- 
2.43.0


From ddaea5ecc3d219dce3bad7d31f8850c775f4a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 49/57] fix: rcwa_structure.set_widths accepted too few widths,
 dropping layers

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 28f4e43..405d0a7 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1561,6 +1561,13 @@ class rcwa_structure:
         :param new_widths: new layer widths, in nm.
         """
 
+        if len(new_widths) != len(self.widths) - 2:
+            raise ValueError(
+                "The list of widths must have as many elements (now {}) as the number of layers (now {}).".format(
+                    len(new_widths), len(self.widths) - 2
+                )
+            )
+
         new_widths = np.append(
             np.insert(np.array(new_widths, dtype=float), 0, np.inf), np.inf
         ).tolist()
-- 
2.43.0


From c7352a5af3ca12f8d89d279f3e665d51139df813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 50/57] fix: a lookup table for an incoherent stack without a
 coherency list was made for a coherent stack

---
 rayflare/ray_tracing/rt.py                      | 2 +-
 rayflare/transfer_matrix_method/lookup_table.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index d1cbe48..bdc83dd 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -545,7 +545,7 @@ def make_lookuptable_rt_structure(
             else:
                 trn_for_lookuptable.append(transmission)
 
-            if hasattr(text[0], "coherency_list"):
+            if getattr(text[0], "coherency_list", None) is not None:
                 coherent_for_lookuptable.append(False)
                 coherency_list_for_lookuptable.append(text[0].coherency_list)
 
diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index a3a4a9d..90f7902 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -80,8 +80,12 @@ def make_TMM_lookuptable(
 
         if coherency_list is not None:
             coherency_lists = [coherency_list, coherency_list[::-1]]
-        else:
+        elif coherent:
             coherency_lists = [["c"] * n_layers] * 2
+        else:
+            raise ValueError(
+                "For incoherent or partly incoherent lookup tables, a coherency_list must be given."
+            )
         # can calculate by angle, already vectorized over wavelength
         pols = ["s", "p"]
 
-- 
2.43.0


From 142925d6260af77c9a42517bce4ac3936a8c9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 51/57] fix: interfaces with the same name silently used each
 other's redistribution matrices

---
 rayflare/matrix_formalism/process_structure.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rayflare/matrix_formalism/process_structure.py b/rayflare/matrix_formalism/process_structure.py
index 54912a7..2d916dd 100644
--- a/rayflare/matrix_formalism/process_structure.py
+++ b/rayflare/matrix_formalism/process_structure.py
@@ -59,6 +59,13 @@ def process_structure(SC, options, save_location="default", overwrite=False):
 
         return coh, c_list
 
+    names = [struct.name for struct in SC if isinstance(struct, Interface)]
+
+    if len(set(names)) < len(names):
+        raise ValueError(
+            f"The interfaces must have different names, because these identify their stored matrices, but are named {names}."
+        )
+
     layer_widths = []
 
     structpath = get_savepath(save_location, options["project_name"])
-- 
2.43.0


From 16186878a4aa0d4287c97e1a725367bf72c842f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 52/57] fix: thin-film tables made for wavelengths in any order
 can be used in ray tracing

---
 rayflare/ray_tracing/rt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index bdc83dd..128f803 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -114,7 +114,9 @@ def RT(
             side = -1
 
         if Fr_or_TMM == 1:
-            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc"))
+            lookuptable = xr.open_dataset(
+                os.path.join(structpath, surf_name + ".nc")
+            ).drop_duplicates("wl").sortby("wl")  # wavelengths can be given in any order
             if front_or_rear == "rear":
                 # side gets flipped here
                 lookuptable = lookuptable.assign_coords(side=np.flip(lookuptable.side))
@@ -1092,7 +1094,9 @@ def make_tmm_args(arg_list):
 
             structpath = arg_list[2]
             surf_name = arg_list[3][i1] + "int_{}".format(i1)
-            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc"))
+            lookuptable = xr.open_dataset(
+                os.path.join(structpath, surf_name + ".nc")
+            ).drop_duplicates("wl").sortby("wl")  # wavelengths can be given in any order
             additional_tmm_args.append(
                 {"wl": arg_list[-1], "Fr_or_TMM": 1, "lookuptable": lookuptable}
             )
-- 
2.43.0


From 4de9fbc07b3ac992984cf7e8b9f3bd0a2f901d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 53/57] fix: fields integrated over z were those of the layer
 above the requested one

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 405d0a7..98545a8 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1524,7 +1524,7 @@ class rcwa_structure:
 
             for x_i, y_i in zip(range(0, total_points), range(0, total_points)):
                 calc = S.GetLayerZIntegral(
-                    Layer="layer_" + str(layer_index),
+                    Layer="layer_" + str(layer_index + 1),
                     xy=(xys[0].flatten()[x_i], xys[1].flatten()[y_i]),
                 )
                 E[ind_0[x_i], ind_1[y_i]] = calc[0]
-- 
2.43.0


From b86f42ef1de28f400c04ba4a2738d05faed89112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 54/57] fix: fields in the incidence medium could not be
 calculated with S4

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 98545a8..b9487e4 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1376,6 +1376,10 @@ class rcwa_structure:
         if layer_index > 0:
             depth_S4 = np.cumsum([0] + self.widths[1:-1] + [0])[layer_index - 1] + depth
 
+        else:
+            # z < 0 in the incidence medium, which does not have a top surface
+            depth_S4 = -abs(depth)
+
         if extent is None:
             xdim = np.max(abs(np.array(self.size)[:, 0]))
             ydim = np.max(abs(np.array(self.size)[:, 1]))
@@ -1461,6 +1465,9 @@ class rcwa_structure:
             if layer_index > 0:
                 depth = np.cumsum([0] + self.widths[1:-1] + [0])[layer_index - 1] + depth
 
+            else:
+                depth = -abs(depth)
+
             E, H = S.GetFieldsOnGrid(z=depth, NumSamples=(n_points, n_points), Format="Array")
 
         else:
-- 
2.43.0


From cedab47d215232af183fc3685a42dfccb6ddd3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 55/57] fix: x and y were swapped in fields from Inkstone

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index b9487e4..2239c1a 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1411,13 +1411,14 @@ class rcwa_structure:
                 H[ind_0[x_i], ind_1[y_i]] = calc[1]
 
         else:
+            # Inkstone's arrays have the axes (y, x, z)
             calc = S.GetLayerFields(x=xs, y=ys, z=depth, layer=str("layer_" + str(layer_index + 1)))
-            E[:, :, 0] = calc[0][:, :, 0]
-            E[:, :, 1] = calc[1][:, :, 0]
-            E[:, :, 2] = calc[2][:, :, 0]
-            H[:, :, 0] = calc[3][:, :, 0]
-            H[:, :, 1] = calc[4][:, :, 0]
-            H[:, :, 2] = calc[5][:, :, 0]
+            E[:, :, 0] = calc[0][:, :, 0].T
+            E[:, :, 1] = calc[1][:, :, 0].T
+            E[:, :, 2] = calc[2][:, :, 0].T
+            H[:, :, 0] = calc[3][:, :, 0].T
+            H[:, :, 1] = calc[4][:, :, 0].T
+            H[:, :, 2] = calc[5][:, :, 0].T
 
         E_mag = np.real(np.sqrt(np.sum(np.abs(E) ** 2, 2)))
         H_mag = np.real(np.sqrt(np.sum(np.abs(H) ** 2, 2)))
-- 
2.43.0


From 4f299e3dbd870f41b7dfff0e6326f07ef9c0518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 56/57] fix: plotted permittivity of Inkstone layers had x and
 y swapped

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 2239c1a..6af6c72 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1325,13 +1325,13 @@ class rcwa_structure:
 
         if plot:
             fig, axs = plt.subplots(1, 2, figsize=(7, 2.6))
-            im1 = axs[0].pcolormesh(xs, ys, a_r.T, cmap="magma")
+            im1 = axs[0].pcolormesh(xs, ys, a_r.T if np.ndim(xs) == 1 else a_r, cmap="magma")
             fig.colorbar(im1, ax=axs[0])
             axs[0].set_xlabel("x (nm)")
             axs[0].set_ylabel("y (nm)")
             axs[0].set_aspect(aspect=1)
 
-            im2 = axs[1].pcolormesh(xs, ys, a_i.T, cmap="magma")
+            im2 = axs[1].pcolormesh(xs, ys, a_i.T if np.ndim(xs) == 1 else a_i, cmap="magma")
             fig.colorbar(im2, ax=axs[1])
             axs[1].set_xlabel("x (nm)")
             axs[1].set_ylabel("y (nm)")
-- 
2.43.0


From c82661f645c5cf2107c7f7abe1ce2244918d76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:22 +0000
Subject: [PATCH 57/57] fix: RCWA matrices for a single incidence angle are put
 in the column of that angle, for both sides

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 62 +++++++++----------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 6af6c72..2476036 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -375,9 +375,9 @@ def RCWA_wl_inkstone(
     fg_2x = f_mat[1][0]
     fg_2y = f_mat[1][1]
 
-    R = np.zeros((len(theta)))
-    T = np.zeros((len(theta)))
-    A_layer = np.zeros((len(theta), len(widths) - 2))
+    R = np.zeros(int(len(angle_vector_0) / 2))
+    T = np.zeros(int(len(angle_vector_0) / 2))
+    A_layer = np.zeros((int(len(angle_vector_0) / 2), len(widths) - 2))
 
     if dist is not None:
         mat_prof = np.zeros((len(dist), int(len(angle_vector_0) / 2)))
@@ -386,20 +386,7 @@ def RCWA_wl_inkstone(
     mat_RT = np.zeros((len(angle_vector_0), int(len(angle_vector_0) / 2)))
     mat_int = np.zeros((len(angle_vector_0), int(len(angle_vector_0) / 2)))
 
-    if side == 1:
-        in_bin = np.arange(len(theta))
-
-    else:
-        binned_theta_in = np.digitize(np.pi - np.pi * theta / 180, theta_intv, right=True) - 1
-        phi_in = xr.DataArray(
-            np.pi * phi / 180,
-            coords={"theta_bin": (["angle_in"], binned_theta_in)},
-            dims=["angle_in"],
-        )
-
-        in_bin = phi_in.groupby("theta_bin").map(
-            overall_bin, args=(phi_intv, angle_vector_0)
-        ).data - int(len(angle_vector_0) / 2)
+    in_bin = incidence_bins(theta, phi, side, phi_sym, theta_intv, phi_intv, angle_vector_0)
 
     logger.info(f"RCWA calculation for wavelength = {wl} nm")
 
@@ -560,9 +547,9 @@ def RCWA_wl(
     fg_2x = f_mat[1][0]
     fg_2y = f_mat[1][1]
 
-    R = np.zeros((len(theta)))
-    T = np.zeros((len(theta)))
-    A_layer = np.zeros((len(theta), len(widths) - 2))
+    R = np.zeros(int(len(angle_vector_0) / 2))
+    T = np.zeros(int(len(angle_vector_0) / 2))
+    A_layer = np.zeros((int(len(angle_vector_0) / 2), len(widths) - 2))
 
     if dist is not None:
         mat_prof = np.zeros((len(dist), int(len(angle_vector_0) / 2)))
@@ -571,20 +558,7 @@ def RCWA_wl(
     mat_RT = np.zeros((len(angle_vector_0), int(len(angle_vector_0) / 2)))
     mat_int = np.zeros((len(angle_vector_0), int(len(angle_vector_0) / 2)))
 
-    if side == 1:
-        in_bin = np.arange(len(theta))
-
-    else:
-        binned_theta_in = np.digitize(np.pi - np.pi * theta / 180, theta_intv, right=True) - 1
-        phi_in = xr.DataArray(
-            np.pi * phi / 180,
-            coords={"theta_bin": (["angle_in"], binned_theta_in)},
-            dims=["angle_in"],
-        )
-
-        in_bin = phi_in.groupby("theta_bin").map(
-            overall_bin, args=(phi_intv, angle_vector_0)
-        ).data - int(len(angle_vector_0) / 2)
+    in_bin = incidence_bins(theta, phi, side, phi_sym, theta_intv, phi_intv, angle_vector_0)
 
     logger.info(f"RCWA calculation for wavelength = {wl} nm")
 
@@ -709,6 +683,26 @@ def RCWA_wl(
         return R, T, A_layer.T, mat_RT, mat_int  # , mat_T
 
 
+def incidence_bins(theta, phi, side, phi_sym, theta_intv, phi_intv, angle_vector_0):
+    """Columns of the redistribution matrix for light which is incident at each theta and phi (in degrees)"""
+    theta_in = np.pi * theta / 180
+
+    if side == -1:
+        theta_in = np.pi - theta_in
+
+    # theta = 0 is part of the first bin
+    binned_theta_in = np.maximum(np.digitize(theta_in, theta_intv, right=True) - 1, 0)
+    phi_in = xr.DataArray(
+        fold_phi(np.pi * phi / 180, phi_sym),
+        coords={"theta_bin": (["angle_in"], binned_theta_in)},
+        dims=["angle_in"],
+    )
+
+    in_bin = phi_in.groupby("theta_bin").map(overall_bin, args=(phi_intv, angle_vector_0)).data
+
+    return in_bin if side == 1 else in_bin - int(len(angle_vector_0) / 2)
+
+
 def fold_phi(phis, phi_sym):
     return (abs(phis // np.pi) * 2 * np.pi + phis) % phi_sym
 
-- 
2.43.0

