From d6fab8c29c341b12e6c2f5c5d29cb8c7b30405dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:04 +0000
Subject: [PATCH 01/51] fix: follow rays leaving a texture at shallow angles
 through all unit cells they cross

A ray travelling away from the surface but still within its height range was only checked
against one adjacent unit cell, so it could pass straight through the texture in the next one.
---
 rayflare/ray_tracing/rt.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index b78cbd1..fc64ed2 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -2005,20 +2005,28 @@ def single_interface_check(
 
         elif result is False and checked_translation:
 
-            if (side == 1 and d[2] < 0 and r_a[2] > tri.z_min) or (
-                side == -1 and d[2] > 0 and r_a[2] < tri.z_max
+            if r_a[0] > Lx or r_a[0] < 0:
+                r_a[0] = (
+                    r_a[0] % Lx
+                )  # translate back into until cell before doing any additional translation
+            if r_a[1] > Ly or r_a[1] < 0:
+                r_a[1] = (
+                    r_a[1] % Ly
+                )  # translate back into until cell before doing any additional translation
+            ex, t = exit_side(r_a, d, Lx, Ly)
+            z_exit = r_a[2] + t * d[2]
+
+            # a ray moving away from the surface can also hit it further along (at shallow angles, possibly several
+            # unit cells away), as long as it is still within the height range of the surface in the next unit cell
+            if (
+                d[2] < 0
+                and r_a[2] > tri.z_min
+                and (side == 1 or z_exit > tri.z_min)
+            ) or (
+                d[2] > 0
+                and r_a[2] < tri.z_max
+                and (side == -1 or z_exit < tri.z_max)
             ):
-                # going down but above surface
-
-                if r_a[0] > Lx or r_a[0] < 0:
-                    r_a[0] = (
-                        r_a[0] % Lx
-                    )  # translate back into until cell before doing any additional translation
-                if r_a[1] > Ly or r_a[1] < 0:
-                    r_a[1] = (
-                        r_a[1] % Ly
-                    )  # translate back into until cell before doing any additional translation
-                ex, t = exit_side(r_a, d, Lx, Ly)
 
                 r_a = r_a + t * d + translation[ex]
                 # also change surface here
-- 
2.43.0


From 35c810bb67d2901bfcd1b8859fdae8d9f15abd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:21 +0000
Subject: [PATCH 02/51] fix: keep the reference points of a shifted surface in
 step, so that drawing new heights does not move its base

---
 rayflare/ray_tracing/rt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index fc64ed2..0a88076 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1463,6 +1463,7 @@ class RTSurface:
 
     def shift(self, z_shift):
         self.Points[:, 2] = self.Points[:, 2] - z_shift
+        self.original_Points[:, 2] = self.original_Points[:, 2] - z_shift
         self.P_0s = self.Points[self.simplices[:, 0]]
         self.P_1s = self.Points[self.simplices[:, 1]]
         self.P_2s = self.Points[self.simplices[:, 2]]
-- 
2.43.0


From 06334a7c1c7bd063fcecb60041774ec0a6dfbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:54 +0000
Subject: [PATCH 03/51] fix: do not truncate the depth of surfaces whose points
 have integer coordinates

---
 rayflare/ray_tracing/rt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 0a88076..730ac7f 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1379,6 +1379,9 @@ class RTSurface:
         else:
             self.distribution = None
 
+        # own floating-point copy: integer coordinates would be truncated when the surface is shifted
+        Points = np.array(Points, dtype=float)
+
         tri = Delaunay(Points[:, [0, 1]])
         self.simplices = tri.simplices
         self.Points = Points
-- 
2.43.0


From b2f817887ad64964ed23f63e1d6f44ae74046037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 04/51] fix: depth profiles of interfaces in calculations with
 a single wavelength (interpolation in a one-wavelength table gave NaN)

---
 rayflare/ray_tracing/rt.py | 44 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 730ac7f..a9cf9eb 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -567,6 +567,14 @@ def make_lookuptable_rt_structure(
     return tmm_or_fresnel, savepath, n_layers, prof_layers_list, widths
 
 
+def interp_lookuptable(data, angles, wl):
+    # with a single wavelength in the table there is nothing to interpolate along wl (interp would give NaN)
+    if data.sizes["wl"] == 1:
+        return data.isel(wl=0).interp(angle=angles)
+
+    return data.interp(angle=angles, wl=wl)
+
+
 def calculate_interface_profiles(
     data_prof_layers,
     A_in_prof_layers,
@@ -611,9 +619,11 @@ def calculate_interface_profiles(
 
     if len(front_incidence) > 0:
 
-        A_lookup_front = lookuptable.Alayer.loc[
-            dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        A_lookup_front = interp_lookuptable(
+            lookuptable.Alayer.loc[dict(side=1, pol=pol, layer=prof_layer_list_i)],
+            th_array[front_incidence],
+            wl * 1e9,
+        )
         data_front = data_prof_layers[front_incidence]
 
         ## CHECK! ##
@@ -632,9 +642,11 @@ def calculate_interface_profiles(
         # so the sum of the absorption per layer recorded in A_interfaces is 1 while the sum of the absorption in the
         # lookuptable is 1 - R - T.
 
-        params_front = lookuptable.Aprof.loc[
-            dict(side=1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[front_incidence], wl=wl * 1e9)
+        params_front = interp_lookuptable(
+            lookuptable.Aprof.loc[dict(side=1, pol=pol, layer=prof_layer_list_i)],
+            th_array[front_incidence],
+            wl * 1e9,
+        )
 
         s_params = params_front.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -660,9 +672,11 @@ def calculate_interface_profiles(
 
     if len(rear_incidence) > 0:
 
-        A_lookup_back = lookuptable.Alayer.loc[
-            dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        A_lookup_back = interp_lookuptable(
+            lookuptable.Alayer.loc[dict(side=-1, pol=pol, layer=prof_layer_list_i)],
+            th_array[rear_incidence],
+            wl * 1e9,
+        )
 
         data_back = data_prof_layers[rear_incidence]
 
@@ -672,9 +686,11 @@ def calculate_interface_profiles(
             np.divide(data_back, non_zero).mean(dim="layer", skipna=True).data
         )  # can get slight differences in values between layers
 
-        params_back = lookuptable.Aprof.loc[
-            dict(side=-1, pol=pol, layer=prof_layer_list_i)
-        ].interp(angle=th_array[rear_incidence], wl=wl * 1e9)
+        params_back = interp_lookuptable(
+            lookuptable.Aprof.loc[dict(side=-1, pol=pol, layer=prof_layer_list_i)],
+            th_array[rear_incidence],
+            wl * 1e9,
+        )
 
         s_params = params_back.loc[
             dict(coeff=["A1", "A2", "A3_r", "A3_i"])
@@ -1306,8 +1322,8 @@ def make_profiles_wl(
 
     # lookuptable layers are 1-indexed
 
-    data = lookuptable.loc[dict(side=1, pol=pol)].interp(
-        angle=pr.coords["local_theta"], wl=wl * 1e9
+    data = interp_lookuptable(
+        lookuptable.loc[dict(side=1, pol=pol)], pr.coords["local_theta"], wl * 1e9
     )
 
     params = (
-- 
2.43.0


From 9556de86b63944f4758c455d9ec1bd2da4abe317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 05/51] fix: orient interface absorption profiles by the side
 of the surface the absorbed ray was on

---
 rayflare/ray_tracing/rt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index a9cf9eb..ebf5ae2 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1714,7 +1714,7 @@ def single_ray_stack(
         # array describing absorption per layer if absorption happens
         # th_local is local angle w.r.t surface normal at that point on surface
 
-        res, theta, phi, r_a, d, th_local, n_interactions, _ = single_surface[periodic](
+        res, theta, phi, r_a, d, th_local, n_interactions, side = single_surface[periodic](
             r_a,
             d,
             ni,
@@ -1792,7 +1792,7 @@ def single_ray_stack(
         A_interface_array,
         A_interface_index,
         th_local,
-        direction,
+        side,  # side of the surface the last interaction was on (not the same as direction for a textured surface)
     )
 
 
-- 
2.43.0


From d9f5d6468a83e70bdb912714a413654ee904485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 06/51] fix: directions with an azimuth of exactly 0 belong to
 the first azimuthal bin

---
 rayflare/angles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/angles.py b/rayflare/angles.py
index b69d35d..15986a6 100644
--- a/rayflare/angles.py
+++ b/rayflare/angles.py
@@ -196,5 +196,6 @@ def theta_summary_A(A_mat, angle_vector):
 
 def overall_bin(x, phi_intv, angle_vector_0):
     phi_ind = np.digitize(x, phi_intv[x.coords["theta_bin"].data[0]], right=True) - 1
+    phi_ind = np.maximum(phi_ind, 0)  # phi = 0 is in the first bin
     ov_bin = np.argmin(abs(angle_vector_0 - x.coords["theta_bin"].data[0])) + phi_ind
     return ov_bin
-- 
2.43.0


From 0b00af8287ce32f977a7fefe22c1ba82da6cf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 07/51] fix: put the incident power in the bin that contains
 its direction, also on bin edges and outside [0, phi_symmetry)

---
 rayflare/matrix_formalism/multiply_matrices.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 8390f2b..ab65590 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -99,15 +99,16 @@ def make_v0(
     )
     n_a_in = int(len(angle_vector) / 2)
     v0 = np.zeros((num_wl, n_a_in))
-    th_bin = np.digitize(th_in, theta_intv) - 1
+    # same convention for directions on the edge of a bin as for the redistribution matrices
+    th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
     phi_intv = phi_intv[th_bin]
     ov_bin = np.argmin(abs(angle_vector[:, 0] - th_bin))
     if phi_in == "all":
         n_phis = len(phi_intv) - 1
         v0[:, ov_bin : (ov_bin + n_phis)] = 1 / n_phis
     else:
-        phi_ind = np.digitize(phi_in, phi_intv) - 1
-        ov_bin = ov_bin + phi_ind
+        phi_ind = np.digitize(fold_phi(phi_in, phi_sym), phi_intv, right=True) - 1
+        ov_bin = ov_bin + max(phi_ind, 0)
         v0[:, ov_bin] = 1
     return v0
 
-- 
2.43.0


From 243ca5a698b29ad616f185897318caf7dff164c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 08/51] fix: one-to-one map between outgoing and incoming bins
 for odd numbers of azimuthal bins

---
 rayflare/matrix_formalism/multiply_matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index ab65590..5cf0553 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -122,7 +122,8 @@ def out_to_in_matrix(phi_sym, angle_vector, theta_intv, phi_intv):
         np.digitize(np.pi - angle_vector[:, 1], theta_intv, right=True) - 1
     )
 
-    phi_rebin = fold_phi(angle_vector[:, 2] + np.pi, phi_sym)
+    # small offset: rounding should not decide which bin is used if phi + pi is on the edge of a bin
+    phi_rebin = fold_phi(angle_vector[:, 2] + np.pi + 1e-6, phi_sym)
 
     phi_out = xr.DataArray(
         phi_rebin,
-- 
2.43.0


From 8259640b8c7ca9562d0c61f5f6bf9c953b5987b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 09/51] fix: absorption per layer of unpolarised incoherent
 stacks without absorption (uninitialised values)

---
 rayflare/transfer_matrix_method/tmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index c0e8e23..05a2780 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -711,6 +711,7 @@ class tmm_structure:
                     A_per_layer * output["A"],
                     np.sum(A_per_layer, axis=0),
                     where=np.sum(A_per_layer, axis=0) != 0,
+                    out=np.zeros_like(A_per_layer),
                 )
 
         output["A_per_layer"] = output["A_per_layer"].T
-- 
2.43.0


From 036a192c2cc173fc6ae5f9489a624c5b081e0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:43 +0000
Subject: [PATCH 10/51] fix: absorption profile coefficients of incoherent
 layers integrate to the absorption, and p-polarised coherent layers are not
 replaced by s

---
 rayflare/transfer_matrix_method/tmm.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 05a2780..c5818e5 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -417,6 +417,17 @@ class tmm_structure:
         :return: A dictionary with the R, A and T at the specified wavelengths and angle.
         """
 
+        def beer_lambert_coeff(alpha, l):
+            # prefactor of the exponential (Beer-Lambert) absorption profile in an incoherent layer, such that
+            # the profile integrates to the absorption in the layer
+            absorbed = 1 - np.exp(-alpha * layer_stack.get_widths()[l])
+            return np.divide(
+                alpha * output["A_per_layer"][:, l - 1],
+                absorbed,
+                where=absorbed > 0,
+                out=np.zeros_like(alpha),
+            )
+
         def calculate_profile(layers, dist=None):
             # layer indices: 0 is incidence, n is transmission medium
 
@@ -461,7 +472,6 @@ class tmm_structure:
                     output["profile"] = data["absor"]
 
                 else:
-                    fraction_reaching = 1 - np.cumsum(A_per_layer, axis=0)
                     fn = tmm.absorp_analytic_fn()
                     fn.a1, fn.a3, fn.A1, fn.A2, fn.A3 = (
                         np.empty((0, num_wl)),
@@ -504,7 +514,7 @@ class tmm_structure:
                                 / wavelength
                             )
                             fn.a1 = np.vstack((fn.a1, alpha))
-                            fn.A2 = np.vstack((fn.A2, alpha * fraction_reaching[l - 1]))
+                            fn.A2 = np.vstack((fn.A2, beer_lambert_coeff(alpha, l)))
                             fn.a3 = np.vstack((fn.a3, np.zeros((1, num_wl))))
                             fn.A1 = np.vstack((fn.A1, np.zeros((1, num_wl))))
                             fn.A3 = np.vstack((fn.A3, np.zeros((1, num_wl))))
@@ -524,11 +534,6 @@ class tmm_structure:
                     output["profile"] = 0.5 * (data_s["absor"] + data_p["absor"])
 
                 else:
-                    fraction_reaching_s = 1 - np.cumsum(A_per_layer_s, axis=0)
-                    fraction_reaching_p = 1 - np.cumsum(A_per_layer_s, axis=0)
-                    fraction_reaching = 0.5 * (
-                        fraction_reaching_s + fraction_reaching_p
-                    )
                     fn = tmm.absorp_analytic_fn()
                     fn.a1, fn.a3, fn.A1, fn.A2, fn.A3 = (
                         np.empty((0, num_wl)),
@@ -567,7 +572,7 @@ class tmm_structure:
                     for l in layers:
                         if coherency_list[l] == "c":
                             fn_s = tmm.inc_find_absorp_analytic_fn(l, out_s)
-                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_s)
+                            fn_p = tmm.inc_find_absorp_analytic_fn(l, out_p)
                             fn_l = fn_s.add(fn_p).scale(0.5)
                             fn.a1 = np.vstack((fn.a1, fn_l.a1))
                             fn.a3 = np.vstack((fn.a3, fn_l.a3))
@@ -583,7 +588,7 @@ class tmm_structure:
                                 / wavelength
                             )
                             fn.a1 = np.vstack((fn.a1, alpha))
-                            fn.A2 = np.vstack((fn.A2, alpha * fraction_reaching[l - 1]))
+                            fn.A2 = np.vstack((fn.A2, beer_lambert_coeff(alpha, l)))
                             fn.a3 = np.vstack((fn.a3, np.zeros((1, num_wl))))
                             fn.A1 = np.vstack((fn.A1, np.zeros((1, num_wl))))
                             fn.A3 = np.vstack((fn.A3, np.zeros((1, num_wl))))
-- 
2.43.0


From 994289bbc758e4bdab5b7e780dd910d36b1c68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 11/51] fix: lookup tables for a single side of incidence, or
 with the sides in another order

---
 rayflare/transfer_matrix_method/lookup_table.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index bd629b0..b2d3a81 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -86,7 +86,7 @@ def make_TMM_lookuptable(
         pols = ["s", "p"]
 
         R = xr.DataArray(
-            np.empty((2, 2, len(wavelengths), n_angles)),
+            np.empty((len(sides), 2, len(wavelengths), n_angles)),
             dims=["side", "pol", "wl", "angle"],
             coords={
                 "side": sides,
@@ -97,7 +97,7 @@ def make_TMM_lookuptable(
             name="R",
         )
         T = xr.DataArray(
-            np.empty((2, 2, len(wavelengths), n_angles)),
+            np.empty((len(sides), 2, len(wavelengths), n_angles)),
             dims=["side", "pol", "wl", "angle"],
             coords={
                 "side": sides,
@@ -108,7 +108,7 @@ def make_TMM_lookuptable(
             name="T",
         )
         Alayer = xr.DataArray(
-            np.empty((2, 2, n_angles, len(wavelengths), n_layers)),
+            np.empty((len(sides), 2, n_angles, len(wavelengths), n_layers)),
             dims=["side", "pol", "angle", "wl", "layer"],
             coords={
                 "side": sides,
@@ -122,7 +122,7 @@ def make_TMM_lookuptable(
 
         if profile:
             Aprof = xr.DataArray(
-                np.empty((2, 2, n_angles, 6, len(prof_layers), len(wavelengths))),
+                np.empty((len(sides), 2, n_angles, 6, len(prof_layers), len(wavelengths))),
                 dims=["side", "pol", "angle", "coeff", "layer", "wl"],
                 coords={
                     "side": sides,
@@ -143,7 +143,9 @@ def make_TMM_lookuptable(
         # doesn't matter, but it needs to be set to something. Larger value means we don't make extremely large arrays
         # no reason during the calculation
 
-        for i1, side in enumerate(sides):
+        for side in sides:
+            # which way up the stack is: the order of the sides is up to the user
+            i1 = 0 if side == 1 else 1
             prof_layer_side = prof_layer_list[i1]
             R_loop = np.empty((len(wavelengths), n_angles))
             T_loop = np.empty((len(wavelengths), n_angles))
-- 
2.43.0


From fbcacf2cc7d761909f40fe53544ffa6f2cf869f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 12/51] fix: distribution of power over the polar angle bins
 for Lambertian reflection (cosine law per solid angle)

---
 rayflare/matrix_formalism/ideal_cases.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index ae9f963..9c0bc43 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -43,9 +43,10 @@ def lambertian_matrix(
 
     else:
         theta_values = np.unique(angle_vector[angle_vector[:, 1] < np.pi / 2, 1])
-        dtheta = np.diff(theta_intv[theta_intv <= np.pi / 2])
+        theta_edges = theta_intv[: len(theta_values) + 1]
 
-        dP = np.cos(theta_values) * dtheta
+        # cosine law: power into a polar bin is the integral of cos(theta)*sin(theta)
+        dP = np.diff(np.sin(theta_edges) ** 2)
 
         # matrix has indexing (out, in): row picks out 'out' entry, column picks out which v0 element
 
-- 
2.43.0


From 0c64fc270a8380441e4ce89dc21b88385311e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 13/51] fix: Lambertian reflection of light incident from the
 rear goes back into the rear hemisphere

---
 rayflare/matrix_formalism/ideal_cases.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index 9c0bc43..5bd30f3 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -70,7 +70,12 @@ def lambertian_matrix(
 
         whole_matrix_T = np.zeros_like(whole_matrix_R)
 
-        whole_matrix = np.vstack([whole_matrix_R, whole_matrix_T])
+        if front_or_rear == "front":
+            whole_matrix = np.vstack([whole_matrix_R, whole_matrix_T])
+
+        else:
+            # light comes from, and is reflected into, the lower hemisphere (where the order of the theta bins is reversed)
+            whole_matrix = np.vstack([whole_matrix_T, whole_matrix_R[::-1]])
 
         A_matrix = np.zeros((1, int(len(angle_vector) / 2)))
 
-- 
2.43.0


From 46cd967603d8225a2b53d301c0a4fc64bcb09d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 14/51] fix: mirror reflection to an azimuth of exactly 0 goes
 into the first azimuthal bin

---
 rayflare/matrix_formalism/ideal_cases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index 5bd30f3..8d9c252 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -137,6 +137,8 @@ def mirror_matrix(
 
             phis_out = fold_phi(angle_vector_phi + np.pi, options["phi_symmetry"])
 
+        phis_out[phis_out == 0] = 1e-10
+
         # matrix will be all zeros with just one '1' in each column/row. Just need to determine where it goes
 
         binned_theta = np.digitize(angle_vector_th, theta_intv, right=True) - 1
-- 
2.43.0


From 08c13a5c389c3809bccb9f635abfeb2bf0c5d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 15/51] fix: reverse the coherency list together with the
 layers for rear incidence on planar surfaces

---
 rayflare/transfer_matrix_method/tmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index c5818e5..93bc208 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -199,6 +199,9 @@ def TMM(
             trns = incidence
             inc = transmission
 
+            if coherency_list is not None:
+                coherency_list = coherency_list[::-1]
+
         if options["pol"] == "u":
             pols = ["s", "p"]
 
-- 
2.43.0


From 86f018c2b48efeea56513899510b60554ff1ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 16/51] fix: columns of ray-traced redistribution matrices
 which received no rays are 0 (were uninitialised memory)

---
 rayflare/ray_tracing/rt.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index ebf5ae2..8eaf5ed 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -413,12 +413,21 @@ def RT_wl(
                 local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
 
     # normalize
-    out_mat = np.divide(out_mat, n_rays_in_bin, where=n_rays_in_bin != 0)
+    # (columns which did not receive any rays are 0)
+    out_mat = np.divide(
+        out_mat, n_rays_in_bin, where=n_rays_in_bin != 0, out=np.zeros_like(out_mat)
+    )
     overall_abs_frac = np.divide(
-        n_rays_in_bin_abs, n_rays_in_bin, where=n_rays_in_bin != 0
+        n_rays_in_bin_abs,
+        n_rays_in_bin,
+        where=n_rays_in_bin != 0,
+        out=np.zeros_like(n_rays_in_bin),
     )
     abs_scale = np.divide(
-        overall_abs_frac, np.sum(A_mat, 0), where=np.sum(A_mat, 0) != 0
+        overall_abs_frac,
+        np.sum(A_mat, 0),
+        where=np.sum(A_mat, 0) != 0,
+        out=np.zeros_like(n_rays_in_bin),
     )
 
     intgr = np.divide(
-- 
2.43.0


From c39c228d0b48dfc29b482e526b5ff791b4d7bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 17/51] fix: ray tracing only the incidence angle for light
 spread over all azimuth angles

---
 rayflare/ray_tracing/rt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 8eaf5ed..ac964e7 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -133,8 +133,12 @@ def RT(
             n_angles = n_reps
 
             if options["phi_in"] == "all":
-                # get relevant phis
-                phis_in = np.tile(options["phi_in"], n_reps)
+                # all the phi bins for the relevant theta bin
+                th_bin = max(np.digitize(th_in, theta_intv, right=True) - 1, 0)
+                phis_bin = angles_in[angles_in[:, 0] == th_bin, 2]
+                phis_in = np.tile(phis_bin, n_reps)
+                thetas_in = np.tile(th_in, len(phis_in))
+                n_angles = len(phis_in)
             else:
                 if options["phi_in"] == 0:
                     phis_in = np.tile(0.0001, n_reps)
-- 
2.43.0


From 4b634a2319aecdd5f835488040a428478e6743de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 18/51] fix: absorption per layer in ray-traced redistribution
 matrices counts every absorbed ray once

---
 rayflare/ray_tracing/rt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index ac964e7..0d82077 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -412,9 +412,11 @@ def RT_wl(
             else:
                 # absorbed in one of the surface layers
                 n_rays_in_bin_abs[bin_in[l1] - offset] += 1
+                # every absorbed ray counts equally, whatever the probability of being absorbed at its local angle was
                 per_layer = A_surface_layers[l1, l2]
-                A_mat[:, bin_in[l1] - offset] += per_layer
-                local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += 1
+                weight = 1 / np.sum(per_layer) if np.sum(per_layer) > 0 else 1
+                A_mat[:, bin_in[l1] - offset] += per_layer * weight
+                local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += weight
 
     # normalize
     # (columns which did not receive any rays are 0)
@@ -434,9 +436,10 @@ def RT_wl(
         out=np.zeros_like(n_rays_in_bin),
     )
 
+    # mean absorption at the local angles of incidence (weighted like the profiles)
     intgr = np.divide(
-        np.sum(A_mat, 0),
         n_rays_in_bin_abs,
+        np.sum(local_angle_mat, 0),
         where=n_rays_in_bin_abs != 0,
         out=np.zeros_like(n_rays_in_bin_abs),
     )
-- 
2.43.0


From 4cdb9230276f67a16f0ca4a3d77f21e7aee6b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 19/51] fix: report transmission, bulk absorption and profiles
 also if no light enters the bulk in the matrix formalism

---
 rayflare/matrix_formalism/multiply_matrices.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 5cf0553..b4d7b1e 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -428,7 +428,8 @@ def matrix_multiplication(
             # rep
             i2 = 1
 
-            while np.any(power > options["I_thresh"]):
+            # at least one pass, so that all results exist even if (almost) nothing is transmitted into the bulk
+            while i2 == 1 or np.any(power > options["I_thresh"]):
                 vf_1[i1] = dot_wl_u2d(down2up, vf_1[i1])  # outgoing to incoming
                 # print("Travelling down int, before", np.sum(vf_1[i1], axis=1))
                 # vb_1: incoming (just absorption through bulk)
@@ -542,7 +543,8 @@ def matrix_multiplication(
             # rep
             i2 = 1
 
-            while np.any(power > options["I_thresh"]):
+            # at least one pass, so that all results exist even if (almost) nothing is transmitted into the bulk
+            while i2 == 1 or np.any(power > options["I_thresh"]):
                 vf_1[i1] = dot_wl_u2d(down2up, vf_1[i1])  # outgoing to incoming
                 vb_1[i1] = dot_wl(D[i1], vf_1[i1])  # pass through bulk, downwards
                 A[i1].append(np.sum(vf_1[i1], 1) - np.sum(vb_1[i1], 1))
-- 
2.43.0


From fd517adadedb9e412ba90e248540b34157415bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 20/51] fix: uninitialised values in the bulk absorption
 profile where nothing is absorbed

---
 rayflare/matrix_formalism/multiply_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index b4d7b1e..9d5661a 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -187,7 +187,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     per_bin = v_1 - v_2  # total absorption per bin
     abscos = np.abs(np.cos(thetas))
     denom = 1 - np.exp(-alphas[:, None] * d / abscos[None, :])
-    norm = np.divide(per_bin, denom, where=denom != 0)
+    norm = np.divide(per_bin, denom, out=np.zeros_like(per_bin), where=denom != 0)
 
     result = np.empty((v_1.shape[0], len(depths)))
 
@@ -202,7 +202,7 @@ def bulk_profile_calc(v_1, v_2, alphas, thetas, d, depths, A):
     # but at short wavelengths this causes an issue where the integrated depth profile
     # is not equal to the total absorption. Scale the profile to fix this and make things
     # consistent.
-    scale = np.divide(A, check, where=check != 0)
+    scale = np.divide(A, check, out=np.zeros_like(check), where=check != 0)
 
     corrected = scale[:, None] * result
 
-- 
2.43.0


From bd31b004e320f3aebca2a9ed198ab73220b3526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 21/51] fix: depth profiles in ray-traced redistribution
 matrices for light absorbed on the other side of a facet

---
 rayflare/ray_tracing/rt.py | 59 ++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 0d82077..66ff4ad 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -301,6 +301,7 @@ def RT_wl(
     phi_out = np.zeros((n_angles, nx * ny))
     A_surface_layers = np.zeros((n_angles, nx * ny, n_abs_layers))
     theta_local_incidence = np.zeros((n_angles, nx * ny))
+    local_side = np.ones((n_angles, nx * ny))
 
     for i2 in range(n_angles):
 
@@ -334,6 +335,7 @@ def RT_wl(
             phi_out[i2, c] = phi_o
             A_surface_layers[i2, c] = surface_A[0]
             theta_local_incidence[i2, c] = np.real(surface_A[1])
+            local_side[i2, c] = surface_A[2]
 
     phi_out = fold_phi(phi_out, phi_sym)
     phis_in = fold_phi(phis_in, phi_sym)
@@ -393,8 +395,9 @@ def RT_wl(
 
     binned_local_angles = np.digitize(theta_local_incidence, theta_intv, right=True) - 1
 
+    # first index: side of the facet on which the light was absorbed (0 = side of incidence, 1 = other side)
     local_angle_mat = np.zeros(
-        (int((len(theta_intv) - 1) / 2), int(len(angle_vector) / 2))
+        (2, int((len(theta_intv) - 1) / 2), int(len(angle_vector) / 2))
     )
 
     if side == 1:
@@ -416,7 +419,11 @@ def RT_wl(
                 per_layer = A_surface_layers[l1, l2]
                 weight = 1 / np.sum(per_layer) if np.sum(per_layer) > 0 else 1
                 A_mat[:, bin_in[l1] - offset] += per_layer * weight
-                local_angle_mat[binned_local_angles[l1, l2], bin_in[l1] - offset] += weight
+                local_angle_mat[
+                    0 if local_side[l1, l2] == 1 else 1,
+                    binned_local_angles[l1, l2],
+                    bin_in[l1] - offset,
+                ] += weight
 
     # normalize
     # (columns which did not receive any rays are 0)
@@ -439,7 +446,7 @@ def RT_wl(
     # mean absorption at the local angles of incidence (weighted like the profiles)
     intgr = np.divide(
         n_rays_in_bin_abs,
-        np.sum(local_angle_mat, 0),
+        np.sum(local_angle_mat, (0, 1)),
         where=n_rays_in_bin_abs != 0,
         out=np.zeros_like(n_rays_in_bin_abs),
     )
@@ -453,8 +460,8 @@ def RT_wl(
     if Fr_or_TMM > 0:
         local_angle_mat = np.divide(
             local_angle_mat,
-            np.sum(local_angle_mat, 0),
-            where=np.sum(local_angle_mat, 0) != 0,
+            np.sum(local_angle_mat, (0, 1)),
+            where=np.sum(local_angle_mat, (0, 1)) != 0,
             out=np.zeros_like(local_angle_mat),
         )
         local_angle_mat[np.isnan(local_angle_mat)] = 0
@@ -465,18 +472,24 @@ def RT_wl(
             thetas = angle_vector[:n_a_in, 1]
             unique_thetas = np.unique(thetas)
 
-            profile = make_profiles_wl(
-                unique_thetas,
-                n_a_in,
-                side,
-                widths,
-                local_angle_mat,
-                wl,
-                lookuptable,
-                pol,
-                depth_spacing,
-                calc_profile,
-            )
+            profile = 0
+
+            for i_side, local_angles in enumerate(local_angle_mat):
+                # for textured surfaces, rays can also be absorbed after hitting a facet from the other side
+                if i_side == 0 or local_angles.nnz > 0:
+                    profile = profile + make_profiles_wl(
+                        unique_thetas,
+                        n_a_in,
+                        side,
+                        widths,
+                        local_angles,
+                        wl,
+                        lookuptable,
+                        pol,
+                        depth_spacing,
+                        calc_profile,
+                        [1, -1][i_side],
+                    )
 
             profile = profile.rename({"dim_0": "z"})
 
@@ -1299,6 +1312,7 @@ def make_profiles_wl(
     pol,
     depth_spacing,
     prof_layers,
+    local_side=1,
 ):
     # widths and depth_spacing are passed in nm!
 
@@ -1339,7 +1353,7 @@ def make_profiles_wl(
     # lookuptable layers are 1-indexed
 
     data = interp_lookuptable(
-        lookuptable.loc[dict(side=1, pol=pol)], pr.coords["local_theta"], wl * 1e9
+        lookuptable.loc[dict(side=local_side, pol=pol)], pr.coords["local_theta"], wl * 1e9
     )
 
     params = (
@@ -1374,7 +1388,7 @@ def make_profiles_wl(
     ans = (
         params.loc[dict(layer=prof_layers)]
         .groupby("global_index")
-        .map(profile_per_angle, z=z_list, offset=offsets, side=side, nz=nz)
+        .map(profile_per_angle, z=z_list, offset=offsets, side=side * local_side, nz=nz)
         .drop_vars("coeff")
     )
     ans = ans.fillna(0)
@@ -1839,7 +1853,7 @@ def single_ray_interface(
             (r_a[1] + d[1] * (surf.zcov - r_a[2]) / d[2]) // surf.Ly
         )
 
-        res, theta, phi, r_a, d, theta_loc, _, _ = single_interface_check(
+        res, theta, phi, r_a, d, theta_loc, _, side = single_interface_check(
             r_a,
             d,
             nks[mat_index],
@@ -1862,18 +1876,19 @@ def single_ray_interface(
             # staying in the same material, so mat_index does not change, but surf_index does
             surf_index = surf_index + direction
 
-            surface_A = [0, 10]
+            surface_A = [0, 10, 1]
 
         if res == 1:  # transmission
             surf_index = surf_index + direction
             mat_index = mat_index + direction  # is this right?
 
-            surface_A = [0, 10]
+            surface_A = [0, 10, 1]
 
         if res == 2:
             surface_A = [
                 theta,
                 theta_loc,
+                side,
             ]  # passed a list of absorption per layer in theta
             stop = True
             theta = 10  # theta returned by single_interface_check is actually list of absorption per layer
-- 
2.43.0


From d97c75d0bed7aebf853ef654cc7ce1c579c98553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 22/51] fix: interrupted or repeated calculations leave stored
 redistribution matrices which do not belong together

---
 rayflare/matrix_formalism/ideal_cases.py      | 10 +++---
 rayflare/ray_tracing/rt.py                    | 13 ++++----
 .../rigorous_coupled_wave_analysis/rcwa.py    | 13 ++++----
 rayflare/transfer_matrix_method/tmm.py        | 13 ++++----
 rayflare/utilities.py                         | 31 ++++++++++++++++++-
 5 files changed, 52 insertions(+), 28 deletions(-)

diff --git a/rayflare/matrix_formalism/ideal_cases.py b/rayflare/matrix_formalism/ideal_cases.py
index 8d9c252..33e5410 100644
--- a/rayflare/matrix_formalism/ideal_cases.py
+++ b/rayflare/matrix_formalism/ideal_cases.py
@@ -6,9 +6,9 @@
 # Contact: p.pearce@unsw.edu.au
 
 import numpy as np
-from sparse import COO, save_npz
+from sparse import COO
 from rayflare.angles import fold_phi
-from rayflare.utilities import get_matrices_or_paths
+from rayflare.utilities import get_matrices_or_paths, save_matrices
 
 
 def lambertian_matrix(
@@ -83,8 +83,7 @@ def lambertian_matrix(
         absArray = COO.from_numpy(A_matrix)
 
         if save:
-            save_npz(path_or_mats[0], allArray)
-            save_npz(path_or_mats[1], absArray)
+            save_matrices(path_or_mats, allArray, absArray)
 
         return allArray, absArray
 
@@ -164,7 +163,6 @@ def mirror_matrix(
         absArray = COO.from_numpy(A_matrix)
 
         if save:
-            save_npz(path_or_mats[0], allArray)
-            save_npz(path_or_mats[1], absArray)
+            save_matrices(path_or_mats, allArray, absArray)
 
         return allArray, absArray
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 66ff4ad..762b1d2 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -13,14 +13,14 @@ from math import atan2
 from random import random
 from itertools import product
 import xarray as xr
-from sparse import COO, save_npz, stack
+from sparse import COO, stack
 from joblib import Parallel, delayed
 from copy import deepcopy
 from warnings import warn
 from solcore.state import State
 
 from rayflare.angles import fold_phi, make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_savepath, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, save_matrices, get_savepath, get_wavelength
 from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
 
 from rayflare import logger
@@ -245,10 +245,6 @@ def RT(
         allArrays = stack([item[0] for item in allres])
         absArrays = stack([item[1] for item in allres])
 
-        if save:
-            save_npz(path_or_mats[0], allArrays)
-            save_npz(path_or_mats[1], absArrays)
-
         if Fr_or_TMM > 0 and calc_profile is not None:
             profile = xr.concat([item[3] for item in allres], "wl")
             intgr = xr.concat([item[4] for item in allres], "wl")
@@ -261,11 +257,14 @@ def RT(
             allres = xr.merge([intgr, profile])
 
             if save:
-                allres.to_netcdf(path_or_mats[2])
+                save_matrices(path_or_mats, allArrays, absArrays, allres)
 
             return allArrays, absArrays, allres
 
         else:
+            if save:
+                save_matrices(path_or_mats, allArrays, absArrays)
+
             return allArrays, absArrays
 
 
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 1e6b101..2a7e7a5 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -15,11 +15,11 @@ from solcore.state import State
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, overall_bin
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, save_matrices, get_wavelength
 
 from inkstone import Inkstone
 
-from sparse import COO, save_npz, stack
+from sparse import COO, stack
 
 from rayflare import logger
 
@@ -272,10 +272,6 @@ def RCWA(
 
         A_mat = COO.from_numpy(A_mat)
 
-        if save:
-            save_npz(path_or_mats[0], full_mat)
-            save_npz(path_or_mats[1], A_mat)
-
         if prof_layers is not None:
             prof_mat = np.stack([item[5] for item in allres])
             intgr_mat = np.stack([item[6] for item in allres])
@@ -305,12 +301,15 @@ def RCWA(
             prof_dataset = xr.merge([intgr, profile])
 
             if save:
-                prof_dataset.to_netcdf(path_or_mats[2])
+                save_matrices(path_or_mats, full_mat, A_mat, prof_dataset)
 
         if prof_layers is not None:
             return full_mat, A_mat, prof_dataset
 
         else:
+            if save:
+                save_matrices(path_or_mats, full_mat, A_mat)
+
             return full_mat, A_mat
 
 
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 93bc208..5da076c 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -7,13 +7,13 @@
 
 import numpy as np
 import xarray as xr
-from sparse import COO, save_npz, stack
+from sparse import COO, stack
 
 from solcore.absorption_calculator import tmm_core_vec as tmm
 from solcore.absorption_calculator import OptiStack
 
 from rayflare.angles import make_angle_vector, fold_phi
-from rayflare.utilities import get_matrices_or_paths, get_wavelength
+from rayflare.utilities import get_matrices_or_paths, save_matrices, get_wavelength
 
 
 def TMM(
@@ -344,10 +344,6 @@ def TMM(
         fullmat = stack([item[0] for item in mats])
         A_mat = stack([item[1] for item in mats])
 
-        if save:
-            save_npz(path_or_mats[0], fullmat)
-            save_npz(path_or_mats[1], A_mat)
-
         if profile:
             prof_mat = [make_prof_matrix_wl(wl) for wl in wavelengths]
 
@@ -365,10 +361,13 @@ def TMM(
             allres = xr.merge([intgr, profile])
 
             if save:
-                allres.to_netcdf(path_or_mats[2])
+                save_matrices(path_or_mats, fullmat, A_mat, allres)
 
             return fullmat, A_mat, allres
 
+        if save:
+            save_matrices(path_or_mats, fullmat, A_mat)
+
         return fullmat, A_mat
 
 
diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index c7c2733..98a04c1 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -8,7 +8,7 @@
 import numpy as np
 from solcore.interpolate import interp1d
 import os
-from sparse import load_npz
+from sparse import load_npz, save_npz
 import xarray as xr
 
 from rayflare import logger
@@ -303,6 +303,35 @@ def get_matrices_or_paths(
             return [False, [savepath_RT, savepath_A]]
 
 
+def save_matrices(paths, RT_mat, A_mat, prof_dataset=None):
+    """
+    Stores a set of redistribution matrices. Anything which was stored before is invalidated first, and the matrix which
+    is needed to accept the stored results (see get_matrices_or_paths) is put in place last, in a single step: if this is
+    interrupted, or if profiles were stored for previous results but not for the new ones, a later calculation will not
+    use an incomplete or mixed set of files.
+
+    :param paths: paths from get_matrices_or_paths
+    :param RT_mat: R/T redistribution matrix
+    :param A_mat: absorption matrix
+    :param prof_dataset: dataset with the absorption profiles (optional)
+    """
+    savepath_RT, savepath_A = paths[:2]
+    prof_mat_path = savepath_RT[: -len("RT.npz")] + "profmat.nc"
+
+    for path in (savepath_A, prof_mat_path):
+        if os.path.isfile(path):
+            os.remove(path)
+
+    save_npz(savepath_RT, RT_mat)
+
+    if prof_dataset is not None:
+        prof_dataset.to_netcdf(prof_mat_path)
+
+    temp_path = savepath_A[: -len(".npz")] + "_temp.npz"
+    save_npz(temp_path, A_mat)
+    os.replace(temp_path, savepath_A)
+
+
 def get_savepath(save_location, project_name):
     """
     Returns the full path where matrices will be stored.
-- 
2.43.0


From 7af710f9f527a1cc1063cc84781810998c95e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 23/51] fix: interrupted calculation of a lookup table leaves
 an unreadable file

---
 rayflare/transfer_matrix_method/lookup_table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index b2d3a81..dbe40d3 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -205,6 +205,9 @@ def make_TMM_lookuptable(
         unpol = allres.reduce(np.mean, "pol").assign_coords(pol="u").expand_dims("pol")
         allres = allres.merge(unpol)
 
-        allres.to_netcdf(savepath)
+        # put the complete file in place in a single step: an interrupted calculation does not leave an unreadable table,
+        # and a previous version which is still open is not modified
+        allres.to_netcdf(savepath + ".temp")
+        os.replace(savepath + ".temp", savepath)
 
     return allres
-- 
2.43.0


From 9b5caaac218b3aa627d02f0215a8132f3e2e7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 24/51] fix: use of a stored lookup table without the
 absorption profile information that is asked for

---
 rayflare/transfer_matrix_method/lookup_table.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rayflare/transfer_matrix_method/lookup_table.py b/rayflare/transfer_matrix_method/lookup_table.py
index dbe40d3..ad9efa7 100644
--- a/rayflare/transfer_matrix_method/lookup_table.py
+++ b/rayflare/transfer_matrix_method/lookup_table.py
@@ -55,10 +55,22 @@ def make_TMM_lookuptable(
         sides = [1, -1]
 
     savepath = os.path.join(structpath, surf_name + ".nc")
+    allres = None
+
     if os.path.isfile(savepath) and not overwrite:
         logging.info("Existing lookup table found")
         allres = xr.open_dataset(savepath)
-    else:
+
+        if prof_layers is not None and not (
+            "Aprof" in allres
+            and np.all(np.isin(prof_layers, allres["layer"].data))
+            and not allres["Aprof"].sel(layer=prof_layers).isnull().any()
+        ):
+            logging.info("Recalculating with absorption profile information")
+            allres.close()
+            allres = None
+
+    if allres is None:
         get_wavelength(options)
         wavelengths = options["wavelength"]
         n_angles = options["lookuptable_angles"]
-- 
2.43.0


From 38c666078f4fe972579f3c7cc1fbefaede5567c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 25/51] fix: rear-incidence surfaces without the height
 distribution, layers, name and coverage height given for the texture

---
 rayflare/textures/define_textures.py      |  6 +++++-
 rayflare/textures/standard_rt_textures.py | 23 +++--------------------
 2 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/rayflare/textures/define_textures.py b/rayflare/textures/define_textures.py
index 210473a..a83b6df 100644
--- a/rayflare/textures/define_textures.py
+++ b/rayflare/textures/define_textures.py
@@ -21,7 +21,11 @@ def xyz_texture(x, y, z, **kwargs):
     Points = np.vstack([x, y, z]).T
     surf_fi = RTSurface(Points, **kwargs)
 
-    Points_ri = np.vstack([x, y, -z]).T
+    # rear incidence: mirror image, with the same properties
+    if kwargs.get("coverage_height") is not None:
+        kwargs = {**kwargs, "coverage_height": -kwargs["coverage_height"]}
+
+    Points_ri = np.vstack([x, y, -np.asarray(z)]).T
     surf_ri = RTSurface(Points_ri, **kwargs)
 
     return [surf_fi, surf_ri]
diff --git a/rayflare/textures/standard_rt_textures.py b/rayflare/textures/standard_rt_textures.py
index 0dddb11..d402064 100644
--- a/rayflare/textures/standard_rt_textures.py
+++ b/rayflare/textures/standard_rt_textures.py
@@ -5,7 +5,6 @@
 #
 # Contact: p.pearce@unsw.edu.au
 
-from rayflare.ray_tracing.rt import RTSurface
 from rayflare.textures.define_textures import xyz_texture
 from scipy.spatial import ConvexHull
 from copy import deepcopy
@@ -44,13 +43,7 @@ def regular_pyramids(elevation_angle=55, upright=True, size=1, **kwargs):
     if not upright:
         z = np.array([0, -h, 0, 0, 0])
 
-    Points = np.vstack([x, y, z]).T
-    surf_fi = RTSurface(Points, **kwargs)
-
-    Points_ri = np.vstack([x, y, -z]).T
-    surf_ri = RTSurface(Points_ri)
-
-    return [surf_fi, surf_ri]
+    return xyz_texture(x, y, z, **kwargs)
 
 
 def planar_surface(size=1, **kwargs):
@@ -65,11 +58,7 @@ def planar_surface(size=1, **kwargs):
     y = np.array([0, Ly, 0, Ly])
     z = np.array([0, 0, 0, 0])
 
-    Points = np.vstack([x, y, z]).T
-    surf_fi = RTSurface(Points, **kwargs)
-    surf_ri = RTSurface(Points)
-
-    return [surf_fi, surf_ri]
+    return xyz_texture(x, y, z, **kwargs)
 
 
 def V_grooves(elevation_angle=55, width=1, direction="y", **kwargs):
@@ -93,13 +82,7 @@ def V_grooves(elevation_angle=55, width=1, direction="y", **kwargs):
 
     z = np.array([0, 0, 0, 0, h, h])
 
-    Points = np.vstack([x, y, z]).T
-    surf_fi = RTSurface(Points, **kwargs)
-
-    Points_ri = np.vstack([x, y, -z]).T
-    surf_ri = RTSurface(Points_ri)
-
-    return [surf_fi, surf_ri]
+    return xyz_texture(x, y, z, **kwargs)
 
 
 def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
-- 
2.43.0


From 43a7215e339a295d538ba5436974ac906f3af9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 26/51] fix: random heights of textures whose base is not at
 zero

---
 rayflare/ray_tracing/rt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 762b1d2..5671dd8 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1431,7 +1431,6 @@ class RTSurface:
         self.simplices = tri.simplices
         self.Points = Points
         self.original_Points = deepcopy(Points)
-        self.height_ind = np.argmax(np.abs(self.Points[:,2]))
         self.P_0s = Points[tri.simplices[:, 0]]
         self.P_1s = Points[tri.simplices[:, 1]]
         self.P_2s = Points[tri.simplices[:, 2]]
@@ -1468,6 +1467,9 @@ class RTSurface:
                 )
             ][0]
 
+        # point furthest from the base of the surface, which defines the height of the texture
+        self.height_ind = np.argmax(np.abs(self.Points[:, 2] - self.zcov))
+
         if "name" in kwargs:
             self.name = kwargs["name"]
 
-- 
2.43.0


From 305691a52e01f66cfedf9b27cb88f7e766b3953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 27/51] fix: surface area of textures (angle between facet
 edges of arbitrary length)

---
 rayflare/ray_tracing/rt.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 5671dd8..0c44bf0 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1499,17 +1499,8 @@ class RTSurface:
 
     def find_area(self):
         xyz = np.stack((self.P_0s, self.P_1s, self.P_2s))
-        cos_theta = np.sum((xyz[0] - xyz[1]) * (xyz[2] - xyz[1]), 1)
-
-        theta = np.arccos(cos_theta)
-        self.area = np.sum(
-            (
-                0.5
-                * np.linalg.norm(xyz[0] - xyz[1], axis=1)
-                * np.linalg.norm(xyz[2] - xyz[1], axis=1)
-                * np.sin(theta)
-            )
-        ) / (self.Lx * self.Ly)
+        crossP = np.cross(xyz[0] - xyz[1], xyz[2] - xyz[1])
+        self.area = np.sum(0.5 * np.linalg.norm(crossP, axis=1)) / (self.Lx * self.Ly)
 
     def shift(self, z_shift):
         self.Points[:, 2] = self.Points[:, 2] - z_shift
-- 
2.43.0


From 83a0674c8e3ac0b6c39e60251cbffc98d503ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 28/51] fix: heights of surfaces defined by non-square arrays
 are scrambled

---
 rayflare/textures/define_textures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rayflare/textures/define_textures.py b/rayflare/textures/define_textures.py
index a83b6df..f7064c0 100644
--- a/rayflare/textures/define_textures.py
+++ b/rayflare/textures/define_textures.py
@@ -41,8 +41,9 @@ def heights_texture(z_points, x_width, y_width, **kwargs):
     :return: a list of two RTSurface objects: [front_incidence, rear_incidence]
     """
 
-    x = np.linspace(0, x_width, z_points.shape[0])
-    y = np.linspace(0, y_width, z_points.shape[1])
+    # columns of z_points are along x, rows along y
+    x = np.linspace(0, x_width, z_points.shape[1])
+    y = np.linspace(0, y_width, z_points.shape[0])
 
     xy = np.meshgrid(x, y)
 
-- 
2.43.0


From e4c26963b439f114fe0a9c7d0dcab3c8a2edb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 29/51] fix: facets of hyperhemispheres near the rim and the
 equator whose normals point to the wrong side

---
 rayflare/textures/standard_rt_textures.py | 115 +++-------------------
 1 file changed, 14 insertions(+), 101 deletions(-)

diff --git a/rayflare/textures/standard_rt_textures.py b/rayflare/textures/standard_rt_textures.py
index d402064..f6e7c2f 100644
--- a/rayflare/textures/standard_rt_textures.py
+++ b/rayflare/textures/standard_rt_textures.py
@@ -7,7 +7,6 @@
 
 from rayflare.textures.define_textures import xyz_texture
 from scipy.spatial import ConvexHull
-from copy import deepcopy
 import math
 import numpy as np
 
@@ -100,26 +99,15 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     :return: a list of two RTSurface objects: [front_incidence, rear_incidence]
     """
 
-    def switch_points(surface, index):
-        P1_current = deepcopy(surface.P_1s[index, :])
-        P2_current = deepcopy(surface.P_2s[index, :])
-        surface.P_1s[index, :] = P2_current
-        surface.P_2s[index, :] = P1_current
-
-        s1_current = surface.simplices[index, 1]
-        s2_current = surface.simplices[index, 2]
-        surface.simplices[index, 1] = s2_current
-        surface.simplices[index, 2] = s1_current
-
-    def switch_xy(surface, X_or_Y, x_y_ind, direction):
-        # direction = 1, point OUT of sphere
-        # direction = -1, point IN to sphere
-        for index in np.arange(len(X_norm_back)):
-            current_N = surface.crossP[index, :]
-            sign = direction * np.sign(X_or_Y[index])
-            # N[2] should be < 0
-            if np.sign(current_N[x_y_ind]) != sign:
-                switch_points(surface, index)
+    def oriented_simplices(hull, direction):
+        # make all the normals point out of (direction = 1) or into (direction = -1) the sphere, by switching two points
+        # of the triangles where this is not the case (for some reason this doesn't happen automatically with ConvexHull!)
+        P = hull.points[hull.simplices]
+        crossP = np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
+        flip = direction * np.sum(crossP * hull.equations[:, :3], axis=1) < 0
+        simplices = hull.simplices.copy()
+        simplices[flip] = simplices[flip][:, [0, 2, 1]]
+        return simplices
 
     phi = (1 + np.sqrt(5)) / 2  # the golden ratio
     long_incr = 2 * np.pi / phi  # how much to increment the longitude
@@ -173,8 +161,8 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
 
     hull = ConvexHull(Triples)
     hull_back = ConvexHull(Triples_back)
-    triangles = hull.simplices
-    triangles_back = hull_back.simplices
+    triangles = oriented_simplices(hull, 1)
+    triangles_back = oriented_simplices(hull_back, -1)
 
     [front, back] = xyz_texture(
         X, Y, Z, coverage_height=0, **kwargs
@@ -199,9 +187,9 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     cross_normalized = front.crossP / np.sqrt(np.sum(front.crossP**2, 1))[:, None]
     cross_normalized_back = back.crossP / np.sqrt(np.sum(back.crossP**2, 1))[:, None]
 
-    # remove triangles corresponding to flat face of triangle
+    # remove triangles corresponding to flat face of triangle (which faces down for the front, and up for the back surface)
 
-    flat = np.abs(cross_normalized[:, 2]) > 0.9
+    flat = cross_normalized[:, 2] < -0.9
     bottom_surface = np.all(
         (
             front.P_0s[:, 2] < 0.1 * radius,
@@ -212,7 +200,7 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     )
     bottom_planar = np.all((flat, bottom_surface), axis=0)
 
-    flat_back = np.abs(cross_normalized_back[:, 2]) > 0.9
+    flat_back = cross_normalized_back[:, 2] < -0.9
     top_surface = np.all(
         (
             back.P_0s[:, 2] > -0.1 * radius,
@@ -237,81 +225,6 @@ def hyperhemisphere(N_points=2**15, radius=1, h=0, **kwargs):
     front.crossP = front.crossP[~bottom_planar]
     front.size = front.P_0s.shape[0]
 
-    # find the middle of each triangle (X, Y and Z points):
-
-    X_norm = np.mean([front.P_0s[:, 0], front.P_1s[:, 0], front.P_2s[:, 0]], 0)
-    Y_norm = np.mean([front.P_0s[:, 1], front.P_1s[:, 1], front.P_2s[:, 1]], 0)
-    Z_norm = np.mean([front.P_0s[:, 2], front.P_1s[:, 2], front.P_2s[:, 2]], 0)
-
-    X_norm_back = np.mean([back.P_0s[:, 0], back.P_1s[:, 0], back.P_2s[:, 0]], 0)
-    Y_norm_back = np.mean([back.P_0s[:, 1], back.P_1s[:, 1], back.P_2s[:, 1]], 0)
-    Z_norm_back = np.mean([back.P_0s[:, 2], back.P_1s[:, 2], back.P_2s[:, 2]], 0)
-
-    # make all the normals points outwards (for some reason this doesn't happen automatically
-    # with ConvexHull!) Four things to check:
-
-    # 1. In each quadrant, if x of the middle of the triangle is +ve, sign of normal should be +ve and vice versa
-    # 2. In each quadrant, if y of the middle of the triangle is +ve, sign of normal should be +ve and vice versa
-    # 3. Above the centre of the sphere, the normal should be pointing up (N[2] > 0)
-    # 4. Below the centre of the sphere, the normal should be pointing down (N[2] < 0)
-
-    # If this isn't the case, simply need to switch two of the points of the triangle to flip the direction of the normal.
-    # In this case, we flip P_1 and P_2.
-    # Note that in principle it should be sufficient to just do the first two steps, but for triangles which lie
-    # almost exactly on the x or y axis it won't work.
-
-    # To keep things consistent, also need to switch the indices for the simplices if you are switching points around
-
-    switch_xy(back, X_norm_back, 0, -1)
-    switch_xy(front, X_norm, 0, 1)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    switch_xy(back, Y_norm_back, 1, -1)
-    switch_xy(front, Y_norm, 1, 1)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    above_middle = np.where(Z_norm > 1.03 * h)[0]
-    below_middle = np.where(Z_norm < 0.97 * h)[0]
-
-    for index in above_middle:
-        current_N = front.crossP[index, :]
-
-        # N[2] should be > 0
-        if current_N[2] < 0:
-            switch_points(front, index)
-
-    for index in below_middle:
-        current_N = front.crossP[index, :]
-
-        # N[2] should be < 0
-        if current_N[2] > 0:
-            switch_points(front, index)
-
-    front.crossP = np.cross(front.P_1s - front.P_0s, front.P_2s - front.P_0s)
-
-    above_middle_back = np.where(Z_norm_back > -0.97 * h)[0]
-    below_middle_back = np.where(Z_norm_back < -1.03 * h)[0]
-
-    for index in above_middle_back:
-        current_N = back.crossP[index, :]
-
-        # N[2] should be < 0
-        if current_N[2] > 0:
-            switch_points(back, index)
-
-    for index in below_middle_back:
-        current_N = back.crossP[index, :]
-
-        # N[2] should be > 0
-        if current_N[2] < 0:
-            switch_points(back, index)
-
-    back.crossP = np.cross(back.P_1s - back.P_0s, back.P_2s - back.P_0s)
-
     front.N = front.crossP / np.linalg.norm(front.crossP, axis=1)[:, None]
     back.N = back.crossP / np.linalg.norm(back.crossP, axis=1)[:, None]
     hyperhemi = [front, back]
-- 
2.43.0


From 39ebac872ed09a14491552ef3e318d17400ad3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 30/51] fix: RCWA redistribution matrices for rear incidence
 (gratings not reversed with the stack, power of several orders in the same
 bin lost)

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 2a7e7a5..6aaddee 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -138,7 +138,7 @@ def RCWA(
                 prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
-        geom_list = [layer.geometry for layer in structure]
+        geom_list = [layer.geometry for layer in layers]
         geom_list.insert(0, {})  # incidence medium
         geom_list.append({})  # transmission medium
 
@@ -444,12 +444,12 @@ def RCWA_wl_inkstone(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += T_pfbo[i2]
 
         # if layer_details: # not implemented yet for Inkstone
         #
@@ -631,12 +631,12 @@ def RCWA_wl(
         for i2 in np.nonzero(R_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_r_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_r_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + R_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += R_pfbo[i2]
 
         for i2 in np.nonzero(T_pfbo)[0]:
             phi_ind = np.digitize(phi_rt[i2], phi_intv[theta_t_bin[i2]], right=True) - 1
             bini = np.argmin(abs(angle_vector_0 - theta_t_bin[i2])) + phi_ind
-            mat_RT[bini, in_bin[i1]] = mat_RT[bini, i1] + T_pfbo[i2]
+            mat_RT[bini, in_bin[i1]] += T_pfbo[i2]
 
         if layer_details:
             f_z = np.sqrt((l_oc[layer_details] / (wl**2)) - fr_x**2 - fr_y**2)
-- 
2.43.0


From 11c44937ae0046949965d3e0651340e14acf6c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 31/51] fix: diffraction orders of RCWA matrices in the wrong
 direction (azimuth not measured from the x axis as in the solver, half plane
 lost)

---
 rayflare/analytic/diffraction.py                |  6 +++---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/rayflare/analytic/diffraction.py b/rayflare/analytic/diffraction.py
index 6b7f767..9828821 100644
--- a/rayflare/analytic/diffraction.py
+++ b/rayflare/analytic/diffraction.py
@@ -75,8 +75,8 @@ def get_order_directions(
         n_out = transmission.n(wl * 1e-9)
         k_out = transmission.k(wl * 1e-9)
 
-    fi_x = np.real((n_in / wl) * np.sin(theta) * np.sin(phi))
-    fi_y = np.real((n_in / wl) * np.sin(theta) * np.cos(phi))
+    fi_x = np.real((n_in / wl) * np.sin(theta) * np.cos(phi))
+    fi_y = np.real((n_in / wl) * np.sin(theta) * np.sin(phi))
 
     xy = np.arange(-m_max, m_max + 1, 1)
 
@@ -93,7 +93,7 @@ def get_order_directions(
 
     ft_z = np.sqrt((eps_sub / (wl**2))[:, None] - fr_x**2 - fr_y**2)
 
-    phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
+    phi_rt = np.arctan2(fr_y, fr_x)
     phi_rt = fold_phi(phi_rt, phi_sym)
     theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
     theta_t = np.pi - np.real(
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 6aaddee..ad0e012 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -400,10 +400,10 @@ def RCWA_wl_inkstone(
         T_pfbo = np.real(T_pfbo)
 
         fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
         fi_y = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
         )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
@@ -412,7 +412,7 @@ def RCWA_wl_inkstone(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
+        phi_rt = np.arctan2(fr_y, fr_x)
         phi_rt = fold_phi(phi_rt, phi_sym)
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
@@ -587,10 +587,10 @@ def RCWA_wl(
         T_pfbo = np.real(T_pfbo)
 
         fi_x = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
         )
         fi_y = np.real(
-            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.cos(ph * np.pi / 180)
+            (np.real(np.sqrt(l_oc[0])) / wl) * np.sin(th * np.pi / 180) * np.sin(ph * np.pi / 180)
         )
 
         fr_x = fi_x + G_basis[:, 0] * fg_1x + G_basis[:, 1] * fg_2x
@@ -599,7 +599,7 @@ def RCWA_wl(
         fr_z = np.sqrt((l_oc[0] / (wl**2)) - fr_x**2 - fr_y**2)
         ft_z = np.sqrt((l_oc[-1] / (wl**2)) - fr_x**2 - fr_y**2)
 
-        phi_rt = np.nan_to_num(np.arctan(fr_x / fr_y))
+        phi_rt = np.arctan2(fr_y, fr_x)
         phi_rt = fold_phi(phi_rt, phi_sym)
 
         theta_r = np.real(np.arccos(fr_z / np.sqrt(fr_x**2 + fr_y**2 + fr_z**2)))
-- 
2.43.0


From d6b378e12c7d57697d6c72d70717105012048871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 32/51] fix: RCWA matrix profiles for rear incidence are
 calculated at other depths than for front incidence

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index ad0e012..9872b3f 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -134,8 +134,6 @@ def RCWA(
             layers = structure[::-1]
             trns = incidence
             inc = transmission
-            if prof_layers is not None:
-                prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         # write a separate function that makes the OptiStack structure into an S4 object, defined materials etc.
         geom_list = [layer.geometry for layer in layers]
@@ -155,10 +153,12 @@ def RCWA(
         layers_oc = np.zeros((len(wavelengths), len(structure) + 2), dtype=complex)
 
         if prof_layers is not None:
-            z_limit = np.sum(np.array(widths[1:-1]))
+            # depths are measured from the front of the structure, whichever side the light comes from
+            front_widths = np.array(widths[1:-1] if front_or_rear == "front" else widths[-2:0:-1])
+            z_limit = np.sum(front_widths)
             full_dist = np.arange(0, z_limit, options["depth_spacing"] * 1e9)
-            layer_start = np.insert(np.cumsum(np.insert(widths[1:-1], 0, 0)), 0, 0)
-            layer_end = np.cumsum(np.insert(widths[1:-1], 0, 0))
+            layer_start = np.insert(np.cumsum(np.insert(front_widths, 0, 0)), 0, 0)
+            layer_end = np.cumsum(np.insert(front_widths, 0, 0))
 
             dist = []
 
@@ -172,6 +172,10 @@ def RCWA(
                     )
                 )
 
+            if front_or_rear != "front":
+                # same points, seen from the rear (just inside the layer they belong to)
+                dist = np.maximum((z_limit - dist)[::-1] - 1e-6, 0)
+
         else:
             dist = None
 
-- 
2.43.0


From 0d0d9a4c4121721529841667f9b274846f9b872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 33/51] fix: first point of each layer in TMM matrix profiles
 for rear incidence is taken from the wrong layer

---
 rayflare/transfer_matrix_method/tmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 5da076c..2151a9c 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -185,7 +185,8 @@ def TMM(
                 )
 
             if front_or_rear != "front":
-                dist = (z_limit - dist)[::-1]
+                # same points, seen from the rear (just inside the layer they belong to)
+                dist = np.maximum((z_limit - dist)[::-1] - 1e-6, 0)
                 prof_layers = np.sort(len(layers) - np.array(prof_layers) + 1).tolist()
 
         else:
-- 
2.43.0


From 03e1a3eb30d8f13d1f974a27c6ed763b651a610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 34/51] fix: unpolarised light treated as linearly polarised at
 45 degrees in RCWA

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 9872b3f..7dbc184 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -58,6 +58,21 @@ def process_pol(input_pol):
     return pol
 
 
+def polarisations(input_pol):
+    """List of the polarisations to calculate: unpolarised light is an incoherent mix of s and p. (Both
+    components with a fixed phase relation, as given by process_pol, only give the same R, A and T if the
+    structure does not convert s into p polarisation or vice versa.)"""
+    return [(1, 0), (0, 1)] if input_pol == "u" else [process_pol(input_pol)]
+
+
+def average_polarisations(allres, n_pols):
+    """Averages groups of n_pols consecutive results (each a tuple of numbers and arrays)."""
+    return [
+        tuple(sum(item[1:], item[0]) / n_pols for item in zip(*allres[i1 : i1 + n_pols]))
+        for i1 in range(0, len(allres), n_pols)
+    ]
+
+
 def set_incident_wave(S, s, p, options, wavelength):
     S.SetExcitationPlanewave(
         (options["theta_in"] * 180 / np.pi, options["phi_in"] * 180 / np.pi), s, p, 0
@@ -191,7 +206,7 @@ def RCWA(
         n_theta_bins = options["n_theta_bins"]
         c_az = options["c_azimuth"]
 
-        pol = process_pol(options["pol"])
+        pols = polarisations(options["pol"])
 
         if options["RCWA_method"].lower() == "s4":
             # RCWA options - S4 only
@@ -269,7 +284,9 @@ def RCWA(
                 dist,
             )
             for i1 in range(len(wavelengths))
+            for pol in pols
         )
+        allres = average_polarisations(allres, len(pols))
 
         A_mat = np.stack([item[2] for item in allres])
         full_mat = stack([item[3] for item in allres])
@@ -1103,7 +1120,7 @@ class rcwa_structure:
         get_wavelength(options)
         wl = options["wavelength"] * 1e9
 
-        pol = process_pol(options["pol"])
+        pols = polarisations(options["pol"])
 
         if not np.all(options["wavelength"] == self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
@@ -1131,7 +1148,9 @@ class rcwa_structure:
                 self.user_options,
             )
             for i1 in range(len(wl))
+            for pol in pols
         )
+        allres = average_polarisations(allres, len(pols))
 
         R = np.real(np.stack([item[0] for item in allres]))
         T = np.real(np.stack([item[1] for item in allres]))
@@ -1177,7 +1196,7 @@ class rcwa_structure:
         get_wavelength(options)
         wl = options["wavelength"] * 1e9
 
-        pol = process_pol(options["pol"])
+        pols = polarisations(options["pol"])
 
         if not np.all(options["wavelength"] == self.current_wavelengths):
             self.update_oc(options["wavelength"])
@@ -1224,9 +1243,10 @@ class rcwa_structure:
                 self.user_options,
             )
             for i1 in range(len(wl))
+            for pol in pols
         )
 
-        output = np.real(np.stack(allres))
+        output = np.real(np.stack(allres)).reshape(len(wl), len(pols), -1).mean(axis=1)
 
         output[output < 0] = 0
 
-- 
2.43.0


From 3bd4d93ba6be76faa55bd9492cf719009457a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 35/51] fix: RCWA matrices of surfaces without any reflection
 are not a number

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 7dbc184..f396868 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -453,7 +453,8 @@ def RCWA_wl_inkstone(
         T_pfbo[np.abs(T_pfbo < 1e-16)] = 0
 
         Rsum = np.sum(R_pfbo)
-        R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
+        if Rsum > 0:  # no reflection at all e.g. for an index-matched layer
+            R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
 
         theta_r[theta_r == 0] = 1e-10
         theta_t[theta_t == 0] = 1e-10
@@ -640,7 +641,8 @@ def RCWA_wl(
         T_pfbo[np.abs(T_pfbo < 1e-16)] = 0
 
         Rsum = np.sum(R_pfbo)
-        R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
+        if Rsum > 0:  # no reflection at all e.g. for an index-matched layer
+            R_pfbo = (R[in_bin[i1]] / Rsum) * R_pfbo
 
         theta_r[theta_r == 0] = 1e-10
         theta_t[theta_t == 0] = 1e-10
-- 
2.43.0


From 8f5f04ea1d7ec0dd613bb5e5355b9166c791a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 36/51] fix: polygons with a center given as a list move every
 time they are used in an Inkstone calculation

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index f396868..e659ae6 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -800,9 +800,7 @@ def initialise_S_inkstone(size, orders, geom_list, mats_oc, shapes_oc, shape_mat
                     )
                 # ? argument are different than S4
                 elif shape["type"] == "polygon":
-                    vertices = shape["vertices"]
-                    if isinstance(vertices, tuple):
-                        vertices = list(vertices)
+                    vertices = list(shape["vertices"])  # copy: user's list should not be changed below
 
                     if "center" in shape:
                         center = shape["center"]
-- 
2.43.0


From bfd58d329f686590e23045702a9d088b424a6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 37/51] fix: widths set with set_widths lost when the
 wavelengths change, or rounded to single precision (RCWA), or not used for
 the total width

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 10 ++++++----
 rayflare/transfer_matrix_method/tmm.py          |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index e659ae6..262efcf 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1065,10 +1065,11 @@ class rcwa_structure:
         )
 
         layers_oc = (np.array(stack_OS.get_indices(wavelengths * 1e9)) ** 2).T
-        widths = stack_OS.get_widths()
 
-        self.widths = widths
-        self.width = np.sum(self.widths[1:-1]) / 1e9
+        if not hasattr(self, "widths"):  # otherwise keep the widths: could have been changed by set_widths
+            self.widths = stack_OS.get_widths()
+            self.width = np.sum(self.widths[1:-1]) / 1e9
+
         self.shapes_oc = shapes_oc
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
@@ -1566,9 +1567,10 @@ class rcwa_structure:
         """
 
         new_widths = np.append(
-            np.insert(np.array(new_widths, dtype="f"), 0, np.inf), np.inf
+            np.insert(np.array(new_widths, dtype=float), 0, np.inf), np.inf
         ).tolist()
         self.widths = new_widths
+        self.width = np.sum(self.widths[1:-1]) / 1e9
 
     def set_size(self, new_size):
         """Allows the user to set new basis vectors for the structure.
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index 2151a9c..bac2bb5 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -737,6 +737,7 @@ class tmm_structure:
     def set_widths(self, new_widths):
 
         self.layer_stack.set_widths(new_widths)
+        self.width = np.sum(self.layer_stack.widths) / 1e9
 
     def build_coh_list(self, options):
 
-- 
2.43.0


From 0476ac392585ea57fff39186a0e3dfcbbff58c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 38/51] fix: RCWA profiles returned with R, T and A of other
 options, and added to results returned earlier

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 262efcf..eb97c58 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1199,14 +1199,8 @@ class rcwa_structure:
 
         pols = polarisations(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
-            self.update_oc(options["wavelength"])
-            # if total R, A, T have already been calculated, it was for the wrong wavelengths
-            self.calculate(options)
-
-        if not hasattr(self, "rat_output_A"):
-            # Need to calculate R, A, T first
-            self.calculate(options)
+        # R, A, T which were calculated before could be for other options (or other widths, geometry, ...)
+        to_return = self.calculate(options)
 
         dist = options["z_points"] if "z_points" in options.keys() else None
         z_limit = options["z_limit"] if "z_limit" in options.keys() else None
@@ -1251,7 +1245,6 @@ class rcwa_structure:
 
         output[output < 0] = 0
 
-        to_return = self.results
         to_return["profile"] = output
 
         return to_return
-- 
2.43.0


From 228fcd8e1a4a455e0aa519b36eba6633381248a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 39/51] fix: RCWA structures fail or use optical constants of
 other wavelengths after a calculation with another number of wavelengths

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index eb97c58..31f81a3 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1074,6 +1074,16 @@ class rcwa_structure:
         self.layers_oc = layers_oc
         self.current_wavelengths = wavelengths
 
+    def wavelength_index(self, wavelength, options):
+        # index of the wavelength in the options closest to wavelength (in nm); optical constants could be those for
+        # the wavelengths of an earlier calculation
+        get_wavelength(options)
+
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
+            self.update_oc(options["wavelength"])
+
+        return np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+
     def make_S(self, options, wl_ind):
         args = [
             self.size,
@@ -1123,7 +1133,7 @@ class rcwa_structure:
 
         pols = polarisations(options["pol"])
 
-        if not np.all(options["wavelength"] == self.current_wavelengths):
+        if not np.array_equal(options["wavelength"], self.current_wavelengths):
             # need to update list of optical constants for correct wavelengths
             self.update_oc(options["wavelength"])
 
@@ -1275,7 +1285,7 @@ class rcwa_structure:
         :return: xs, ys, a_r, a_i. The x points, y points, and the real and imaginary parts of the dielectric function.
         """
 
-        wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+        wl_ind = self.wavelength_index(wavelength, options)
 
         S = self.make_S(options, wl_ind)
 
@@ -1359,7 +1369,7 @@ class rcwa_structure:
                     the magnitude of the E-field, the magnitude of the H-field. The magnitude is given by sqrt(abs(Ex^2 + Ey^2 + Ez^2))
         """
 
-        wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+        wl_ind = self.wavelength_index(wavelength, options)
 
         S = self.make_S(options, wl_ind)
 
@@ -1449,7 +1459,7 @@ class rcwa_structure:
         """
 
         if options["RCWA_method"].lower() == "s4":
-            wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+            wl_ind = self.wavelength_index(wavelength, options)
 
             S = self.make_S(options, wl_ind)
 
@@ -1489,7 +1499,7 @@ class rcwa_structure:
         """
 
         if options["RCWA_method"].lower() == "s4":
-            wl_ind = np.argmin(np.abs(self.current_wavelengths * 1e9 - wavelength))
+            wl_ind = self.wavelength_index(wavelength, options)
 
             S = self.make_S(options, wl_ind)
 
-- 
2.43.0


From 75b7b4e9b4f0509e83b52ef79bf707d6b06ade98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 40/51] fix: S4 options required for fields and orders even
 though they are optional

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 31f81a3..5f5a565 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1096,7 +1096,7 @@ class rcwa_structure:
         ]
 
         if options["RCWA_method"].lower() == "s4":
-            S = initialise_S(*(args + [options["S4_options"]]))
+            S = initialise_S(*(args + [self.user_options]))
 
         elif options["RCWA_method"].lower() == "inkstone":
             S = initialise_S_inkstone(*args)
-- 
2.43.0


From 58e20c456dd7681d76a7f6649cad39e582c17b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:53 +0000
Subject: [PATCH 41/51] fix: complex refractive indices of the media not
 accepted for the directions of diffraction orders

---
 rayflare/analytic/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rayflare/analytic/diffraction.py b/rayflare/analytic/diffraction.py
index 9828821..0392dc4 100644
--- a/rayflare/analytic/diffraction.py
+++ b/rayflare/analytic/diffraction.py
@@ -50,7 +50,7 @@ def get_order_directions(
                 "Optical constant array of incidence medium has different length to wavelength array"
             )
 
-    elif isinstance(incidence, (int, float)):
+    elif isinstance(incidence, (int, float, complex)):
         n_in = np.real(incidence)
         k_in = np.imag(incidence)
 
@@ -67,7 +67,7 @@ def get_order_directions(
                 "Optical constant array of incidence medium has different length to wavelength array"
             )
 
-    elif isinstance(transmission, (int, float)):
+    elif isinstance(transmission, (int, float, complex)):
         n_out = np.real(transmission)
         k_out = np.imag(transmission)
 
-- 
2.43.0


From 5bca2166d02e518d70f841b6ae4042ef6c997eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 42/51] fix: options given as a dictionary not accepted by
 make_absorption_function

---
 rayflare/utilities.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 98a04c1..fc66c29 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -44,12 +44,12 @@ def make_absorption_function(result, structure, options):
     elif isinstance(structure, tmm_structure):
         matrix_method = False
         interfaces_and_bulks = False
-        depth_spacing = options.depth_spacing
+        depth_spacing = options["depth_spacing"]
 
     elif isinstance(structure, rcwa_structure):
         matrix_method = False
         interfaces_and_bulks = False
-        depth_spacing = options.depth_spacing
+        depth_spacing = options["depth_spacing"]
 
     elif isinstance(structure, rt_structure):
         matrix_method = False
@@ -59,7 +59,7 @@ def make_absorption_function(result, structure, options):
 
         else:
             interfaces_and_bulks = False
-            depth_spacing = options.depth_spacing_bulk
+            depth_spacing = options["depth_spacing_bulk"]
 
     else:
         raise ValueError(
@@ -76,8 +76,8 @@ def make_absorption_function(result, structure, options):
         width_bulk = np.array(structure[1].width) * 1e6  # in um
         widths_back = np.array(structure[2].widths) * 1e9  # in nm
 
-        d_ints = options.depth_spacing * 1e9  # m to nm
-        d_bulk = options.depth_spacing_bulk * 1e6  # m to um
+        d_ints = options["depth_spacing"] * 1e9  # m to nm
+        d_bulk = options["depth_spacing_bulk"] * 1e6  # m to um
 
         front_positions = np.arange(0, np.sum(widths_front) - 1e-12, d_ints)  # in nm
         bulk_positions = np.arange(0, width_bulk - 1e-12, d_bulk)  # in um
@@ -86,7 +86,7 @@ def make_absorption_function(result, structure, options):
         layer_start = np.insert(np.cumsum(np.insert(widths_front, 0, 0)), 0, 0)
         layer_end = np.cumsum(np.insert(widths_front, 0, 0))
 
-        prof_front = np.zeros((len(options.wavelength), len(front_positions)))
+        prof_front = np.zeros((len(options["wavelength"]), len(front_positions)))
 
         if structure[0].prof_layers is not None:
 
@@ -108,7 +108,7 @@ def make_absorption_function(result, structure, options):
         layer_start = np.insert(np.cumsum(np.insert(widths_back, 0, 0)), 0, 0)
         layer_end = np.cumsum(np.insert(widths_back, 0, 0))
 
-        prof_back = np.zeros((len(options.wavelength), len(back_positions)))
+        prof_back = np.zeros((len(options["wavelength"]), len(back_positions)))
 
         if structure[2].prof_layers is not None:
 
@@ -127,7 +127,7 @@ def make_absorption_function(result, structure, options):
                 )
                 index_offset += ind_diff
 
-        if options.bulk_profile:
+        if options["bulk_profile"]:
 
             prof_bulk = profile_bulk[:, : len(bulk_positions)]  # already in m-1
 
@@ -164,7 +164,7 @@ def make_absorption_function(result, structure, options):
 
             bulk_positions = (
                 np.arange(
-                    0, np.sum(structure.widths) * 1e6, options.depth_spacing_bulk * 1e6
+                    0, np.sum(structure.widths) * 1e6, options["depth_spacing_bulk"] * 1e6
                 )
                 / 1e6
             )  # widths and spacing are in m
@@ -178,10 +178,10 @@ def make_absorption_function(result, structure, options):
                     surf_positions = np.arange(
                         0,
                         np.sum(structure.interface_layer_widths[i1]),
-                        options.depth_spacing * 1e9,
+                        options["depth_spacing"] * 1e9,
                     )
                     surf_prof = np.zeros(
-                        (len(options.wavelength), len(surf_positions))
+                        (len(options["wavelength"]), len(surf_positions))
                     )
 
                     if hasattr(surf, "prof_layers"):
-- 
2.43.0


From 3a974a30fa5a16f40bae99ee0f4d6a75c17e1621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 43/51] fix: exported absorption undefined (NaN) between the
 last depth and the end of the structure

---
 rayflare/utilities.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index fc66c29..f53c28d 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -35,6 +35,14 @@ def make_absorption_function(result, structure, options):
     from rayflare.ray_tracing import rt_structure
     from rayflare.structure import Structure
 
+    def interpolate_absorption(positions, absorption, total_width):
+        # the last position is up to one step before the end of the structure
+        if total_width > positions[-1]:
+            positions = np.append(positions, total_width)
+            absorption = np.hstack((absorption, absorption[:, -1:]))
+
+        return interp1d(positions, absorption)
+
     get_wavelength(options)
     # determine the type of structure to figure out how to process the result:
 
@@ -144,7 +152,11 @@ def make_absorption_function(result, structure, options):
 
         all_absorption = np.hstack((prof_front, prof_bulk, prof_back))
 
-        diff_absorb_fn = interp1d(all_positions, all_absorption)
+        diff_absorb_fn = interpolate_absorption(
+            all_positions,
+            all_absorption,
+            (np.sum(widths_front) + np.sum(widths_back)) / 1e9 + width_bulk / 1e6,
+        )
 
         return all_positions, diff_absorb_fn
 
@@ -255,12 +267,16 @@ def make_absorption_function(result, structure, options):
                     cumulative_width += structure.widths[i1]
 
             positions = np.hstack(all_positions)
-            diff_absorb_fn = interp1d(positions, np.hstack(all_data))
+            diff_absorb_fn = interpolate_absorption(
+                positions, np.hstack(all_data), cumulative_width
+            )
 
         else:
 
             positions = np.arange(0, structure.width*1e6, depth_spacing*1e6)/1e6
-            diff_absorb_fn = interp1d(positions, 1e9 * result["profile"])
+            diff_absorb_fn = interpolate_absorption(
+                positions, 1e9 * result["profile"], structure.width
+            )
 
         return positions, diff_absorb_fn
 
-- 
2.43.0


From a94e908054760b14c64c2e609d6d3cd63f4462ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 44/51] fix: exported absorption fails if the number of depths
 differs by rounding from the calculated profile

---
 rayflare/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index f53c28d..0fd057d 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -273,7 +273,14 @@ def make_absorption_function(result, structure, options):
 
         else:
 
-            positions = np.arange(0, structure.width*1e6, depth_spacing*1e6)/1e6
+            # the profile was calculated in steps of depth_spacing from the front of the structure
+            positions = np.arange(result["profile"].shape[1]) * depth_spacing
+
+            if abs(len(positions) - structure.width / depth_spacing) > 1:
+                raise ValueError(
+                    "The absorption profile should be calculated for all the layers of the structure"
+                )
+
             diff_absorb_fn = interpolate_absorption(
                 positions, 1e9 * result["profile"], structure.width
             )
-- 
2.43.0


From 307cb471fd4b92e432793f18731cbe3456016f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 45/51] fix: exported absorption of matrix formalism structures
 fails, or is at the wrong depths, if not all interfaces have profiles, or
 with ray-traced layers

---
 rayflare/utilities.py | 76 +++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 0fd057d..3b93f29 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -6,6 +6,7 @@
 # Contact: p.pearce@unsw.edu.au
 
 import numpy as np
+from solcore import asUnit
 from solcore.interpolate import interp1d
 import os
 from sparse import load_npz, save_npz
@@ -43,6 +44,30 @@ def make_absorption_function(result, structure, options):
 
         return interp1d(positions, absorption)
 
+    def depths_in_layers(widths, depth_spacing, from_layer_start):
+        # depths and (1-indexed) layer numbers at which the profiles are calculated. For ray-tracing, the depths are
+        # relative to the start of each layer, otherwise they are relative to the start of the interface
+        layer_start = np.insert(np.cumsum(widths), 0, 0)
+
+        if from_layer_start:
+            depths = [
+                layer_start[i1] + np.arange(0, width, depth_spacing)
+                for i1, width in enumerate(widths)
+            ]
+
+        else:
+            all_depths = np.arange(0, np.sum(widths), depth_spacing)
+            depths = [
+                all_depths[(all_depths >= layer_start[i1]) & (all_depths < layer_start[i1 + 1])]
+                for i1 in range(len(widths))
+            ]
+
+        layer_number = np.repeat(
+            np.arange(len(widths)) + 1, [len(x) for x in depths]
+        )
+
+        return np.hstack([[]] + depths), layer_number
+
     get_wavelength(options)
     # determine the type of structure to figure out how to process the result:
 
@@ -76,23 +101,41 @@ def make_absorption_function(result, structure, options):
 
     if matrix_method:
 
-        profile_front = result[2][0]
-        profile_bulk = result[3][0]
-        profile_back = result[2][1]
+        # there are only profiles for interfaces with prof_layers
+        surface_profiles = list(result[2])
+        profile_front = (
+            np.array(surface_profiles.pop(0))
+            if structure[0].prof_layers is not None
+            else None
+        )
+        profile_bulk = result[3][0] if options["bulk_profile"] else None
+        profile_back = (
+            np.array(surface_profiles.pop(0))
+            if structure[2].prof_layers is not None
+            else None
+        )
 
-        widths_front = np.array(structure[0].widths) * 1e9  # in nm
+        # the units are converted in the same way as for the calculation of the profiles, so that the depths are the same
+        RT_front = structure[0].method == "RT_TMM"
+        RT_back = structure[2].method == "RT_TMM"
+        widths_front = np.array(
+            [x * 1e9 if RT_front else asUnit(x, "nm") for x in structure[0].widths]
+        )  # in nm
         width_bulk = np.array(structure[1].width) * 1e6  # in um
-        widths_back = np.array(structure[2].widths) * 1e9  # in nm
+        widths_back = np.array(
+            [x * 1e9 if RT_back else asUnit(x, "nm") for x in structure[2].widths]
+        )  # in nm
 
         d_ints = options["depth_spacing"] * 1e9  # m to nm
         d_bulk = options["depth_spacing_bulk"] * 1e6  # m to um
 
-        front_positions = np.arange(0, np.sum(widths_front) - 1e-12, d_ints)  # in nm
+        front_positions, front_layer = depths_in_layers(
+            widths_front, d_ints, RT_front
+        )  # in nm
         bulk_positions = np.arange(0, width_bulk - 1e-12, d_bulk)  # in um
-        back_positions = np.arange(0, np.sum(widths_back) - 1e-12, d_ints)  # in nm
-
-        layer_start = np.insert(np.cumsum(np.insert(widths_front, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_front, 0, 0))
+        back_positions, back_layer = depths_in_layers(
+            widths_back, d_ints, RT_back
+        )  # in nm
 
         prof_front = np.zeros((len(options["wavelength"]), len(front_positions)))
 
@@ -101,9 +144,7 @@ def make_absorption_function(result, structure, options):
             index_offset = 0
 
             for i1 in structure[0].prof_layers:
-                indices = np.logical_and(
-                    front_positions >= layer_start[i1], front_positions < layer_end[i1]
-                )
+                indices = front_layer == i1
                 ind_diff = np.sum(indices)
                 prof_front[:, indices] = (
                     1e9
@@ -113,9 +154,6 @@ def make_absorption_function(result, structure, options):
                 )
                 index_offset += ind_diff
 
-        layer_start = np.insert(np.cumsum(np.insert(widths_back, 0, 0)), 0, 0)
-        layer_end = np.cumsum(np.insert(widths_back, 0, 0))
-
         prof_back = np.zeros((len(options["wavelength"]), len(back_positions)))
 
         if structure[2].prof_layers is not None:
@@ -123,9 +161,7 @@ def make_absorption_function(result, structure, options):
             index_offset = 0
 
             for i1 in structure[2].prof_layers:
-                indices = np.logical_and(
-                    back_positions >= layer_start[i1], back_positions < layer_end[i1]
-                )
+                indices = back_layer == i1
                 ind_diff = np.sum(indices)
                 prof_back[:, indices] = (
                     1e9
@@ -140,7 +176,7 @@ def make_absorption_function(result, structure, options):
             prof_bulk = profile_bulk[:, : len(bulk_positions)]  # already in m-1
 
         else:
-            prof_bulk = np.zeros_like(bulk_positions)
+            prof_bulk = np.zeros((len(options["wavelength"]), len(bulk_positions)))
 
         all_positions = np.hstack(
             (
-- 
2.43.0


From cd591ee5d8f491b26c5739b1289988ec4e6a2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 46/51] fix: exported absorption of ray-traced structures with
 interface layers fails or is at the wrong depths

---
 rayflare/utilities.py | 58 +++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/rayflare/utilities.py b/rayflare/utilities.py
index 3b93f29..8f285cf 100644
--- a/rayflare/utilities.py
+++ b/rayflare/utilities.py
@@ -207,15 +207,14 @@ def make_absorption_function(result, structure, options):
             cumulative_width = 0  # cumulative width in nm
             index_offset_bulk = 0
 
-            layer_start_bulk = np.insert(np.cumsum(structure.widths, 0), 0, 0)
-            layer_end_bulk = np.cumsum(structure.widths, 0)
+            # units are converted as they are for the calculation of the profiles, so that the depths are the same
+            widths_um = 1e6 * np.array([0] + list(structure.widths) + [0])
+            layer_start_bulk = np.cumsum(widths_um)[:-1]
+            layer_end_bulk = np.cumsum(widths_um)[1:]
 
-            bulk_positions = (
-                np.arange(
-                    0, np.sum(structure.widths) * 1e6, options["depth_spacing_bulk"] * 1e6
-                )
-                / 1e6
-            )  # widths and spacing are in m
+            bulk_positions = np.arange(
+                0, sum(widths_um) - 1e-12, options["depth_spacing_bulk"] * 1e6
+            )  # in um
 
             for i1, surf in enumerate(structure.surfaces):
 
@@ -223,36 +222,22 @@ def make_absorption_function(result, structure, options):
 
                 if structure.tmm_or_fresnel[i1] == 1:  # tmm interface
 
-                    surf_positions = np.arange(
-                        0,
-                        np.sum(structure.interface_layer_widths[i1]),
+                    surf_positions, surf_layer = depths_in_layers(
+                        structure.interface_layer_widths[i1],
                         options["depth_spacing"] * 1e9,
+                        True,
                     )
                     surf_prof = np.zeros(
                         (len(options["wavelength"]), len(surf_positions))
                     )
 
-                    if hasattr(surf, "prof_layers"):
-
-                        data = result["interface_profiles"][i1]
-
-                        layer_start = np.insert(
-                            np.cumsum(
-                                np.insert(structure.interface_layer_widths[i1], 0, 0)
-                            ),
-                            0,
-                            0,
-                        )
-                        # insert 0 because prof_layers in 1-indexed
-                        layer_end = np.cumsum(
-                            np.insert(structure.interface_layer_widths[i1], 0, 0)
-                        )
-
-                        for j1 in surf.prof_layers:
-                            indices = np.logical_and(
-                                surf_positions >= layer_start[j1],
-                                surf_positions < layer_end[j1],
-                            )
+                    data = result["interface_profiles"][i1]
+
+                    # no data if there are no prof_layers, or if nothing is absorbed
+                    if structure.prof_layers[i1] is not None and len(data) > 0:
+
+                        for j1 in structure.prof_layers[i1]:
+                            indices = surf_layer == j1
                             ind_diff = np.sum(indices)
 
                             surf_prof[:, indices] = (
@@ -284,17 +269,14 @@ def make_absorption_function(result, structure, options):
                         bulk_positions >= layer_start_bulk[i1],
                         bulk_positions < layer_end_bulk[i1],
                     )
-                    # print(layer_start_bulk[i1], layer_end_bulk[i1])
-                    # print(indices)
                     ind_diff = np.sum(indices)
                     bulk_prof = (
                         1e9
                         * data[:, index_offset_bulk : (index_offset_bulk + ind_diff)]
                     )  # convert from nm-1 to m-1
-                    pos_from_zero = bulk_positions[indices] - np.min(
-                        bulk_positions[indices]
-                    )
-                    # print(bulk_prof)
+                    pos_from_zero = (
+                        bulk_positions[indices] - layer_start_bulk[i1]
+                    ) / 1e6  # convert to m
                     index_offset_bulk += ind_diff
 
                     all_data.append(bulk_prof)
-- 
2.43.0


From 6f6e1d278b0d34c9e075d0ce8656d491ab8d20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 47/51] fix: options given as a dictionary fail if they contain
 n_jobs or theta_spacing

---
 rayflare/matrix_formalism/multiply_matrices.py  | 2 +-
 rayflare/matrix_formalism/process_structure.py  | 4 ++--
 rayflare/ray_tracing/rt.py                      | 6 +++---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 rayflare/transfer_matrix_method/tmm.py          | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rayflare/matrix_formalism/multiply_matrices.py b/rayflare/matrix_formalism/multiply_matrices.py
index 9d5661a..61e8e3a 100644
--- a/rayflare/matrix_formalism/multiply_matrices.py
+++ b/rayflare/matrix_formalism/multiply_matrices.py
@@ -315,7 +315,7 @@ def matrix_multiplication(
     n_interfaces = n_bulks + 1
 
     theta_spacing = (
-        options.theta_spacing if "theta_spacing" in options else "sin"
+        options["theta_spacing"] if "theta_spacing" in options else "sin"
     )
 
     theta_intv, phi_intv, angle_vector = make_angle_vector(
diff --git a/rayflare/matrix_formalism/process_structure.py b/rayflare/matrix_formalism/process_structure.py
index 84ab1da..54912a7 100644
--- a/rayflare/matrix_formalism/process_structure.py
+++ b/rayflare/matrix_formalism/process_structure.py
@@ -121,7 +121,7 @@ def process_structure(SC, options, save_location="default", overwrite=False):
                 which_sides = ["front", "rear"]
 
             if struct.method == "Mirror":
-                theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+                theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
                 theta_intv, phi_intv, angle_vector = make_angle_vector(
                     options["n_theta_bins"],
@@ -142,7 +142,7 @@ def process_structure(SC, options, save_location="default", overwrite=False):
                 )
 
             if struct.method == "Lambertian":
-                theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+                theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
                 theta_intv, _, angle_vector = make_angle_vector(
                     options["n_theta_bins"],
diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 0c44bf0..37a2558 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -94,7 +94,7 @@ def RT(
             n_jobs = 1
 
         else:
-            n_jobs = options.n_jobs if "n_jobs" in options else -1
+            n_jobs = options["n_jobs"] if "n_jobs" in options else -1
 
         if calc_profile is not None:
             depth_spacing = options["depth_spacing"] * 1e9  # convert from m to nm
@@ -114,7 +114,7 @@ def RT(
         else:
             lookuptable = None
 
-        theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+        theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
         theta_intv, phi_intv, angle_vector = make_angle_vector(
             n_theta_bins, phi_sym, c_az, theta_spacing
@@ -879,7 +879,7 @@ class rt_structure:
             n_jobs = 1
 
         else:
-            n_jobs = options.n_jobs if "n_jobs" in options else -1
+            n_jobs = options["n_jobs"] if "n_jobs" in options else -1
 
         widths = self.widths[:]
         widths.insert(0, 0)
diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 5f5a565..585c104 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -229,7 +229,7 @@ def RCWA(
         else:
             S4_options = None
 
-        theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+        theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
         theta_intv, phi_intv, angle_vector = make_angle_vector(
             n_theta_bins, phi_sym, c_az, theta_spacing
diff --git a/rayflare/transfer_matrix_method/tmm.py b/rayflare/transfer_matrix_method/tmm.py
index bac2bb5..e16546f 100644
--- a/rayflare/transfer_matrix_method/tmm.py
+++ b/rayflare/transfer_matrix_method/tmm.py
@@ -143,7 +143,7 @@ def TMM(
         get_wavelength(options)
         wavelengths = options["wavelength"]
 
-        theta_spacing = options.theta_spacing if "theta_spacing" in options else "sin"
+        theta_spacing = options["theta_spacing"] if "theta_spacing" in options else "sin"
 
         theta_intv, phi_intv, angle_vector = make_angle_vector(
             options["n_theta_bins"],
-- 
2.43.0


From 1377b832c69c581a4f4e96d887a50c3996ff4184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 48/51] fix: ray-tracing with interface layers fails if the
 wavelengths are not in ascending or descending order

---
 rayflare/ray_tracing/rt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 37a2558..59f83f4 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -107,7 +107,10 @@ def RT(
             side = -1
 
         if Fr_or_TMM == 1:
-            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc"))
+            # sorted because the wavelengths could be in any order
+            lookuptable = xr.open_dataset(
+                os.path.join(structpath, surf_name + ".nc")
+            ).sortby("wl")
             if front_or_rear == "rear":
                 # side gets flipped here
                 lookuptable = lookuptable.assign_coords(side=np.flip(lookuptable.side))
@@ -1093,7 +1096,10 @@ def make_tmm_args(arg_list):
 
             structpath = arg_list[2]
             surf_name = arg_list[3][i1] + "int_{}".format(i1)
-            lookuptable = xr.open_dataset(os.path.join(structpath, surf_name + ".nc"))
+            # sorted because the wavelengths could be in any order
+            lookuptable = xr.open_dataset(
+                os.path.join(structpath, surf_name + ".nc")
+            ).sortby("wl")
             additional_tmm_args.append(
                 {"wl": arg_list[-1], "Fr_or_TMM": 1, "lookuptable": lookuptable}
             )
-- 
2.43.0


From 99bdc40f778b1a441f1c50c6c2d5a1ae545934c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:35 +0000
Subject: [PATCH 49/51] fix: rays are launched from inside the surface after a
 larger texture height is drawn

If the height of a texture is drawn from a distribution, it changes whenever a ray moves to the next unit cell, but all
rays were launched from the height which the surface had at the start of the calculation: below the tips of the surface
if a larger height was drawn since then. Those rays missed the facets they should hit.
---
 rayflare/ray_tracing/rt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rayflare/ray_tracing/rt.py b/rayflare/ray_tracing/rt.py
index 59f83f4..57010e4 100644
--- a/rayflare/ray_tracing/rt.py
+++ b/rayflare/ray_tracing/rt.py
@@ -1657,7 +1657,8 @@ def single_ray_stack(
 
     elif direction == 1 and mat_i == 0:
         surf_index = 0
-        z_offset = r_a_0[2]
+        # the surface can be higher than it was for the first ray, if its height is drawn from a distribution
+        z_offset = r_a_0[2] if r_a_0[2] > surfaces[0].z_max else surfaces[0].z_max + 1e-8
 
     else:
         surf_index = mat_i - 1
@@ -1840,6 +1841,10 @@ def single_ray_interface(
     )  # set r_a and r_b so that ray has correct angle & intersects with first surface
     d = (r_b - r_a) / np.linalg.norm(r_b - r_a)  # direction (unit vector) of ray
 
+    # the surface can be higher than it was for the first ray, if its height is drawn from a distribution
+    if r_a[2] <= surfaces[0].z_max:
+        r_a = r_a + (surfaces[0].z_max + 1e-8 - r_a[2]) / d[2] * d
+
     while not stop:
 
         surf = surfaces[surf_index]
-- 
2.43.0


From 5a298af3c4855e66f7516494342c34faba701b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:26 +0000
Subject: [PATCH 50/51] fix: RCWA structures keep optical constants of the old
 wavelengths if the wavelength array is changed in place

---
 rayflare/rigorous_coupled_wave_analysis/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 585c104..4acb41f 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1072,7 +1072,7 @@ class rcwa_structure:
 
         self.shapes_oc = shapes_oc
         self.layers_oc = layers_oc
-        self.current_wavelengths = wavelengths
+        self.current_wavelengths = np.array(wavelengths)
 
     def wavelength_index(self, wavelength, options):
         # index of the wavelength in the options closest to wavelength (in nm); optical constants could be those for
-- 
2.43.0


From 4820b031a51c9cf685c1560eae268d1ab3229f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:26 +0000
Subject: [PATCH 51/51] fix: fields (and drawn dielectric functions) calculated
 with Inkstone have x and y exchanged

---
 .../rigorous_coupled_wave_analysis/rcwa.py    | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/rayflare/rigorous_coupled_wave_analysis/rcwa.py b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
index 4acb41f..fbccd39 100644
--- a/rayflare/rigorous_coupled_wave_analysis/rcwa.py
+++ b/rayflare/rigorous_coupled_wave_analysis/rcwa.py
@@ -1328,18 +1328,20 @@ class rcwa_structure:
             xs, ys, epsilon, _ = S.ReconstructLayer(f"layer_{layer_index + 1}", n_points, n_points)
             # last value returned is mu, but not currently used by RayFlare
             # assume material is isotropic! top left entry of dielectric tensor
-            a_r = np.real(epsilon)[:, :, 0, 0]
-            a_i = np.imag(epsilon)[:, :, 0, 0]
+            # Inkstone has the y direction along the first axis
+            xs, ys = xs.T, ys.T
+            a_r = np.real(epsilon)[:, :, 0, 0].T
+            a_i = np.imag(epsilon)[:, :, 0, 0].T
 
         if plot:
             fig, axs = plt.subplots(1, 2, figsize=(7, 2.6))
-            im1 = axs[0].pcolormesh(xs, ys, a_r.T, cmap="magma")
+            im1 = axs[0].pcolormesh(xs.T, ys.T, a_r.T, cmap="magma")
             fig.colorbar(im1, ax=axs[0])
             axs[0].set_xlabel("x (nm)")
             axs[0].set_ylabel("y (nm)")
             axs[0].set_aspect(aspect=1)
 
-            im2 = axs[1].pcolormesh(xs, ys, a_i.T, cmap="magma")
+            im2 = axs[1].pcolormesh(xs.T, ys.T, a_i.T, cmap="magma")
             fig.colorbar(im2, ax=axs[1])
             axs[1].set_xlabel("x (nm)")
             axs[1].set_ylabel("y (nm)")
@@ -1415,13 +1417,14 @@ class rcwa_structure:
                 H[ind_0[x_i], ind_1[y_i]] = calc[1]
 
         else:
+            # Inkstone has the y direction along the first axis
             calc = S.GetLayerFields(x=xs, y=ys, z=depth, layer=str("layer_" + str(layer_index + 1)))
-            E[:, :, 0] = calc[0][:, :, 0]
-            E[:, :, 1] = calc[1][:, :, 0]
-            E[:, :, 2] = calc[2][:, :, 0]
-            H[:, :, 0] = calc[3][:, :, 0]
-            H[:, :, 1] = calc[4][:, :, 0]
-            H[:, :, 2] = calc[5][:, :, 0]
+            E[:, :, 0] = calc[0][:, :, 0].T
+            E[:, :, 1] = calc[1][:, :, 0].T
+            E[:, :, 2] = calc[2][:, :, 0].T
+            H[:, :, 0] = calc[3][:, :, 0].T
+            H[:, :, 1] = calc[4][:, :, 0].T
+            H[:, :, 2] = calc[5][:, :, 0].T
 
         E_mag = np.real(np.sqrt(np.sum(np.abs(E) ** 2, 2)))
         H_mag = np.real(np.sqrt(np.sum(np.abs(H) ** 2, 2)))
-- 
2.43.0

