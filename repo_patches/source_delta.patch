From ae5cdc4b01c16162f8b708b93b89295a01e2a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 01/59] fix: reset the last-impact time of uniformly generated
 macroparticles

add_uniform_MP_distrib cleared t_last_impact after N_mp had been increased, so
new macroparticles kept the impact time of whatever used their slots before.
---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..0ccda37 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -480,11 +480,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From 954934b03b733b0e5c07650db375486f2cfedee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 02/59] fix: soft regeneration of a cloud without charge

A cloud holding only absorbed (zero-size) macroparticles divided 0 by 0 and all
its macroparticle sizes became nan.
---
 MP_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MP_system.py b/MP_system.py
index 0ccda37..95d2754 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -202,7 +202,10 @@ class MP_system:
                 chrg_before = chrg
                 chrg_after = np.sum(self.nel_mp)
 
-                correct_fact = chrg_before / chrg_after
+                if chrg_after > 0:
+                    correct_fact = chrg_before / chrg_after
+                else:
+                    correct_fact = 1.
 
                 print('Cloud %s: Applied correction factor = %e'%(self.name, correct_fact))
 
-- 
2.43.0


From 0d88de24c2a2e543dcc6ea49d897655fbb2fe4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 03/59] fix: keep the fastest macroparticles in their velocity
 cell in a regeneration

With a number of velocity cells that is a multiple of four the index of a
macroparticle at -v_max rounded to zero, i.e. to the last cell of the
neighbouring coordinate: it came back with the opposite velocity, shifted in y.
---
 MP_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 95d2754..930127a 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -312,9 +312,9 @@ class MP_system:
             #% MATLAB-like indices
             ix_mp = np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x
             iy_mp = np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y
-            ivx_mp = np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx
-            ivy_mp = np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy
-            ivz_mp = np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz
+            ivx_mp = np.clip(np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx, 1, self.Nvx_reg)
+            ivy_mp = np.clip(np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy, 1, self.Nvy_reg)
+            ivz_mp = np.clip(np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz, 1, self.Nvz_reg)
             #
             #
             #
-- 
2.43.0


From edd08bbd3fd8c930a30d7566424d605512e91f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 04/59] fix: find the wall crossing of paths that go through a
 polygon vertex or end on the wall

Rounding could place the crossing just outside both edges that share the vertex,
and a displacement ending exactly on the wall was not seen as crossing: no edge
was found, and the impact got a zero normal and segment 0.
---
 geom_impact_poly_cython.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..03054c1 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -32,7 +32,8 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
     #with nogil, parallel():
     #for i_imp in prange(N_impacts):
     for i_imp in xrange(N_impacts):
-        t_min_curr = 1.
+        # accept a crossing at the very end of the displacement, within rounding
+        t_min_curr = 1. + 1e-12
         i_found_curr = -1
         fould_curr = False
         x_in_curr = x_in[i_imp]
@@ -52,7 +53,8 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
                 t_border=((y_out_curr-y_in_curr)*(x_in_curr-Vx[ii])+(x_in_curr-x_out_curr)*(y_in_curr-Vy[ii]))/den
 
 
-            if t_border>=0. and t_border<=1.:
+            # the tolerance avoids that a path through a vertex slips between two edges
+            if t_border>=-1e-12 and t_border<=1.+1e-12:
                 t_ii = (Nx[ii]*(Vx[ii]-x_in_curr)+Ny[ii]*(Vy[ii]-y_in_curr)) /(Nx[ii]*(x_out_curr-x_in_curr)+Ny[ii]*(y_out_curr-y_in_curr))
                 if t_ii>=0. and t_ii<t_min_curr:
                     t_min_curr=t_ii
@@ -60,6 +62,8 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
                     i_found_curr = ii
 
 
+        if t_min_curr>1.:
+            t_min_curr=1.
         t_min_curr=resc_fac*t_min_curr
         x_int[i_imp]=t_min_curr*x_out_curr+(1.-t_min_curr)*x_in_curr
         y_int[i_imp]=t_min_curr*y_out_curr+(1.-t_min_curr)*y_in_curr
-- 
2.43.0


From 63a9a417f6abce04560c554ecb4da598b1b46478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 05/59] fix: refuse a polygon whose last vertex repeats the
 first

The zero-length check did not look at the closing segment; such a chamber gets a
nan normal and reports most of its inside as outside.
---
 geom_impact_poly_fast_impact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 2bdffaa..1ffbc4c 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -96,7 +96,7 @@ class polyg_cham_geom_object(object):
                 self.tau_segments = np.squeeze(dict_chm['tau_segments'])
 
 
-        if np.any(np.sqrt(np.diff(Vx)**2 + np.diff(Vy)**2) < 1e-9):
+        if np.any(np.sqrt((np.roll(Vx, -1) - Vx)**2 + (np.roll(Vy, -1) - Vy)**2) < 1e-9):
             raise PyECLOUD_ChamberException('There is a zero length segment!')
 
         self.N_vert = len(Vx)
-- 
2.43.0


From 6969ecbc188cc3725a762496359ed89637456a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 06/59] fix: keep the segment defaults of one cloud out of the
 shared chamber

np.float64(array) does not copy, so filling in the defaults of the first cloud
overwrote the table of the chamber and every later cloud used those defaults.
---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..c2ff36c 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=float)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=float)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=float)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From 70a38178850ef5e65a78da2eaaf26c45a564ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 07/59] fix: load the SEY file that was found

Names relative to the home directory or to the sey_files folder were found and
then opened under the unresolved name.
---
 sec_emission_model_from_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..696b6f7 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
-- 
2.43.0


From 18b7599898b18040ba852982dd0401262e891112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 08/59] fix: use the exact spacing of the SEY table

The spacing was rounded to 1 meV: with a spacing that is not a multiple of that
the interpolation drifted away from the nodes and ran off the end of the table.
---
 sec_emission_model_from_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index 696b6f7..8fe131b 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -114,6 +114,8 @@ class SEY_model_from_file(SEY_model_ECLOUD):
         delta_e = diff_e[0]
         if np.any(diff_e != delta_e):
             raise ValueError('Energy in file %s is not equally spaced.' % sey_file_real)
+        # the rounded value would shift the high-energy nodes of finely sampled tables
+        delta_e = (energy_eV[-1] - energy_eV[0]) / (len(energy_eV) - 1)
 
         # sey_diff is needed by the interp function
         # A 0 is appended because this last element is never needed but the array must have the correct shape
-- 
2.43.0


From 38c96a8e5e06418e730a5e0f99a836ffc75afa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 09/59] fix: emit single Furman-Pivi true secondaries away from
 the wall

When no impact of a batch produced two or more secondaries the velocities of the
single ones were not replaced: they kept the velocity of the impact, into the wall.
---
 sec_emission_model_furman_pivi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..c6d17c0 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,6 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
@@ -492,6 +489,10 @@ class SEY_model_furman_pivi():
                 else:
                     i_seg_new_MPs = None
 
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
             # Handle absorbed MPs
             flag_truesec_and_zero = flag_truesec & (n_emit_truesec_MPs == 0)
             nel_replace[flag_truesec_and_zero] = 0.0
-- 
2.43.0


From 9475abd63cf6cab78fc534acd7d44f35a2422240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 10/59] fix: keep the true-secondary part of the
 flat-low-energy yield apart from the total

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From 77688a8d5fdbadb52c8720898d72cbcab8316fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 11/59] fix: use every order of the normal and skew multipole
 lists

---
 dynamics_Boris_multipole.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dynamics_Boris_multipole.py b/dynamics_Boris_multipole.py
index e024762..1c29e29 100644
--- a/dynamics_Boris_multipole.py
+++ b/dynamics_Boris_multipole.py
@@ -73,12 +73,17 @@ class pusher_Boris_multipole():
 
         # B_multip are derivatives of B_field
         # B_field are field strengths at x=1 m, y=0
-        factorial = np.array([math.factorial(ii) for ii in range(len(B_multip))], dtype=float)
-        self.B_field = np.array(B_multip, dtype=float) / factorial
         if B_skew is None:
-            self.B_field_skew = np.zeros_like(self.B_field, dtype=float)
-        else:
-            self.B_field_skew = np.array(B_skew, dtype=float) / factorial
+            B_skew = []
+        # normal and skew components are used up to the same (highest) order
+        n_orders = max(len(B_multip), len(B_skew))
+        factorial = np.array([math.factorial(ii) for ii in range(n_orders)], dtype=float)
+        self.B_field = np.zeros(n_orders, dtype=float)
+        self.B_field[:len(B_multip)] = B_multip
+        self.B_field /= factorial
+        self.B_field_skew = np.zeros(n_orders, dtype=float)
+        self.B_field_skew[:len(B_skew)] = B_skew
+        self.B_field_skew /= factorial
 
         self.B0x = B0x
         self.B0y = B0y
-- 
2.43.0


From 60b853328eeb8b30ebe1f29b90d0c8c17a42e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 12/59] fix: recognise the analytic quadrupole field by its
 name

---
 dynamics_Boris_f2py.py           | 2 +-
 dynamics_strong_B_generalized.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamics_Boris_f2py.py b/dynamics_Boris_f2py.py
index 1f30fa3..57759a2 100644
--- a/dynamics_Boris_f2py.py
+++ b/dynamics_Boris_f2py.py
@@ -152,7 +152,7 @@ class pusher_Boris():
         if B_map_file is None:
             self.B_ob = B_none(B0x, B0y, B0z)
 
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.B_ob = B_quad(B0x, B0y, B0z, fact_Bmap)
 
diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 3abcf84..d766bd6 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file is 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From bda92d69cee5ab26fdfa18dd9d5e8b2532ebeede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 13/59] fix: default uniform fields and required threshold of
 the generalized strong-field tracker

---
 doc/reference/src/reference.tex | 2 +-
 init.py                         | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/doc/reference/src/reference.tex b/doc/reference/src/reference.tex
index 2d88b91..3386b0e 100644
--- a/doc/reference/src/reference.tex
+++ b/doc/reference/src/reference.tex
@@ -411,7 +411,7 @@ Scaling factor applied to the magnetic field map.
 \textbf{B0x, B0y, B0z} & (optional -- default = 0) \newline
 [T] Uniform magnetic fields added to the map.
 \\ \hline
-\textbf{B\_zero\_thrld} & [T] Value below which the local magnetic field is approximated with 0.
+\textbf{B\_zero\_thrhld} & [T] Value below which the local magnetic field is approximated with 0.
 \\ \hline
 \multicolumn{2}{p{.97\textwidth}}{When track\_method = `BorisMultipole', N\_sub\_steps and B\_multip must be provided, while B\_skew is optional:}\\ \hline
 \textbf{N\_sub\_steps} & Number of tracking sub-steps per time step.\\ \hline
diff --git a/init.py b/init.py
index 0485389..5555c8c 100644
--- a/init.py
+++ b/init.py
@@ -507,7 +507,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBgen tracking method is implemented only for electrons!')
-            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
+            if cc.B_zero_thrhld is None:
+                raise inp_spec.PyECLOUD_ConfigException("B_zero_thrhld must be provided when track_method is 'StrongBgen'!")
+            temp_B0x = 0. if cc.B0x is None else cc.B0x
+            temp_B0y = 0. if cc.B0y is None else cc.B0y
+            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, temp_B0x, temp_B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
             dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
-- 
2.43.0


From 7738fd91dba6b539073c1e259f9d4caa3c2897d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 14/59] fix: use each cloud's own number of sub-steps in the
 multipole tracker

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 5555c8c..038cc35 100644
--- a/init.py
+++ b/init.py
@@ -514,7 +514,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, temp_B0x, temp_B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 2ee0507b0d7706811b61edf4b496286cb87443d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 15/59] fix: avoid cancellation in the generalized strong-field
 tracker at small gyration angles

---
 dynamics_strong_B_generalized.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index d766bd6..5b4548c 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -153,18 +153,20 @@ class pusher_strong_B_generalized():
             omegac = B_mod * qm
             sinwcDt = sin(omegac * self.Dt)
             coswcDt = cos(omegac * self.Dt)
+            # 1 - cos(omegac * Dt), without cancellation for small angles
+            onemcos = 2. * sin(0.5 * omegac * self.Dt)**2
 
             vB_Bmod = (vxn * By_n - vyn * Bx_n) / B_mod
             EB_Bmodsq = (Ex_n * By_n - Ey_n * Bx_n) / (B_mod * B_mod)
 
-            Dz = vzn * sinwcDt / omegac + vB_Bmod * coswcDt / omegac + \
-                EB_Bmodsq * (self.Dt - sinwcDt / omegac) - vB_Bmod / omegac
+            Dz = vzn * sinwcDt / omegac - vB_Bmod * onemcos / omegac + \
+                EB_Bmodsq * (self.Dt - sinwcDt / omegac)
 
-            Dz_tilde = (vzn * (1 - coswcDt) + vB_Bmod * sinwcDt) / (omegac * omegac) + \
-                EB_Bmodsq * (self.Dt * self.Dt / 2. + (coswcDt - 1.) / (omegac * omegac)) \
+            Dz_tilde = (vzn * onemcos + vB_Bmod * sinwcDt) / (omegac * omegac) + \
+                EB_Bmodsq * (self.Dt * self.Dt / 2. - onemcos / (omegac * omegac)) \
                 - vB_Bmod * self.Dt / omegac
 
-            vzn1 = vzn * coswcDt - vB_Bmod * sinwcDt + EB_Bmodsq * (1. - coswcDt)
+            vzn1 = vzn * coswcDt - vB_Bmod * sinwcDt + EB_Bmodsq * onemcos
             vxn1 = vxn - qm * (Ex_n * self.Dt - By_n * Dz)
             vyn1 = vyn - qm * (Ey_n * self.Dt + Bx_n * Dz )
 
-- 
2.43.0


From 8f2355308e3ff455c821a0fdd767701c9d0e2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 16/59] fix: longitudinal displacement of the generalized
 strong-field tracker at small gyration angles

---
 dynamics_strong_B_generalized.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 5b4548c..654f994 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -51,7 +51,7 @@
 #-End-preamble---------------------------------------------------------
 
 
-from numpy import sqrt, sin, cos, squeeze, sum
+from numpy import sqrt, sin, cos, squeeze, sum, where
 import scipy.io as sio
 from . import int_field_for as iff
 
@@ -155,12 +155,15 @@ class pusher_strong_B_generalized():
             coswcDt = cos(omegac * self.Dt)
             # 1 - cos(omegac * Dt), without cancellation for small angles
             onemcos = 2. * sin(0.5 * omegac * self.Dt)**2
+            # 1 - sin(omegac * Dt) / (omegac * Dt), likewise
+            theta = omegac * self.Dt
+            onemsinc = where(theta < 1e-3, theta * theta / 6., 1. - sinwcDt / theta)
 
             vB_Bmod = (vxn * By_n - vyn * Bx_n) / B_mod
             EB_Bmodsq = (Ex_n * By_n - Ey_n * Bx_n) / (B_mod * B_mod)
 
             Dz = vzn * sinwcDt / omegac - vB_Bmod * onemcos / omegac + \
-                EB_Bmodsq * (self.Dt - sinwcDt / omegac)
+                EB_Bmodsq * self.Dt * onemsinc
 
             Dz_tilde = (vzn * onemcos + vB_Bmod * sinwcDt) / (omegac * omegac) + \
                 EB_Bmodsq * (self.Dt * self.Dt / 2. - onemcos / (omegac * omegac)) \
-- 
2.43.0


From 6a3b0160da302a867734944c6cd92e8a190bedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 17/59] fix: keep the histogram kernel inside its array for
 entries below the first grid point

---
 compute_hist.f | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compute_hist.f b/compute_hist.f
index c827f15..7fd9d4e 100644
--- a/compute_hist.f
+++ b/compute_hist.f
@@ -38,7 +38,9 @@ Cf2py intent(inout) hist
 		!write (*,*) 'Nxg=', Nxg
 		!write (*,*) 'i=', i
 
-		if (i<Nxg) then
+		if (i<1) then
+        	hist(1) = hist(1) + wei_mp_curr
+		else if (i<Nxg) then
         	hist(i) = hist(i) + wei_mp_curr*(1-hx);
         	hist(i+1) = hist(i+1) + wei_mp_curr*hx;
         	else
-- 
2.43.0


From 9e03b4cd98f449a9be52858baf89998b5763a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 18/59] fix: look for the profile of a secondary beam under its
 own name

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 038cc35..e361f61 100644
--- a/init.py
+++ b/init.py
@@ -240,7 +240,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From b68ee7cc7261d7555f050603eb124d2f734af5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 19/59] fix: secondary beams without a progress file

---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index e361f61..770c9df 100644
--- a/init.py
+++ b/init.py
@@ -237,6 +237,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 print('Initialize secondary beam %d/%d' % (ii + 1, N_sec_beams))
                 sb_par = sec_b_par_list[ii]
 
+                if cc.progress_path is not None:
+                    progress_mapgen_file_sec = cc.progress_path + ('_mapgen_sec_%d' % ii)
+                else:
+                    progress_mapgen_file_sec = None
+
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=progress_mapgen_file_sec))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From 71ff9a8a65a3674e57ef41adbd2a6f06b17c7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 20/59] fix: use each cloud's own settings for its impact
 histograms

---
 init.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/init.py b/init.py
index 770c9df..e65313c 100644
--- a/init.py
+++ b/init.py
@@ -411,16 +411,16 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('Warning: You cannot enable flag_hist_impact_seg for an ellip chamber --> disabled!')
             flag_seg = False
 
-        if cc.flag_lifetime_hist:
-            if cc.Nbin_lifetime_hist is None or cc.lifetime_hist_max is None or cc.Dt_lifetime_hist is None:
+        if thiscloud.flag_lifetime_hist:
+            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                 raise inp_spec.PyECLOUD_ConfigException(
                         'If flag_lifetime_hist is True then all the histogram parameters must be specified')
 
         impact_man = imc.impact_management(chamb, sey_mod,
-            thiscloud.Dx_hist, thiscloud.scrub_en_th, cc.Nbin_En_hist, cc.En_hist_max,
-            cc.Nbin_lifetime_hist, cc.lifetime_hist_max, cc.flag_lifetime_hist,
+            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
+            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
             flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
-            cos_angle_width=cc.cos_angle_width)
+            cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
-- 
2.43.0


From 0d77a51a1d0ed814746ed8439e43c21686faceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 21/59] fix: do not check the lower regeneration threshold
 before t_ON_regen_low

---
 MP_system.py          | 4 ++--
 buildup_simulation.py | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 930127a..6a5ffdf 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -230,9 +230,9 @@ class MP_system:
                 if self.N_mp > self.N_mp_async_regen:
                     self.perform_soft_regeneration(target_N_mp=self.N_mp_after_async_regen)
 
-    def check_for_regeneration(self):
+    def check_for_regeneration(self, flag_check_low=True):
 
-        if (self.N_mp > self.N_mp_regen or (self.N_mp < self.N_mp_regen_low and self.nel_mp_ref > self.nel_mp_ref_0)):
+        if (self.N_mp > self.N_mp_regen or (flag_check_low and self.N_mp < self.N_mp_regen_low and self.nel_mp_ref > self.nel_mp_ref_0)):
             chrg = np.sum(self.nel_mp)
             erg = np.sum(0.5 / np.abs(self.charge / self.mass) * self.nel_mp[0:self.N_mp] * (self.vx_mp[0:self.N_mp] * self.vx_mp[0:self.N_mp] + self.vy_mp[0:self.N_mp] * self.vy_mp[0:self.N_mp] + self.vz_mp[0:self.N_mp] * self.vz_mp[0:self.N_mp]))
             print('Cloud %s: Start regeneration. N_mp=%d Nel_tot=%1.2e En_tot=%1.2e'%(self.name, self.N_mp, chrg, erg))
diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..442dc51 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -466,7 +466,11 @@ class BuildupSimulation(object):
 
                 if not skip_MP_regen:
                     ## Regeneration
-                    cloud.MP_e.check_for_regeneration()
+                    cloud.MP_e.check_for_regeneration(
+                        flag_check_low=(
+                            beamtim.tt_curr >= cloud.config_dict.t_ON_regen_low
+                        )
+                    )
 
                     ## Soft regeneration
                     cloud.MP_e.check_for_soft_regeneration()
-- 
2.43.0


From 271f755289be3a0c476d7a21a94f23071239bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 22/59] fix: track the clouds with the time step of a uniform
 beam profile from file

The profile's time step replaces the input's Dt in the timeline, but trackers,
secondary beams and savers were still built with the input's Dt.
---
 init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/init.py b/init.py
index e65313c..4cfcd64 100644
--- a/init.py
+++ b/init.py
@@ -227,6 +227,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                          x_beam_pos=b_par.x_beam_pos, y_beam_pos=b_par.y_beam_pos, save_beam_field_file_as=b_par.save_beam_field_file_as,
                                          Nx=b_par.Nx, Ny=b_par.Ny, nimag=b_par.nimag, progress_mapgen_file=progress_mapgen_file)
         
+        # A uniform time step found in a beam profile from file replaces the one in the input
+        cc.Dt = beamtim.Dt
+
         if beamtim.N_pass_tot % cc.save_mat_every != 0:
             raise ValueError("Variable save_mat_every=" + str(cc.save_mat_every) + " does not divide the total number of passages=" + str(beamtim.N_pass_tot))
 
-- 
2.43.0


From 024cc8d689f7c161a00598d7171c3c9ce70e26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 23/59] fix: at least one sub-step in the short steps of a
 non-uniform profile

A step of a non-uniform profile shorter than half a sub-step was divided into
zero sub-steps (ZeroDivisionError).
---
 buildup_simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 442dc51..7ea6662 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -320,7 +320,9 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            N_substeps_curr = max(
+                int(np.round(beamtim.Dt_curr / Dt_substep_target)), 1
+            )
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From 75bdb31a42b31af79735ad44a180711ca0fcee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 24/59] fix: field of a round beam (sigmax = sigmay) in the
 Bassetti-Erskine formula

---
 BassErsk.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 53a7601..8fbf119 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -17,7 +17,19 @@ def BassErsk(xin, yin, sigmax, sigmay):
 
     eps0 = 8.854187817620e-12
 
-    if sigmax > sigmay:
+    if sigmax == sigmay:
+
+        # round beam (the general formula is singular)
+        r2 = xin * xin + yin * yin
+        if r2 > 0:
+            factBE = -expm1(-r2 / (2 * sigmax * sigmax)) / (2 * pi * eps0 * r2)
+        else:
+            factBE = 0.
+
+        Ex = factBE * xin
+        Ey = factBE * yin
+
+    elif sigmax > sigmay:
 
         S = sqrt(2 * (sigmax * sigmax - sigmay * sigmay))
         factBE = 1 / (2 * eps0 * sqrt(pi) * S)
-- 
2.43.0


From ce4f365c5fc2fd2ffc7dd0d25487c6f3c65ca9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 25/59] fix: image terms of the beam field in elliptical
 chambers taller than wide

---
 BassErsk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BassErsk.py b/BassErsk.py
index 8fbf119..a5797ae 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -60,6 +60,11 @@ def ImageTerms(x, y, a, b, x0, y0, nimag):
 
     eps0 = 8.854187817620e-12
 
+    if b > a:
+        # the formula is written for an ellipse with the major axis along x
+        Ey, Ex = ImageTerms(y, x, b, a, y0, x0, nimag)
+        return Ex, Ey
+
     if abs((a - b) / a) > 1e-3:
         g = sqrt(a * a - b * b)
 
-- 
2.43.0


From 546c1dae6b73b1b25bf42be174006a2f2a06c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 26/59] fix: do not round the energy step of cross-section
 tables

---
 cross_ionization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cross_ionization.py b/cross_ionization.py
index d16362e..efcddf4 100644
--- a/cross_ionization.py
+++ b/cross_ionization.py
@@ -142,7 +142,8 @@ class Ionization_Process(object):
             else:
                 flag_log = True
 
-        self.delta_x_interp = delta_x_interp
+        # the rounded step would shift the entries of a long table
+        self.delta_x_interp = (x_interp[-1] - x_interp[0]) / (len(x_interp) - 1)
         self.x_interp_min = x_interp_min
         self.flag_log = flag_log
 
-- 
2.43.0


From e78fb3aca3ffd35bd78a59554d4f1aed5be29250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 27/59] fix: save the last sample of the electron density
 probes

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..2e7df76 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -894,7 +894,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From e81284db0e6c7bc2e46e3e3c86c014f6a32d41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 28/59] fix: folder of the density movie of a cloud when the
 output goes to another folder

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2e7df76..9f3fff1 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1057,7 +1057,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1070,7 +1070,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 658065d41c6f27a2ad937ccd7299a6ed1cb4a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 29/59] fix: empty detailed histogram when no macroparticle is
 left

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 9f3fff1..cf89e19 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -378,6 +378,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -388,8 +390,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From a1061b30909bb6d7b4977491800213eece1e1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 30/59] fix: saved bins of the impact angle histogram when
 cos_angle_width does not divide one

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index cf89e19..e0c3530 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1155,7 +1155,7 @@ class pyecloud_saver:
         if flag_cos_angle_hist:
             N_angles = int(1. / cos_angle_width) + 1
             self.cos_angle_hist = []
-            self.xg_hist_cos_angle = np.linspace(0., 1., N_angles)
+            self.xg_hist_cos_angle = np.arange(N_angles) * cos_angle_width
         else:
             self.cos_angle_hist = -1
             self.xg_hist_cos_angle = -1
-- 
2.43.0


From 0fd7b54733c13bc6e759c21c1ec58b6604f64b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 31/59] fix: do not count the field grid set-up among the
 macroparticle impacts

---
 init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/init.py b/init.py
index 4cfcd64..45e554d 100644
--- a/init.py
+++ b/init.py
@@ -561,6 +561,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
     else:
         cross_ion = None
 
+    # Setting up the field grids uses the chamber, count only macroparticles from here on
+    chamb.N_mp_impact = 0
+    chamb.N_mp_corrected = 0
 
     return (beamtim,
             spacech_ele_sim,
-- 
2.43.0


From bb5705ada58050f6b2c06eb713f3d3596f9ef04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 32/59] fix: restore the whole recorded history when resuming
 from a checkpoint

The time bases of the histograms were mixed up, two list entries were merged by a
missing comma, the last sample was dropped, and density probes, energies of the
cloud fields, histograms of the segments and custom data of the passages were
left out or not cut at the checkpoint.
---
 pyecloud_saver.py | 142 +++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 84 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index e0c3530..5a67911 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -587,11 +587,20 @@ class pyecloud_saver:
         ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
         dict_history = mlm.obj_to_dict(ob)
 
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
+        # Number of entries recorded up to the checkpoint for each of the time bases
+        # (the rest of Pyecltest.mat was recorded after the last checkpoint)
+        def n_until_last_t(name_t):
+            if name_t not in list(dict_history.keys()):
+                return 0
+            return int(np.sum(np.atleast_1d(dict_history[name_t]) <= last_t))
+
+        def recorded(var, name_t):
+            data = np.array(dict_history[var])
+            # the first axis is lost in the file when there is only one entry
+            if np.size(dict_history[name_t]) == 1:
+                data = data[np.newaxis]
+            return data[:n_until_last_t(name_t)]
 
-        # Delete everything in Pyecltest.mat recorded after the last checkpoint
         saved_every_timestep_list = ['En_emit_eV_time',
                                      'En_imp_eV_time',
                                      'En_kin_eV_time',
@@ -608,89 +617,54 @@ class pyecloud_saver:
                                      'En_electric_eV_time',
                                      't']
 
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
-                                    'N_mp_impact_pass',
-                                    'N_mp_pass',
-                                    'N_mp_ref_pass',
-                                    'energ_eV_impact_hist',
-                                    'energ_eV_impact_seg',
-                                    'nel_hist',
-                                    'nel_hist_det',
-                                    'nel_hist_impact_seg',
-                                    'nel_hist_emit_seg',
-                                    'nel_impact_hist_scrub',
-                                    'nel_impact_hist_tot',
-                                    'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
-                                    't_lifetime_hist']
-
-        not_time_dependent_list = ['xg_hist',
-                                   'xg_hist_det',
-                                   'En_g_hist',
-                                   'b_spac',
-                                   't_sec_beams',
-                                   'sec_beam_profiles',
-                                   'x_el_dens_probes',
-                                   'y_el_dens_probes',
-                                   'r_el_dens_probes',
-                                   'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
-                                   'dec_fact_out',
-                                   'chamber_area',
-                                   'sey_test_del_true_mat',
-                                   'sey_test_E_impact_eV',
-                                   'sey_test_del_elast_mat',
-                                   'del_rediff_mat',
-                                   'sey_test_cos_theta',
-                                   'ene_dist_test_cos_theta',
-                                   'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
-                                   ]
+        saved_lists = {
+            't_hist': ['t_hist',
+                       'N_mp_corrected_pass',
+                       'N_mp_impact_pass',
+                       'N_mp_pass',
+                       'N_mp_ref_pass',
+                       'energ_eV_impact_hist',
+                       'energ_eV_impact_seg',
+                       'nel_hist',
+                       'nel_hist_det',
+                       'nel_hist_impact_seg',
+                       'nel_hist_emit_seg',
+                       'nel_impact_hist_scrub',
+                       'nel_impact_hist_tot'],
+            't_En_hist': ['t_En_hist',
+                          'En_hist',
+                          'all_Ekin_hist',
+                          'cos_angle_hist'],
+            't_lifetime_hist': ['t_lifetime_hist',
+                                'lifetime_hist'],
+            't_sc_video': ['t_sc_video',
+                           'U_sc_eV']}
+
+        # Quantities that are not recorded in this simulation are left as initialized
 
-        if self.flag_lifetime_hist:
-            not_time_dependent_list.append('lifetime_g_hist')
-
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
-                               'y_el_dens_probes',
-                               'r_el_dens_probes'
-                               ]
-
-        dict_restored = {}
         for var in saved_every_timestep_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var]
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t]
-        self.i_last_save = len(dict_restored['Nel_timep']) - 1
-
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
-
-        for var in not_time_dependent_list:
-            if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var]
+            if var in list(dict_history.keys()) and isinstance(getattr(self, var), np.ndarray):
+                setattr(self, var, recorded(var, 't'))
+        self.i_last_save = len(self.Nel_timep) - 1
 
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
-
-        # Restore this pyecloud_saver object with values from dict_restored
-        for var in list(dict_restored.keys()):
-            setattr(self, var, dict_restored[var])
+        if self.flag_el_dens_probes:
+            probes = np.reshape(dict_history['el_dens_at_probes'], (self.N_el_dens_probes, -1))
+            self.el_dens_at_probes = probes[:, :self.i_last_save + 1]
+
+        for name_t in list(saved_lists.keys()):
+            for var in saved_lists[name_t]:
+                if var in list(dict_history.keys()) and isinstance(getattr(self, var, None), list):
+                    setattr(self, var, list(recorded(var, name_t)))
+
+        if isinstance(self.En_hist_seg, list):
+            n_seg = len(self.En_hist_seg)
+            n_hist = np.size(dict_history['t_En_hist'])
+            En_hist_seg = np.reshape(dict_history['En_hist_seg'], (n_seg, n_hist, -1))
+            for iseg in range(n_seg):
+                self.En_hist_seg[iseg] = list(En_hist_seg[iseg, :n_until_last_t('t_En_hist')])
+
+        for kk in list(self.pbp_custom_data.keys()):
+            self.pbp_custom_data[kk] = list(recorded(kk, 't_hist'))
 
     def _stepbystep_check_for_data_resize(self):
         if self.i_last_save >= (len(self.t) - 1):
-- 
2.43.0


From 3f31658d36ba4882d8a1a8defa999aa382d80f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 33/59] fix: keep the clocks and running sums of the savers of
 all clouds in checkpoints

The start of the time bases, the sums over the steps between samples and the
numbers of the saved states were lost in a checkpoint; the time of the last energy
histogram of the last cloud was given to all clouds.
---
 buildup_simulation.py |  6 +++++-
 pyecloud_saver.py     | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 7ea6662..315dd9c 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -546,8 +546,12 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
+        for i_cloud, cloud in enumerate(self.cloud_list):
             cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
             cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
+            if "saver_states" in dict_state:
+                saver_state = dict_state["saver_states"][i_cloud]
+                for name in list(saver_state.keys()):
+                    setattr(cloud.pyeclsaver, name, saver_state[name])
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5a67911..173e68c 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -573,6 +573,19 @@ class pyecloud_saver:
             if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
+    def get_running_state(self):
+        # What goes on from one step to the next and is not in the output file
+        members = ['t_last_save',
+                   'Nel_impact_last_step_group',
+                   'Nel_emit_last_step_group',
+                   'En_imp_last_step_group_eV',
+                   'En_emit_last_step_group_eV',
+                   't_last_En_hist',
+                   't_last_lifetime_hist',
+                   'i_obs',
+                   'i_obs_sim']
+        return {mm: getattr(self, mm) for mm in members if hasattr(self, mm)}
+
     def load_from_output(self, last_t=None):
 
         if self.step_by_step_custom_observables is not None:
@@ -948,8 +961,10 @@ class pyecloud_saver:
 
             # remove savers
             temp_saver_list = []
+            saver_states = []
             for cloud in cloud_list:
                 temp_saver_list.append(cloud.pyeclsaver)
+                saver_states.append(cloud.pyeclsaver.get_running_state())
                 cloud.pyeclsaver = 'removed'
 
             dict_state = {
@@ -960,6 +975,7 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
+                'saver_states': saver_states,
                 't_last_En_hist': self.t_last_En_hist}
 
             if self.flag_lifetime_hist:
-- 
2.43.0


From 937844e456e85ab8d64ed0148e030a600f164c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 34/59] fix: save and reload states with electromagnetic
 tracking

Saving failed on the inexistent state_As, and the vector potentials were not kept.
---
 buildup_simulation.py |  6 ------
 pyecloud_saver.py     | 20 --------------------
 2 files changed, 26 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 315dd9c..8e7dd84 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -521,12 +521,6 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
-        if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
-            self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
-
         print("Done reload.")
         return dict_state
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 173e68c..fd02567 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -946,19 +946,6 @@ class pyecloud_saver:
             spacech_ele.luobj = None
             spacech_ele.PyPICobj.luobj = None
 
-            if spacech_ele.flag_em_tracking:
-                temp_state_Ax = spacech_ele.state_Ax
-                temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
-                temp_state_Ax_old = spacech_ele.state_Ax_old
-                temp_state_Ay_old = spacech_ele.state_Ay_old
-                spacech_ele.state_Ax = None
-                spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
-                spacech_ele.state_Ax_old = None
-                spacech_ele.state_Ay_old = None
-
-
             # remove savers
             temp_saver_list = []
             saver_states = []
@@ -991,13 +978,6 @@ class pyecloud_saver:
 
             spacech_ele.PyPICobj.luobj = temp_luobj
 
-            if spacech_ele.flag_em_tracking:
-                spacech_ele.state_Ax = temp_state_Ax
-                spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
-                spacech_ele.state_Ax_old = temp_state_Ax_old
-                spacech_ele.state_Ay_old = temp_state_Ay_old
-
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-- 
2.43.0


From 1bf0e8f8f80dc83d4e19932d8c88b4c06601f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 35/59] fix: complete the time step at which a state was saved
 when reloading it

States are saved before the cleaning and regeneration of the step, which the
resumed run then skipped.
---
 buildup_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 8e7dd84..5fff42a 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -521,6 +521,11 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
+        # States are saved before the cleaning and regeneration that end the time step
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
+
         print("Done reload.")
         return dict_state
 
-- 
2.43.0


From 74b362048b89a6dd36c88981be2a6ad8d0027248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 36/59] fix: write the output needed by a checkpoint whatever
 save_mat_every

---
 pyecloud_saver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index fd02567..3c8eba3 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -307,7 +307,8 @@ class pyecloud_saver:
             self.b_spac = beamtim.b_spac
             self.area = impact_man.chamb.area
 
-            if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
+            # A checkpoint needs the output recorded so far
+            if (beamtim.pass_numb + 1) % self.save_mat_every == 0 or self._is_time_for_checkpoint(beamtim):
                 sio.savemat(self.filen_main_outp, self.build_outp_dict(buildup_sim), oned_as='row')
 
             # Check for checkpoint save state
@@ -524,6 +525,9 @@ class pyecloud_saver:
             if not os.path.isdir(self.checkpoint_folder):
                 os.makedirs(self.checkpoint_folder)
 
+    def _is_time_for_checkpoint(self, beamtim):
+        return self.flag_save_checkpoint and (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT)
+
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                          sec_beams_list, flag_multiple_clouds, cloud_list):
         # First check if it is time to save a checkpoint
-- 
2.43.0


From dcc402e631e135e38382e89768df7d52069bc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 37/59] fix: keep the state of the cross-ionization in saved
 states

After reloading, the targets were back at their initial density and the charges
generated since the last sample were lost.
---
 buildup_simulation.py |  4 ++++
 pyecloud_saver.py     | 15 ++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 5fff42a..d3b5cce 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -498,6 +498,10 @@ class BuildupSimulation(object):
 
         self.flag_multiple_clouds = dict_state["flag_multiple_clouds"]
 
+        if dict_state.get("cross_ion") is not None:
+            # Density of the targets and what happened since the last sample
+            self.cross_ion = dict_state["cross_ion"]
+
         for i_cloud, new_cloud in enumerate(self.cloud_list):
             new_pyeclsaver = new_cloud.pyeclsaver
             self.cloud_list[i_cloud] = dict_state["cloud_list"][
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 3c8eba3..92e461a 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -268,7 +268,7 @@ class pyecloud_saver:
 
         # Check for simulation save state
         self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                             sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
         # Check for save video charge density
         self._rho_video_save(spacech_ele, beamtim, rho_cloud)
@@ -313,7 +313,7 @@ class pyecloud_saver:
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                  sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                                  sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
             self._copy_main_outp_save(beamtim)
 
@@ -529,7 +529,7 @@ class pyecloud_saver:
         return self.flag_save_checkpoint and (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT)
 
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                         sec_beams_list, flag_multiple_clouds, cloud_list):
+                         sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
@@ -537,7 +537,7 @@ class pyecloud_saver:
                 outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
@@ -942,7 +942,7 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile, cross_ion=None):
 
         if self.flag_last_cloud:
 
@@ -966,6 +966,7 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
+                'cross_ion': cross_ion,
                 'saver_states': saver_states,
                 't_last_En_hist': self.t_last_En_hist}
 
@@ -985,7 +986,7 @@ class pyecloud_saver:
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                        sec_beams_list, flag_multiple_clouds, cloud_list):
+                        sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         #Simulation state save
         if self.flag_save_simulation_state:
             if self.i_obs_sim < self.N_obs_sim:
@@ -994,7 +995,7 @@ class pyecloud_saver:
                     outpath = self.folder_outp + '/' + filename_simulation_state
 
                     self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
 
                     self.i_obs_sim = self.i_obs_sim + 1
 
-- 
2.43.0


From 4be59e9dbb220ec1bfa293b5aec741be02816c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 38/59] fix: back up the output before writing a checkpoint

A run killed between the two was restarted with an older backup, without the
history in between.
---
 pyecloud_saver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 92e461a..e1f17b1 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -536,10 +536,12 @@ class pyecloud_saver:
 
                 outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
-                self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
+                # The output comes first: what is recorded after a checkpoint can be removed
+                # when restarting from it, what is missing cannot be recovered
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
+                self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
 
                 if self.i_checkp > 0:
                     if self.flag_last_cloud:
-- 
2.43.0


From e1fa4aeff986588d179087c1edf30700950d3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 39/59] fix: refuse to resume from an incompletely written
 output file

A truncated output file is read without an error; the missing quantities restarted
from nothing.
---
 pyecloud_saver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index e1f17b1..b802c11 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -609,8 +609,6 @@ class pyecloud_saver:
         # Number of entries recorded up to the checkpoint for each of the time bases
         # (the rest of Pyecltest.mat was recorded after the last checkpoint)
         def n_until_last_t(name_t):
-            if name_t not in list(dict_history.keys()):
-                return 0
             return int(np.sum(np.atleast_1d(dict_history[name_t]) <= last_t))
 
         def recorded(var, name_t):
@@ -662,7 +660,7 @@ class pyecloud_saver:
         # Quantities that are not recorded in this simulation are left as initialized
 
         for var in saved_every_timestep_list:
-            if var in list(dict_history.keys()) and isinstance(getattr(self, var), np.ndarray):
+            if isinstance(getattr(self, var), np.ndarray):
                 setattr(self, var, recorded(var, 't'))
         self.i_last_save = len(self.Nel_timep) - 1
 
@@ -672,7 +670,7 @@ class pyecloud_saver:
 
         for name_t in list(saved_lists.keys()):
             for var in saved_lists[name_t]:
-                if var in list(dict_history.keys()) and isinstance(getattr(self, var, None), list):
+                if isinstance(getattr(self, var, None), list):
                     setattr(self, var, list(recorded(var, name_t)))
 
         if isinstance(self.En_hist_seg, list):
-- 
2.43.0


From 7b43016d070a554b75d667e785bbd94a4cc0f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 40/59] fix: checkpoint folders given without the final slash

Checkpoints were written next to the folder and never found again.
---
 buildup_simulation.py | 2 +-
 pyecloud_saver.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d3b5cce..c10c11d 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -119,7 +119,7 @@ class BuildupSimulation(object):
                     checkpoint = os.listdir(self.checkpoint_folder)[0]
                     self.load_checkpoint(
                         filename_simulation_checkpoint=checkpoint,
-                        load_from_folder=self.checkpoint_folder,
+                        load_from_folder=self.checkpoint_folder + "/",
                     )
                 elif len(os.listdir(self.checkpoint_folder)) == 0:
                     print("No checkpoint found, starting new simulation...")
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index b802c11..f1d677c 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -534,7 +534,7 @@ class pyecloud_saver:
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
 
-                outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+                outpath = self.checkpoint_folder + '/simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
                 # The output comes first: what is recorded after a checkpoint can be removed
                 # when restarting from it, what is missing cannot be recovered
@@ -545,7 +545,7 @@ class pyecloud_saver:
 
                 if self.i_checkp > 0:
                     if self.flag_last_cloud:
-                        prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
+                        prevpath = self.checkpoint_folder + '/simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
                         os.remove(prevpath)
                         print('Removed simulation checkpoint in: ' + prevpath)
 
-- 
2.43.0


From f37ddf9eb7a7c8fb6c4ea6273152ae6824aba78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 41/59] fix: immutable default for B_multip

---
 default_input_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default_input_parameters.py b/default_input_parameters.py
index 0d83abc..f1c8823 100644
--- a/default_input_parameters.py
+++ b/default_input_parameters.py
@@ -154,7 +154,7 @@ parameters_dict = {
             'B0z': None,
             'B_zero_thrhld': None,
             'N_sub_steps': 1,
-            'B_multip': [],
+            'B_multip': (),
             'B_skew': None,
 
             # Optics
-- 
2.43.0


From ce41cbb27e5cb5796791509628c43817cd725566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 42/59] fix: refuse primary generation with unknown flags or
 parameters left out

---
 init.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/init.py b/init.py
index 45e554d..69ab096 100644
--- a/init.py
+++ b/init.py
@@ -92,6 +92,23 @@ from . import input_parameters_format_specification as inp_spec
 from . import cloud_manager as cman
 from . import cross_ionization as cion
 
+def assert_parameters_given(params, names, needed_by):
+    """ Refuses parameters that are still at a default meaning 'not given' (None or -1). """
+    missing = []
+    for name in names:
+        value = getattr(params, name)
+        if value is None or (np.isscalar(value) and value == -1):
+            missing.append(name)
+    if missing:
+        raise inp_spec.PyECLOUD_ConfigException('These parameters are needed for %s: %r' % (needed_by, missing))
+
+
+def assert_photoelectron_energy_given(params):
+    # only the monoenergetic distribution has no width
+    if params.energy_distribution != 'mono':
+        assert_parameters_given(params, ('e_pe_sigma',), 'energy_distribution = %r' % params.energy_distribution)
+
+
 def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False):
     simulation_param_file = 'simulation_parameters.input'
 
@@ -426,21 +443,36 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
+        if thiscloud.gas_ion_flag not in (0, 1):
+            raise inp_spec.PyECLOUD_ConfigException('gas_ion_flag not recognized (choose: 0/1)')
+        if thiscloud.photoem_flag not in (0, 1, 2, 'from_file', 3, 'per_segment'):
+            raise inp_spec.PyECLOUD_ConfigException("photoem_flag not recognized (choose: 0/1/2/'from_file'/3/'per_segment')")
+
         if thiscloud.gas_ion_flag == 1:
+            assert_parameters_given(thiscloud, ('P_nTorr', 'sigma_ion_MBarn', 'Temp_K', 'unif_frac', 'E_init_ion'),
+                                    'gas_ion_flag = 1')
             resgasion = gic.residual_gas_ionization(thiscloud.unif_frac, thiscloud.P_nTorr, thiscloud.sigma_ion_MBarn,
                                                     thiscloud.Temp_K, chamb, thiscloud.E_init_ion, thiscloud.flag_lifetime_hist)
         else:
             resgasion = None
 
         if thiscloud.photoem_flag == 1:
+            assert_parameters_given(thiscloud, ('inv_CDF_refl_photoem_file', 'k_pe_st', 'refl_frac', 'alimit',
+                                                'x0_refl', 'y0_refl', 'out_radius'), 'photoem_flag = 1')
+            assert_photoelectron_energy_given(thiscloud)
             phemiss = gpc.photoemission(thiscloud.inv_CDF_refl_photoem_file, thiscloud.k_pe_st, thiscloud.refl_frac, thiscloud.e_pe_sigma, thiscloud.e_pe_max,
                                         thiscloud.alimit, thiscloud.x0_refl, thiscloud.y0_refl, thiscloud.out_radius, chamb, thiscloud.phem_resc_fac,
                                         thiscloud.energy_distribution, thiscloud.photoelectron_angle_distribution, beamtim, thiscloud.flag_continuous_emission)
         elif thiscloud.photoem_flag in (2, 'from_file'):
+            assert_parameters_given(thiscloud, ('inv_CDF_all_photoem_file', 'k_pe_st', 'out_radius'),
+                                    "photoem_flag = 'from_file'")
+            assert_photoelectron_energy_given(thiscloud)
             phemiss = gpc.photoemission_from_file(thiscloud.inv_CDF_all_photoem_file, chamb, thiscloud.phem_resc_fac, thiscloud.energy_distribution,
                                                   thiscloud.e_pe_sigma, thiscloud.e_pe_max, thiscloud.k_pe_st, thiscloud.out_radius,
                                                   thiscloud.photoelectron_angle_distribution, beamtim, thiscloud.flag_continuous_emission)
         elif thiscloud.photoem_flag in (3, 'per_segment'):
+            assert_parameters_given(thiscloud, ('filename_chm_photoem', 'k_pe_st'), "photoem_flag = 'per_segment'")
+            assert_photoelectron_energy_given(thiscloud)
 
             if os.path.isfile(pyecl_input_folder + '/' + thiscloud.filename_chm_photoem):
                 filename_chm_photoem_path = pyecl_input_folder + '/' + thiscloud.filename_chm_photoem
-- 
2.43.0


From 5ebc8f86b3809786b62c69d830db579158db0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 43/59] fix: refuse secondary emission models whose yield
 parameters are left out

---
 init.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/init.py b/init.py
index 69ab096..99ad628 100644
--- a/init.py
+++ b/init.py
@@ -341,6 +341,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             sey_mod = SEY_model_perfect_absorber()
         else:
 
+            if thiscloud.switch_model in (0, 'ECLOUD', 1, 'ACC_LOW', 'cos_low_ene', 'flat_low_ene'):
+                assert_parameters_given(thiscloud, ('Emax', 'del_max', 'R0'), 'switch_model = %r' % thiscloud.switch_model)
+
             kwargs_secem = {}
             if thiscloud.E0 is not None:
                 kwargs_secem.update({'E0': thiscloud.E0})
-- 
2.43.0


From d9d4391375ab75425bbf9eed66ad2cc25cb961c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 44/59] fix: refuse a dipole field from the energy without
 bending length

---
 init.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/init.py b/init.py
index 99ad628..aad0bb6 100644
--- a/init.py
+++ b/init.py
@@ -540,6 +540,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBdip tracking method is implemented only for electrons!')
             if cc.B == -1:
+                assert_parameters_given(cc, ('bm_totlen',), 'B = -1')
                 B = 2 * np.pi * b_par.beta_rel * b_par.energy_J / (c * qe * cc.bm_totlen)
             else:
                 B = cc.B
-- 
2.43.0


From 3dda41025c26dd58109bfa717cb57f5a9b805d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 45/59] fix: refuse several clouds with the same name

---
 init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/init.py b/init.py
index aad0bb6..7f5199f 100644
--- a/init.py
+++ b/init.py
@@ -191,6 +191,10 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
         for add_cloud_file in cc.additional_clouds_file_list:
             cloud_par_list.append(pcf.cloud_descr_from_file(cloudfilename=os.path.join(pyecl_input_folder, add_cloud_file), default_param_obj=cc))
 
+    cloud_names = [cloud_par.cc.cloud_name for cloud_par in cloud_par_list]
+    if len(set(cloud_names)) < len(cloud_names):
+        raise inp_spec.PyECLOUD_ConfigException('Clouds must have different names: %r' % cloud_names)
+
     # Init chamber
     flag_non_unif_sey = False
     for cloud_par in cloud_par_list:
-- 
2.43.0


From 83bd3b06d14efbbf1f9c8c7445179183517c8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 46/59] fix: refuse electromagnetic tracking without Dt_sc

---
 init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/init.py b/init.py
index 7f5199f..8377e37 100644
--- a/init.py
+++ b/init.py
@@ -302,6 +302,8 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
         if cc.flag_em_tracking:
             if skip_beam:
                 raise ValueError("Beam must be included when using electromagnetic tracking!!")
+            if cc.Dt_sc is None:
+                raise inp_spec.PyECLOUD_ConfigException("Dt_sc must be provided when using electromagnetic tracking!!")
 
             spacech_ele_sim = scc_em.space_charge_electromagnetic(chamb, cc.Dh_sc, b_par.gamma_rel, Dt_sc=cc.Dt_sc, sparse_solver=cc.sparse_solver, PyPICmode=cc.PyPICmode,
                                            f_telescope=cc.f_telescope, target_grid=cc.target_grid, N_nodes_discard=cc.N_nodes_discard, N_min_Dh_main=cc.N_min_Dh_main,
-- 
2.43.0


From 3710f99052a946ed29af0386e8b839cc4ccfdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 47/59] fix: read the parameter files whose names are
 overridden

---
 init.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/init.py b/init.py
index 8377e37..b54aabb 100644
--- a/init.py
+++ b/init.py
@@ -109,13 +109,16 @@ def assert_photoelectron_energy_given(params):
         assert_parameters_given(params, ('e_pe_sigma',), 'energy_distribution = %r' % params.energy_distribution)
 
 
-def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False):
+def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False, file_names={}):
+    """ The entries of file_names replace the names of the input files given in simulation_parameters.input. """
     simulation_param_file = 'simulation_parameters.input'
 
     # Parse simulation_parameters.input
     input_parameters = inp_spec.import_module_from_file('simulation_parameters', os.path.join(pyecl_input_folder, simulation_param_file))
 
     # Get names of other input files
+    for attr, value in file_names.items():
+        setattr(input_parameters, attr, value)
     machine_param_file = input_parameters.machine_param_file
     secondary_emission_parameters_file = input_parameters.secondary_emission_parameters_file
     beam_parameters_file = input_parameters.beam_parameters_file
@@ -147,7 +150,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                          spacech_ele=None,
                                          ignore_kwargs=(), **kwargs):
 
-    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam)
+    file_names = {attr: value for attr, value in kwargs.items() if attr not in ignore_kwargs and attr in (
+        'machine_param_file', 'secondary_emission_parameters_file', 'beam_parameters_file')}
+    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam, file_names=file_names)
     # Override config values with kwargs
     for attr, value in list(kwargs.items()):
         if attr in ignore_kwargs:
-- 
2.43.0


From 9d17007eff49b9d5a5850beb0ddf2bf62a5f41eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 48/59] fix: build the Boris tracker without a time step

Simulations driven slice by slice (PyEC4PyHT) may leave Dt undefined; only the
multipole tracker could be built then.
---
 dynamics_Boris_f2py.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynamics_Boris_f2py.py b/dynamics_Boris_f2py.py
index 57759a2..6d75470 100644
--- a/dynamics_Boris_f2py.py
+++ b/dynamics_Boris_f2py.py
@@ -143,7 +143,10 @@ class pusher_Boris():
 
         self.Dt = Dt
         self.N_sub_steps = N_sub_steps
-        self.Dtt = Dt / float(N_sub_steps)
+        if Dt is None or N_sub_steps is None:
+            self.Dtt = None
+        else:
+            self.Dtt = Dt / float(N_sub_steps)
         self.B0x = B0x
         self.B0y = B0y
         self.B0z = B0z
-- 
2.43.0


From dde10875dc092a49a43a59b712a996d842f47541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 49/59] fix: field of the cloud itself on the electrons in the
 first slice

When a passage starts, or when the space-charge object is shared with other
e-clouds, the PIC holds the field of another moment or of another cloud.
---
 PyEC4PyHT.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..8ecaeb1 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -539,6 +539,18 @@ class Ecloud(object):
             new_pass = force_pyecl_newpass
             self.i_curr_bunch = 0
 
+        # The field in the PIC has to be the one of this cloud (it is not after a
+        # reinitialization or if the PIC, being shared, was used by another e-cloud)
+        if getattr(spacech_ele, "ecloud_in_pic", None) is not self:
+            dummybeamtim = DummyBeamTim(None)
+            dummybeamtim.tt_curr = self.t_sim
+            self.cloudsim._recompute_cloud_spacecharge(
+                dummybeamtim,
+                flag_recompute_space_charge=False,
+                force_recompute_space_charge=True,
+            )
+            spacech_ele.ecloud_in_pic = self
+
         # Cloud simulation
         for i_clou_step, dt in enumerate(dt_array):
 
@@ -692,6 +704,9 @@ class Ecloud(object):
 
         cc = mlm.obj_from_dict(self.cloudsim.config_dict)
 
+        # The field in the PIC is not the one of the initial cloud
+        self.cloudsim.spacech_ele.ecloud_in_pic = None
+
         for thiscloud, initdict in zip(
             self.cloudsim.cloud_list, self.initial_MP_e_clouds
         ):
-- 
2.43.0


From 22b0016efa41372370a9ed8d909dea18b8ac7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 50/59] fix: no charge left behind when MPs are re-initialized
 from a dictionary

The slots after the last macroparticle kept their sizes, which regenerations
then count in the total charge.
---
 MP_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MP_system.py b/MP_system.py
index 6a5ffdf..e3e6cbd 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -596,3 +596,4 @@ class MP_system:
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
         self.add_from_file(dict_MP)
+        self.nel_mp[self.N_mp:] = 0.
-- 
2.43.0


From fb1ee751e2811569a073577144c45176586351e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 51/59] fix: pair fields and slices in the frozen-cloud map

particle_indices_of_slice does not support negative indices: the head got no
kick and every other slice the field of the next one.
---
 Transverse_Efield_map_for_frozen_cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index f8cb489..ee6b317 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -48,7 +48,7 @@ class Transverse_Efield_map(object):
             sid -= 1
 
             # select particles in the slice
-            pid = slices.particle_indices_of_slice(sid)
+            pid = slices.particle_indices_of_slice(slices.n_slices + sid)
 
             # slice size
             dz = (slices.z_bins[sid + 1] - slices.z_bins[sid])
-- 
2.43.0


From 6888cb967df3c3e248aa2d5c364b858b7244251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 52/59] fix: frozen-cloud map keeps disabled the kicks disabled
 in the e-cloud

---
 PyEC4PyHT.py                              |  2 ++
 Transverse_Efield_map_for_frozen_cloud.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 8ecaeb1..01ccee3 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -448,6 +448,8 @@ class Ecloud(object):
                 x_beam_offset=self.x_beam_offset,
                 y_beam_offset=self.y_beam_offset,
                 slice_by_slice_mode=self.slice_by_slice_mode,
+                enable_kick_x=self.enable_kick_x,
+                enable_kick_y=self.enable_kick_y,
             )
 
             self._ecloud_track = self.track
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index ee6b317..a52f6af 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -8,7 +8,8 @@ from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather
 class Transverse_Efield_map(object):
     def __init__(self, xg, yg, Ex, Ey, L_interaction, slicer,
                  flag_clean_slices=False, wrt_slice_centroid=False,
-                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False):
+                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False,
+                 enable_kick_x=True, enable_kick_y=True):
 
         self.slicer = slicer
         self.L_interaction = L_interaction
@@ -22,6 +23,9 @@ class Transverse_Efield_map(object):
         self.x_beam_offset = x_beam_offset
         self.y_beam_offset = y_beam_offset
 
+        self.enable_kick_x = enable_kick_x
+        self.enable_kick_y = enable_kick_y
+
         self.slice_by_slice_mode = slice_by_slice_mode
         if self.slice_by_slice_mode:
             self.sid = 0
@@ -74,8 +78,10 @@ class Transverse_Efield_map(object):
 
         # kick beam particles
         fact_kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
-        beam.xp[pid] += fact_kick * Ex_sc_p
-        beam.yp[pid] += fact_kick * Ey_sc_p
+        if self.enable_kick_x:
+            beam.xp[pid] += fact_kick * Ex_sc_p
+        if self.enable_kick_y:
+            beam.yp[pid] += fact_kick * Ey_sc_p
 
     def _track_in_single_slice_mode(self, beam):
 
-- 
2.43.0


From e81f9f0b97f1d8263fa306cbe2a36d57334bffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 53/59] fix: frozen-cloud map follows the information carried
 by the slices

The e-cloud restarts at the first slice of the first bunch and does not kick
slices with interact_with_EC = False; the map replacing it did neither.
---
 Transverse_Efield_map_for_frozen_cloud.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index a52f6af..f004931 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -86,7 +86,18 @@ class Transverse_Efield_map(object):
     def _track_in_single_slice_mode(self, beam):
 
         if beam.slice_info != 'unsliced':
+
+            # restart at the first slice of the first bunch (as the e-cloud does)
+            if 'info_parent_bunch' in beam.slice_info:
+                if (beam.slice_info['info_parent_bunch']['i_bunch'] == 0
+                        and beam.slice_info['i_slice'] == 0):
+                    self.finalize_and_reinitialize()
+
             self.sid -= 1
+
+            if not beam.slice_info.get('interact_with_EC', True):
+                return
+
             self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
 
     def _finalize_and_reinitialize(self):
-- 
2.43.0


From 946148234dfd6ec8235614f99b06e0f7cc015029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 54/59] fix: filling pattern files with a single bunch are
 accepted

---
 beam_and_timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_and_timing.py b/beam_and_timing.py
index 1dc8fe2..415f5f0 100644
--- a/beam_and_timing.py
+++ b/beam_and_timing.py
@@ -103,9 +103,9 @@ class beam_and_timing:
             if type(filling_pattern_file) is str:
                 if '.mat' in filling_pattern_file:
                     dict_fillp = sio.loadmat(filling_pattern_file)
-                    ppb_vect = np.squeeze(dict_fillp['ppb_vect'])
+                    ppb_vect = np.atleast_1d(np.squeeze(dict_fillp['ppb_vect']))
                     if 'sigmaz_vect' in list(dict_fillp.keys()):
-                        sigmaz_vect = np.squeeze(dict_fillp['sigmaz_vect'])
+                        sigmaz_vect = np.atleast_1d(np.squeeze(dict_fillp['sigmaz_vect']))
                 else:
                     raise ValueError('Input of filling scheme via txt files is discontinued!')
                     # Incompatible with Python3 because of the exec                   
-- 
2.43.0


From 3465608c03560e74fd5854d68a9e6088bfa38a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 55/59] fix: filling pattern files holding integers no longer
 truncate the bunch length to zero

---
 beam_and_timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_and_timing.py b/beam_and_timing.py
index 415f5f0..61f3111 100644
--- a/beam_and_timing.py
+++ b/beam_and_timing.py
@@ -103,9 +103,9 @@ class beam_and_timing:
             if type(filling_pattern_file) is str:
                 if '.mat' in filling_pattern_file:
                     dict_fillp = sio.loadmat(filling_pattern_file)
-                    ppb_vect = np.atleast_1d(np.squeeze(dict_fillp['ppb_vect']))
+                    ppb_vect = np.atleast_1d(np.float64(np.squeeze(dict_fillp['ppb_vect'])))
                     if 'sigmaz_vect' in list(dict_fillp.keys()):
-                        sigmaz_vect = np.atleast_1d(np.squeeze(dict_fillp['sigmaz_vect']))
+                        sigmaz_vect = np.atleast_1d(np.float64(np.squeeze(dict_fillp['sigmaz_vect'])))
                 else:
                     raise ValueError('Input of filling scheme via txt files is discontinued!')
                     # Incompatible with Python3 because of the exec                   
-- 
2.43.0


From b1f934e954f1d23e28647cb3e1d2c52da6584e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 56/59] fix: states are saved also when the file of observation
 times holds a single one

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index f1d677c..2544abe 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -899,7 +899,7 @@ class pyecloud_saver:
             self.flag_save_MP_state = True
             if type(save_mp_state_time_file) is str:
                 dict_save_mp_state_time = sio.loadmat(save_mp_state_time_file)
-                self.t_obs = np.squeeze(dict_save_mp_state_time['t_obs'].real)
+                self.t_obs = np.atleast_1d(np.squeeze(dict_save_mp_state_time['t_obs'].real))
             else:
                 self.t_obs = np.array(save_mp_state_time_file)
 
@@ -934,7 +934,7 @@ class pyecloud_saver:
             self.flag_save_simulation_state = True
             if type(save_simulation_state_time_file) is str:
                 dict_save_simulation_state_time = sio.loadmat(save_simulation_state_time_file)
-                self.t_obs_sim = np.squeeze(dict_save_simulation_state_time['t_obs'].real)
+                self.t_obs_sim = np.atleast_1d(np.squeeze(dict_save_simulation_state_time['t_obs'].real))
             else:
                 self.t_obs_sim = np.array(save_simulation_state_time_file)
 
-- 
2.43.0


From feb3d3f2007d71ecec2b8ecec5c7017a8680785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 57/59] fix: extracting the SEY curves at set-up does not
 charge the segments

The test impacts went through the charging model as if they were real
ones, so that with extract_sey (the default) the segment they refer to
started the simulation charged, and the extracted curves depended on how
much it had been charged by the preceding test energies.  The stored charge
is now put back after each batch of test impacts.
---
 impact_management_class.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index 2903b73..5ead5fc 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -358,6 +358,19 @@ class impact_management(object):
 
         return MP_e
 
+    def _test_impacts(self, **kwargs):
+        """Emission process for test impacts, which do not charge the surface."""
+        Q_segments = getattr(self.sey_mod, 'Q_segments', None)
+        if Q_segments is not None:
+            self.sey_mod.Q_segments = Q_segments.copy()
+
+        outp = self.sey_mod.impacts_on_surface(**kwargs)
+
+        if Q_segments is not None:
+            self.sey_mod.Q_segments = Q_segments
+
+        return outp
+
     def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
 
         deltas = {}
@@ -381,7 +394,7 @@ class impact_management(object):
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                    self.sey_mod.impacts_on_surface(
+                    self._test_impacts(
                         mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                         vx_impact=vx * np.ones_like(nel_impact),
                         vy_impact=vy * np.ones_like(nel_impact),
@@ -430,7 +443,7 @@ class impact_management(object):
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                self.sey_mod.impacts_on_surface(
+                self._test_impacts(
                     mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                     vx_impact=vx * np.ones_like(nel_impact),
                     vy_impact=vy * np.ones_like(nel_impact),
-- 
2.43.0


From 6472666f9d08276957aa650fbc098d4250209d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 58/59] fix: crossings in the first hundredth of a path are
 found in elliptical chambers

Such impacts were put at the starting point: photoelectrons from a source
close to the wall appeared at the source, not on the wall.
---
 geom_impact_ellip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom_impact_ellip.py b/geom_impact_ellip.py
index 38f4c4b..a4adb8e 100644
--- a/geom_impact_ellip.py
+++ b/geom_impact_ellip.py
@@ -117,7 +117,7 @@ class ellip_cham_geom_object:
 
         t0 = resc_fac * t0
 
-        t0[t0 < 1.e-2] = 0
+        t0[t0 < 0.] = 0.
 
         flag_ident = (((x_in - x_out) * (x_in - x_out) + (y_in - y_out) * (y_in - y_out)) / (x_out * x_out + y_out * y_out)) < 1e-8
         t0[flag_ident] = 0
-- 
2.43.0


From 296d525ae00407bdcbb8192d6c9b4e721c464bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 59/59] fix: a named cloud is accepted where no output file is
 requested

---
 parse_cloud_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parse_cloud_file.py b/parse_cloud_file.py
index d5f46b9..135352c 100644
--- a/parse_cloud_file.py
+++ b/parse_cloud_file.py
@@ -10,8 +10,10 @@ class cloud_descr_from_file:
 
             if default_param_obj.cloud_name is not None:
                 cloud_name = default_param_obj.cloud_name
-                cloud_output_name = default_param_obj.filen_main_outp.split('.mat')[0]
-                cloud_output_name += '_' + cloud_name + '.mat'
+                cloud_output_name = default_param_obj.filen_main_outp
+                if cloud_output_name is not None:  # no name without output
+                    cloud_output_name = cloud_output_name.split('.mat')[0]
+                    cloud_output_name += '_' + cloud_name + '.mat'
             else:
                 cloud_name = 'default'
                 cloud_output_name = default_param_obj.filen_main_outp
@@ -35,8 +37,10 @@ class cloud_descr_from_file:
             # Make names for cloud and cloud output
             cloud_name = cloudfilename.split('/')[-1].split('.cloud')[0]
 
-            cloud_output_name = default_param_obj.filen_main_outp.split('.mat')[0]
-            cloud_output_name += '_' + cloud_name + '.mat'
+            cloud_output_name = default_param_obj.filen_main_outp
+            if cloud_output_name is not None:  # no name without output
+                cloud_output_name = cloud_output_name.split('.mat')[0]
+                cloud_output_name += '_' + cloud_name + '.mat'
 
         config_dict['filen_main_outp'] = cloud_output_name
         config_dict['cloud_name'] = cloud_name
-- 
2.43.0

