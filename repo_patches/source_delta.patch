From 2f7e881bd6b604e2a3ab0c57abffcdb60d2f7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 01/43] fix: assemble the slab right hand side instead of
 returning the solution vector

rhs_class_1.call filled V_new for spherical geometry only, so in slab geometry
it returned dV/dt = V whatever the problem was.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..171565c 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -363,6 +363,10 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    RHS = np.dot(G,U) - LU + mul*np.dot(L,U) - VV + PV + 0.5*S
+                    V_new[angle,space,:] = RHS
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From bbbea5ca8500dca10fad01945333ce067186ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 02/43] fix: use the configured total cross section for
 absorption in spherical geometry

The absorption term was computed (VV) and then ignored in favour of U, i.e. sigma_t = 1.
---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 171565c..32acd7b 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -335,7 +335,7 @@ class rhs_class():
                     # if max(np.abs(PV - PV2)) >= 1e-10:
                     #     assert(0)
                     RHS += PV * self.c
-                    RHS -= U
+                    RHS -= VV
 
                     # RHS2 -= (3 * (a+b) / 2 / (a*b + b**2 + a**2)) * dterm 
 
-- 
2.43.0


From cedb1d36249884dcf8f6d14cd5354d99d44b10b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 03/43] fix: pass the geometry to find_nodes when evaluating at
 several times

solve() raised a TypeError for eval_times without user-chosen points.
---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..06a525f 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -258,7 +258,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             mesh.move(tt)
             edges = mesh.edges
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
-- 
2.43.0


From 6783a1642f90e76e519d40a18503004c28a68066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 04/43] fix: evaluate the uncollided flux at the two exit
 points

get_exit_dist added the uncollided flux at the output points to the exit fluxes.
---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From 591b6c043e9111f3722f3d37dfd5af21a5e933fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 05/43] fix: set the end weights of the two point Gauss-Lobatto
 rule

They were only set inside the loop over the interior points, so S2 had zero weights.
---
 moving_mesh_transport/solver_classes/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..f22c847 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -643,6 +643,7 @@ def quadrature(n, name, testing = False):
         for nn in range(1, n-1):
             inn = nn + 1
             ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
             ws[0] = 2/ (n*(n-1))
             ws[-1] = 2/ (n*(n-1))
         # if testing == True:
-- 
2.43.0


From ff61c54084e3950bfb685805e2448b3c768e42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 06/43] fix: remember the initial edges of every mesh

Initial edges stayed zero for the initialisers that do not set them, so the first
move collapsed the mesh onto the origin.
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..8c7b90d 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -855,7 +855,7 @@ class mesh_class(object):
                     elif self.move_func == 2:
                             self.thin_square_init_func()
 
-        # self.edges0 = self.edges
+        self.edges0 = self.edges
         self.Dedges_const = self.Dedges
 
 
-- 
2.43.0


From 3e8e954e866f3b8f5e020f6dbbcafb8117a3ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 07/43] fix: move the mesh for every problem whose edges have a
 velocity

Gaussian and infinite-domain square source meshes reported edge velocities (used by
the drift and surface terms) but their edges never moved.
---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 8c7b90d..e724f9c 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -257,7 +257,7 @@ class mesh_class(object):
                     else:
                             print("no move function selected")
                             assert(0)
-            elif np.all(self.source_type == 0):
+            else:
                 # print(self.Dedges)
                 self.edges = self.edges0 + self.Dedges*t
 
-- 
2.43.0


From 10e79be3843909362d962e606345bf393647b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 08/43] fix: apply the source strength exactly once to
 uncollided sources

uncollided_solution() already returns the flux for the configured strength; the
source term and two of the solutions multiplied it in again.
---
 moving_mesh_transport/solver_classes/sources.py              | 5 +++--
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..5773f28 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -146,7 +146,8 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
+        if self.uncollided == False:
+            self.S = self.S * self.source_strength
 
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..6c0e820 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -244,7 +244,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From bab4dcfdec961ee3764312f3729cdb74e03f526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 09/43] fix: reset the absorption vector before accumulating it

With a non-constant opacity every call added to the result of the previous cell and angle.
---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..f8b2236 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = np.zeros(self.M+1)
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From e825952fb12fce4508ec75b9c2319848e8cea9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 10/43] fix: recompute the moments of a time-dependent opacity
 on a static mesh

---
 moving_mesh_transport/solver_classes/opacity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index f8b2236..eb7b12c 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,8 +62,8 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        # if self.sigma_func['fake_sedov'] == True:
-        #     self.moving = True
+        if self.sigma_func['fake_sedov'] == True:
+            self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
-- 
2.43.0


From 4bcd37b041ad286b7259beedbdefcda7122a4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 11/43] fix: name the fake_sedov opacity in the input script as
 the solver does

---
 moving_mesh_transport/input_scripts/mesh_parameters.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/input_scripts/mesh_parameters.yaml b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
index 4632cb4..a333e68 100644
--- a/moving_mesh_transport/input_scripts/mesh_parameters.yaml
+++ b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
@@ -25,7 +25,7 @@
 'boundary_source_strength': 1.0
 'boundary_source': False
 'boundary_source_loc': [10,0]
-'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, f_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
+'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, fake_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
 'Msigma': 0
 'fake_sedov_v0': 0.005
 
-- 
2.43.0


From b416006a1767ac3687ad62a8953d15b384d258bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 12/43] fix: do not read past the end of the wave location
 table

_interp1d indexed xvals[N] for arguments at or beyond the last tabulated time.
---
 moving_mesh_transport/solver_classes/mesh_functions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh_functions.py b/moving_mesh_transport/solver_classes/mesh_functions.py
index e9c8fc6..5a1dfb7 100644
--- a/moving_mesh_transport/solver_classes/mesh_functions.py
+++ b/moving_mesh_transport/solver_classes/mesh_functions.py
@@ -98,11 +98,8 @@ def _interp1d(xnew, xvals, yvals, ynew):
         x_b = xvals[0]
         y_b = yvals[0]
     else:
-        while xnew[0] >= xvals[i] and i < N:
+        while i < N and xnew[0] >= xvals[i]:
             i += 1
-        if xnew[0] == xvals[i]:
-            ynew[0] = yvals[i]
-            return ynew
         if i == N:
             i = N-1
         x_a = xvals[i-1]
-- 
2.43.0


From 4c8d03d9479889e9b83ed0ec2a0355e102db5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 13/43] fix: read the temperature front from the problem's own
 group

Two branches of call_wavepoints used an undefined folder_name.
---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..4f6359a 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -91,7 +91,7 @@ class load_sol:
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
                 if not f.__contains__(self.problem_name):
@@ -148,7 +148,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From 10e16495ca2f2ff59bca690a4ef571cf6c4da677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 14/43] fix: read the coupling option as the dictionary it is
 when benchmarking

Comparing it with 0 and 1 was always false, so the error against the benchmark was
never computed and every run with benchmarking on ended in an UnboundLocalError.
---
 moving_mesh_transport/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..2054aaf 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -234,7 +234,7 @@ class main_class(parameter_load_class):
                 ##################################################################
                     
                 if self.benchmarking == True:
-                    if self.thermal_couple == 0:
+                    if self.thermal_couple['none'] == 1:
                         if self.c_scaling == False:
                             benchmark_solution = benchmark(np.abs(xs))[0] #benchmark for RMS
                         elif self.c_scaling == True:
@@ -242,7 +242,7 @@ class main_class(parameter_load_class):
 
                         RMS = np.sqrt(np.mean((phi - benchmark_solution)**2))
                     
-                    elif self.thermal_couple == 1:
+                    elif self.thermal_couple['none'] != 1:
                         if  (self.weights == "gauss_lobatto" and (self.sigma != 300 and self.x0[0] != 400)):
                             e_xs = benchmark(np.abs(xs))[2][:,0]
                             phi_bench = benchmark(np.abs(xs))[2][:,1]
@@ -307,7 +307,7 @@ class main_class(parameter_load_class):
                 if self.benchmarking == True:
                     print("RMSE", RMS)
                     if self.major == 'cells':
-                        if self.thermal_couple == 1:
+                        if self.thermal_couple['none'] != 1:
                             print("energy RMSE", RMS_energy)
                             if count > 0:
                                 print("material energy convergence order", "%.2f" % convergence(self.RMS_list_energy[count-1], self.N_spaces[count-1], RMS_energy, N_space))
-- 
2.43.0


From 1cd0fa56503f252ec303b71afff55424ffc05a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 15/43] fix: include the cell width in the derivative of the
 Legendre basis

dx_normPn returned the derivative with respect to the reference coordinate.
---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index f22c847..e2baf1d 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -107,7 +107,7 @@ def dx_normPn(n, x, a = -1.0, b = 1.0):
             tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
 
 
-    return tmp * fact
+    return tmp * fact * 2 / (b-a)
 
 
 
-- 
2.43.0


From f34da68e6441c462c10441ceb74661aa147a4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 16/43] fix: restore the edge velocities when the mesh is moved
 back before the source is switched off

---
 moving_mesh_transport/solver_classes/mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index e724f9c..acaa09e 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -230,6 +230,7 @@ class mesh_class(object):
 
                             elif (t < self.t0):
                             
+                                self.Dedges = self.Dedges_const
                                 self.edges = self.edges0 + self.Dedges*t
 
 
-- 
2.43.0


From b69e02cbd8657e457cfcea10f6ed76449f9f0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 17/43] fix: drop particles emitted outside the slab from the
 two-direction uncollided square source

---
 moving_mesh_transport/solver_classes/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index e2baf1d..39f9d8b 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,8 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                arg2 = max(t - (x+x0)*3/math.sqrt(3),0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, arg2)
             else:
                 return 0
          
-- 
2.43.0


From db1376dff1f9ca7f77b33b8991d72caeded48e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 18/43] fix: keep psi and mus of a saved solution in its own
 problem group

---
 .../loading_and_saving/load_solution.py                  | 9 ++++++---
 moving_mesh_transport/loading_and_saving/save_output.py  | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 4f6359a..a981707 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -38,7 +38,7 @@ class load_sol:
         # full_str = self.rad_or_transfer
         full_str = ''
 
-        full_str += "/" + str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
+        full_str += str(self.source_name) + '_uncollided_' * (uncollided) + 'moving_mesh_' * (moving) + 'N_space = ' + str(N_space) + '_t = ' + str(tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
         f = h5py.File(self.data_file_path, "r+")
@@ -50,10 +50,13 @@ class load_sol:
         self.phi = sol_data[1]
         self.e = sol_data[2]
 
-        self.psi = f[self.problem_name][full_str]['psi'][:,:]
+        angular = f[self.problem_name]
+        if not angular.__contains__(full_str): # file written before psi was kept per problem
+            angular = f
+        self.psi = angular[full_str]['psi'][:,:]
         print(self.psi)
 
-        self.mus = f[self.problem_name][full_str]['mus'][:]
+        self.mus = angular[full_str]['mus'][:]
 
       
         self.ws = f[self.problem_name]['weights/' + full_str][:]
diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..a60e3d4 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -185,7 +185,7 @@ class save_output:
             f.create_group(folder_name)
         full_str = ''
 
-        full_str += "/" + str(self.source_name) + '_uncollided_' * (self.uncollided) + 'moving_mesh_' * (self.moving) + 'N_space = ' + str(N_space) + '_t = ' + str(self.tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
+        full_str += str(self.source_name) + '_uncollided_' * (self.uncollided) + 'moving_mesh_' * (self.moving) + 'N_space = ' + str(N_space) + '_t = ' + str(self.tfinal) + '_c = ' + str(self.c) + '_x0_or_sigma = ' + str(x0_or_sigma)
         if epsilon != 1.0:
             full_str += '_epsilon=' + str(epsilon)
 
@@ -197,7 +197,7 @@ class save_output:
         dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
         
         if not f[folder_name].__contains__(full_str):
-            f.create_group(full_str)
+            f[folder_name].create_group(full_str)
 
 
 
-- 
2.43.0


From d036d5e8adada8f073dfc0e4d9f95180de240994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 19/43] fix: zero the rows of a saved solution that are not
 written

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index a60e3d4..55fadd7 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -194,7 +194,7 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         print(folder_name + 'solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
+        dset = f[folder_name].create_dataset('solution/' + full_str, data = np.zeros((4, len(xs)), dtype = 'f4'))
         
         if not f[folder_name].__contains__(full_str):
             f[folder_name].create_group(full_str)
-- 
2.43.0


From 59cd1f4d53befceb0a405d66127504598b6efdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 20/43] fix: give the gaussian source and the manufactured
 problem of the shipped script a source strength

---
 moving_mesh_transport/input_scripts/transport.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/input_scripts/transport.yaml b/moving_mesh_transport/input_scripts/transport.yaml
index d08f647..63cbc22 100644
--- a/moving_mesh_transport/input_scripts/transport.yaml
+++ b/moving_mesh_transport/input_scripts/transport.yaml
@@ -75,6 +75,7 @@
 'gaussian_source':
     'sigma': 0.5
     'x0': [3,3,3,3,3]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,0,1,0,0,0,0,0,0,0,0,0]
     'N_angles': [64,128,128,256,512]
     'move_type': [1,0]              # moving mesh function selector
@@ -84,6 +85,7 @@
 # manufactured problem
 'MMS':
     'x0': [0.1]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,1,0,0,0,0,0,0,0,0,0,0]
     'N_angles': [64, 64, 64]
     'move_type': [1,0]              # moving mesh function selector
-- 
2.43.0


From 1a52314193f284325328d51e3bb77e5c1bdcce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 21/43] fix: evaluate the uncollided flux of the spherical
 shell at its centre

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 6c0e820..841976e 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -232,7 +232,8 @@ class uncollided_solution(object):
         n0 = N0 / (4. * math.pi / 3. * (self.x0 ** 3)) / (4. * math.pi)
         for ix, r in enumerate(xs):
             tt = t + 1e-12
-            mu_crit = min(1., max(-1.,0.5*(tt/r+r/tt-self.x0**2/(r*tt))))
+            rr = max(r, 1e-12)
+            mu_crit = min(1., max(-1.,0.5*(tt/rr+rr/tt-self.x0**2/(rr*tt))))
             r2 = r ** 2 + t ** 2 - 2 * mu_crit * r * t
             # if np.sqrt(r2) < self.x0: 
             temp[ix] = n0 * 2 * math.pi *  (1. - mu_crit ) * np.exp(-t * sigma_abs) 
-- 
2.43.0


From 8f7957390b7c008f7c59e0cbcb9a8d3742f4ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 22/43] fix: select the boundary source benchmark by the name
 of the opacity

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..c2e7730 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -204,17 +204,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func['siewert1'] == 1 or solver.sigma_func['siewert2'] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func['fake_sedov'] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -369,7 +369,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma['siewert1'] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -379,7 +379,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma['siewert2'] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From 78795b78adebe818d02127073a9d8e74e7e0e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 23/43] fix: weigh the left and middle points of the uneven
 angular difference correctly

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 39f9d8b..cc5f02c 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -529,7 +529,7 @@ def angular_deriv(N_ang, angle, mus, V_old, space):
         right = (1-mus[angle+1]**2)*V_old[angle+1,space,:]
         middle = (1-mus[angle]**2)*V_old[angle,space,:]
         left = (1-mus[angle-1]**2)*V_old[angle-1,space,:]
-        dterm =  (right - h**2 * middle - (1-h**2) * left) / (mus[angle+1]-mus[angle]) / (1+h) 
+        dterm =  (right - h**2 * left - (1-h**2) * middle) / (mus[angle+1]-mus[angle]) / (1+h) 
     
     elif angle == 0:
         h = mus[angle+1] - mus[angle]
-- 
2.43.0


From b9dddd1eec9fce99e54dd5ab4cdc48bdedb33373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 24/43] fix: always give the solver a wave location table

---
 moving_mesh_transport/solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index 2054aaf..de491c6 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -77,6 +77,7 @@ class main_class(parameter_load_class):
         print("uncollided  = ", uncollided)
         print("moving mesh = ", moving)
         print("---  ---  ---  ---  ---  ---  ---")
+        self.wave_loc_array = np.zeros((1,1,1))
         if self.move_type[1] == 1:
             if (self.thick == True and self.source_type[2] == 1 and self.move_type[1] == 1): # make this a separate function
                 sol_loader = load_sol(self.problem_type, 'square_s','transfer', self.scattering_ratio, self.N_angles[0]==2, self.cv0)
@@ -96,8 +97,6 @@ class main_class(parameter_load_class):
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
                 self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
-        else:
-            self.wave_loc_array = np.zeros((1,1,1))
 
     
         
-- 
2.43.0


From ef981262fedff2f51c8b59b9dc54e94ed7f11be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 25/43] fix: give the wave location table the shape the mesh
 reads

---
 moving_mesh_transport/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index de491c6..39dd926 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -86,7 +86,7 @@ class main_class(parameter_load_class):
                 self.left_wave = sol_loader.left
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
-                self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
+                self.wave_loc_array = np.array([[self.tpnts_wave, self.left_wave, self.right_wave, self.T_wave]])
                 print(self.wave_loc_array)
 
             elif (self.thick == True and self.source_type[5] == 1):
@@ -96,7 +96,7 @@ class main_class(parameter_load_class):
                 self.left_wave = sol_loader.left
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
-                self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
+                self.wave_loc_array = np.array([[self.tpnts_wave, self.left_wave, self.right_wave, self.T_wave]])
 
     
         
-- 
2.43.0


From e0b30ac4f89c92c1e719d61234021dd7aaeae358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 26/43] fix: return 'none' for a source type without a name
 instead of an unassigned variable

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index cc5f02c..1f02d32 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -345,7 +345,7 @@ def problem_identifier(source_type):
         problem_type = 'gaussian_source'
 
     else:
-        problem_type =='none'
+        problem_type = 'none'
     return problem_type
 
 
-- 
2.43.0


From 84a35c21c0d3543fc6f8476dd86a6c987d8b060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 27/43] fix: do not look for results after running all cases of
 the square source

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index c2e7730..133ea02 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -112,12 +112,12 @@ class run:
         else:
             solver.main(uncollided, moving)
             self.get_results(solver)
-        if self.x0 == 2.5:
-            self.olson_henderson_bench(self.tfinal)
-            plt.figure(9)
-            plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
-            plt.legend()
-            plt.show()
+            if self.x0[0] == 2.5:
+                self.olson_henderson_bench(self.tfinal)
+                plt.figure(9)
+                plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
+                plt.legend()
+                plt.show()
      
         # plt.title("square source")
         # plt.legend()
-- 
2.43.0


From 8d6602fcc24c3fc94484c06b82621ba4f088b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 28/43] fix: save the material energy of the time that is saved

---
 moving_mesh_transport/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index 39dd926..625087f 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -164,7 +164,7 @@ class main_class(parameter_load_class):
                             self.temp_function, self.scattering_ratio, self.sigma,
                             self.x0, self.cv0, self.problem_type, self.N_angles, self.epsilon)
 
-                            saving.save_solution(xs[it], phi[it], e, sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
+                            saving.save_solution(xs[it], phi[it], e[it], sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
                 
                 
                 self.r_times[count] += (time)/self.N_runs
-- 
2.43.0


From 5b5094574e8702b5d2dc6af9bd8de341ddfa0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 29/43] fix: save runs of the boundary source, dipole and
 self-similar plane under their own names

---
 moving_mesh_transport/loading_and_saving/save_output.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 55fadd7..ede8b56 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -42,6 +42,14 @@ class save_output:
         gaussian_sources = ["gaussian_IC", "gaussian_s"]
         index_of_source_name = np.argmin(np.abs(np.array(source_type)-1))
         self.source_name = source_name_list[index_of_source_name]  
+        # sources that have no entry of their own in source_type
+        if not np.any(np.array(source_type) == 1):
+            if source_type[0] == 2:
+                self.source_name = "dipole"
+            elif source_type[0] == 3:
+                self.source_name = "self_sim_plane"
+            else:
+                self.source_name = "boundary_source"
               
     def save_RMS(self, RMS_list, energy_RMS_list, N_angles, r_times):
         if (self.tfinal in [1,5,10,1.25, 0.8333333333333334]) or (self.thermal_couple == 1 and self.tfinal == 31.6228) :
-- 
2.43.0


From 44c2a4a08e5e1e432d016e694f9c9a14efc1b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 30/43] fix: use the half width as a number in the steady-state
 Gaussian benchmark

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 133ea02..f8cbbe2 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -346,7 +346,7 @@ class run:
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
                 if self.mus[l] < 0:
-                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0, self.mus[l])
+                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0[0], self.mus[l])
             
 
 
-- 
2.43.0


From f90256fe659b39fae2a5b3b4ef814e912683767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 31/43] fix: take the shock of the fake Sedov benchmark to be
 gone once it has left the domain

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index f8cbbe2..bf4727d 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -461,7 +461,7 @@ class run:
         # beta = c1 * (v0-1) - v0 * (x0/mu + t0)
         
         # b2 =  v0 * (-x0/mu - t0 + c1) / (1+v0/mu)
-        b2 = ((v0*x0) - t0*v0*mu)/(v0 + mu)
+        b2 = max(((v0*x0) - t0*v0*mu)/(v0 + mu), x0) # the shock may already have left the domain when the particle is emitted
         b1 = max(x, b2)
         # b2 = 0
 
-- 
2.43.0


From f153da07577de361b22f2b59dc647b8a8e7086a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 32/43] fix: compare the fake Sedov benchmark with the flux of
 the last output time

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index bf4727d..0d9cf42 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -547,7 +547,7 @@ class run:
         plt.show()
 
         print("#--- --- --- --- --- --- --- --- ---#")
-        phi_interp = interp.interp1d(self.xs[-1], self.phi)
+        phi_interp = interp.interp1d(self.xs[-1], self.phi[-1])
         phi_eval = phi_interp(sparse_xs)
         print('RMSE', RMSE(phi_eval, phi))
         print()
-- 
2.43.0


From a64310186cb6c5f9cd60a5cc9777d3fbbc17d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 33/43] fix: save wave locations of the two-direction
 constant-opacity problems under their own names

---
 moving_mesh_transport/loading_and_saving/save_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index ede8b56..0f8ef91 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -259,6 +259,10 @@ class save_output:
             folder_name =  f"transfer_const_cv={self.cv_const}"
         elif self.problem_type == 'rad_transfer_constant_cv_thick':
             folder_name =  f"transfer_const_cv={self.cv_const}_thick"
+        elif self.problem_type == 'rad_transfer_constant_cv_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_s2"
+        elif self.problem_type == 'rad_transfer_constant_cv_thick_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_thick_s2"
         elif self.problem_type == "su_olson_s2":
             folder_name = "su_olson_s2"
         elif self.problem_type == "su_olson_thick_s2":
-- 
2.43.0


From 5e16710fb95534a3028322d3949bee8f8615363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 34/43] fix: mirror the benchmark window on symmetric grids
 with an odd number of points

---
 moving_mesh_transport/loading_and_saving/load_bench.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index ddb6ef9..5933f31 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -104,9 +104,11 @@ class load_bench:
             # assuming that the vector is even 
             middle_index = int(xs.size/2)
             edge_index = np.argmin(np.abs(xs[middle_index:-1]-edge_of_interpolated_sol))
-            self.xs_inside = xs[middle_index-edge_index:edge_index+middle_index]
-            stiched_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_uncollided_solution(self.xs_inside)
+            right_index = edge_index+middle_index
+            left_index = xs.size - right_index # mirror image of right_index, for even and odd sizes
+            self.xs_inside = xs[left_index:right_index]
+            stiched_solution[left_index:right_index] = self.interpolated_solution(self.xs_inside)
+            stiched_uncollided_solution[left_index:right_index] = self.interpolated_uncollided_solution(self.xs_inside)
             
         return [stiched_solution, stiched_uncollided_solution]
     
-- 
2.43.0


From 80f66ae6e56175a9f6ec62293863517a407ef816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 35/43] fix: fit the convergence constant of transport tables,
 whose energy errors were never loaded

---
 moving_mesh_transport/plots/make_plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index ccca602..ac70747 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -50,7 +50,7 @@ class rms_plotter:
         """
         x = np.log(self.cells[1:])
         y = np.log(self.RMS[1:])
-        y1 = (np.log(self.energy_RMS[1:]))
+        y1 = (np.log(self.energy_RMS[1:self.cells.size]))
         slope, intercept, r, p, se = linregress(x, y)
         slope2, intercept2, r, p, se = linregress(x, y1)
         print('intercept', np.exp(intercept))
@@ -63,7 +63,7 @@ class rms_plotter:
         """
         x = self.Ms[1:]
         y = np.log(self.RMS[1:])
-        y1 = np.log(self.energy_RMS[1:])
+        y1 = np.log(self.energy_RMS[1:self.Ms.size])
         slope, intercept, r, p, se = linregress(x, y)
         slope2, intercept, r, p, se = linregress(x, y1)
         print(slope, 'slope - c1')
@@ -143,6 +143,7 @@ class rms_plotter:
             self.RMS = data[1]
             self.angles = data[2]
             self.times = data[3]
+            self.energy_RMS = data[5]
     
             f.close()
         
-- 
2.43.0


From ce7af36898ecc86ccf59611ee29b2d431acc93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 36/43] fix: set the lower limit of the error axis instead of
 overwriting pyplot.ylim

---
 moving_mesh_transport/plots/make_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index ac70747..b61c3f6 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -477,7 +477,7 @@ class rms_plotter:
             self.RMS = self.RMS[:4]
             self.angles = self.angles[:4]
             xlimright = 12
-            plt.ylim = 10e-14
+            plt.ylim(bottom = 10e-14)
             self.find_c_semilog()
         energy_list = ['su_olson_thick_s2_energy', 'gaussian_s_thick_s2_energy', 'gaussian_energy_s2']
 
@@ -486,7 +486,7 @@ class rms_plotter:
                 self.Ms = self.Ms[:]
                 self.RMS = self.RMS[:]
                 self.angles = self.angles[:]
-                plt.ylim = 10e-10
+                plt.ylim(bottom = 10e-10)
                 if (self.uncollided == False) and (self.moving == False):
                     logplot_sn_labels_2(self.Ms, self.RMS, self.angles, 0.02, fign )
                 self.find_c_semilog()
-- 
2.43.0


From 9a7d5f731a02ead4ff6f1e8011bf3420bd44ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 37/43] fix: load error tables of files without Gaussian pulse
 results

---
 moving_mesh_transport/plots/make_plots.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index b61c3f6..6459196 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -129,7 +129,6 @@ class rms_plotter:
                                     'gaussian_s_thick_s2', 'gaussian_s_thick_s8', 'su_olson_thick_s2',
                                     'su_olson_thick_s8', 'gaussian_s_thick_s2_energy', 'gaussian_s_thick_s8_energy',
                                     'su_olson_thick_s2_energy','su_olson_thick_s8_energy']:
-            print(f['gaussian_IC'].keys())
             data = f[self.dest_str + '/' + data_str]
     
             if self.major == 'cells':
-- 
2.43.0


From d0c9fc253d9473c503f268999311de7e1475c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 38/43] fix: draw the energy errors of energy convergence plots
 at every time and for every problem

---
 moving_mesh_transport/plots/make_plots.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/plots/make_plots.py b/moving_mesh_transport/plots/make_plots.py
index 6459196..79d4e8d 100644
--- a/moving_mesh_transport/plots/make_plots.py
+++ b/moving_mesh_transport/plots/make_plots.py
@@ -166,6 +166,15 @@ class rms_plotter:
             self.times = rad_data[3]
             self.energy_RMS = rad_data[5]
     
+    def plotted_RMS(self):
+        """
+        The errors that belong to the plot: of the material energy density for the energy plots, of the scalar flux otherwise
+        """
+        if 'energy' in self.source_name:
+            return self.energy_RMS[:self.RMS.size]
+        else:
+            return self.RMS
+
     def plot_RMS_vs_cells(self, fign = 1, clear = False, xlimright = 260):
         plt.ion()
         plt.figure(fign)
@@ -428,7 +437,7 @@ class rms_plotter:
                         intercept = self.find_c()
                         order_triangle(12, 16, 5, intercept, 1.5, 1.5)
 
-            plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
+            plt.loglog(self.cells, self.plotted_RMS(), self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
             show_loglog(file_path_string, xlimleft, xlimright)
             
 
@@ -440,7 +449,7 @@ class rms_plotter:
         elif self.tfinal == 10:
             xlimleft = 1
             xlimright = 256
-            plt.loglog(self.cells, self.RMS, self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
+            plt.loglog(self.cells, self.plotted_RMS(), self.line_mkr + self.mkr, c = self.clr, mfc = self.mfc)
             
             if self.source_name == "plane_IC":
                 intercept = self.find_c()
@@ -478,7 +487,8 @@ class rms_plotter:
             xlimright = 12
             plt.ylim(bottom = 10e-14)
             self.find_c_semilog()
-        energy_list = ['su_olson_thick_s2_energy', 'gaussian_s_thick_s2_energy', 'gaussian_energy_s2']
+        energy_list = ["su_olson_energy", 'su_olson_energy_s2', "gaussian_energy_s2", 'gaussian_s_thick_s2_energy', 
+                       'gaussian_s_thick_s8_energy','su_olson_thick_s2_energy','su_olson_thick_s8_energy' ]
 
         if self.source_name not in energy_list:    
             if self.source_name == "gaussian_IC" or self.source_name == "gaussian_s":
-- 
2.43.0


From a2084a4d7e8f0748c9c9f05d0d6e4e4d74c1856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 39/43] fix: tell the plotter which kind of table compare_rms
 and plot_all_rms_times read

---
 moving_mesh_transport/plots/plotting_script.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/plots/plotting_script.py b/moving_mesh_transport/plots/plotting_script.py
index 1dbf030..b60f486 100644
--- a/moving_mesh_transport/plots/plotting_script.py
+++ b/moving_mesh_transport/plots/plotting_script.py
@@ -182,15 +182,15 @@ def plot_all_rms_times(tfinal, M, major):
             else:
                 plotter.plot_RMS_vs_times(count1+1, clear)
                 
-    plotter = rms_plotter(tfinal, 2, "MMS")
+    plotter = rms_plotter(tfinal, 2, "MMS", major)
     plotter.load_RMS_data(uncollided = False, moving = True)
     plotter.plot_RMS_vs_times(6, clear)
     
-    plotter = rms_plotter(tfinal, 4, "MMS")
+    plotter = rms_plotter(tfinal, 4, "MMS", major)
     plotter.load_RMS_data(uncollided = False, moving = True)
     plotter.plot_RMS_vs_times(6, clear)
     
-    plotter = rms_plotter(tfinal, 6, "MMS")
+    plotter = rms_plotter(tfinal, 6, "MMS", major)
     plotter.load_RMS_data(uncollided = False, moving = True)
     plotter.plot_RMS_vs_times(6, clear)
     
@@ -215,7 +215,7 @@ def compare_rms(tfinal, M):
     case_list_2 = [True, False, True, False]
     
     for count1, source in enumerate(source_type_list):
-        plotter = rms_plotter(tfinal, M, source)
+        plotter = rms_plotter(tfinal, M, source, 'cells')
         plotter.load_RMS_data(uncollided = True, moving = True)
         RMS_list_case_1 = plotter.RMS
         if source != 'plane_IC':
-- 
2.43.0


From a67be0fca021d769edf294b2276c2d3ba311dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 40/43] fix: tell the plotter which kind of table the square
 source run times come from

---
 moving_mesh_transport/plots/plot_square_s_times.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/plots/plot_square_s_times.py b/moving_mesh_transport/plots/plot_square_s_times.py
index 695aa40..e757916 100644
--- a/moving_mesh_transport/plots/plot_square_s_times.py
+++ b/moving_mesh_transport/plots/plot_square_s_times.py
@@ -12,18 +12,18 @@ def main():
     M = 6
     tfinal = 1
     
-    plotter = rms_plotter(tfinal, M, "square_s")
+    plotter = rms_plotter(tfinal, M, "square_s", "cells")
     plotter.load_RMS_data(uncollided = True, moving = True)
     plotter.plot_RMS_vs_times(10, False)
     
-    plotter = rms_plotter(tfinal, M, "square_s")
+    plotter = rms_plotter(tfinal, M, "square_s", "cells")
     plotter.load_RMS_data(uncollided = True, moving = False)
     plotter.plot_RMS_vs_times(10, False)
     
-    plotter = rms_plotter(tfinal, M, "square_s")
+    plotter = rms_plotter(tfinal, M, "square_s", "cells")
     plotter.load_RMS_data(uncollided = False, moving = True)
     plotter.plot_RMS_vs_times(10, False)
     
-    plotter = rms_plotter(tfinal, M, "square_s")
+    plotter = rms_plotter(tfinal, M, "square_s", "cells")
     plotter.load_RMS_data(uncollided = False, moving = False)
     plotter.plot_RMS_vs_times(10, False)
\ No newline at end of file
-- 
2.43.0


From fe900159e42538734a32f0b49f521a0320e4adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 41/43] fix: store error tables of fractional times under their
 own time

---
 .../loading_and_saving/save_output.py         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0f8ef91..fdaff0a 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -51,6 +51,14 @@ class save_output:
             else:
                 self.source_name = "boundary_source"
               
+    def time_label(self):
+        """
+        Name of the final time in the error files: whole times without a decimal point, all others as they are
+        """
+        if self.tfinal == int(self.tfinal):
+            return str(int(self.tfinal))
+        return str(self.tfinal)
+
     def save_RMS(self, RMS_list, energy_RMS_list, N_angles, r_times):
         if (self.tfinal in [1,5,10,1.25, 0.8333333333333334]) or (self.thermal_couple == 1 and self.tfinal == 31.6228) :
             saving_condition = True
@@ -61,13 +69,7 @@ class save_output:
             if saving_condition == True:
                 print("saving")
                 f = h5py.File(self.config_file_path, 'r+')
-                if self.tfinal == 1.25:
-                    tf = str(1.25)
-                elif self.tfinal == 0.8333333333333334:
-                    tf = str(0.8333333333333334)
-                else:
-                    tf = str(int(self.tfinal))
-                dest_str = str(self.source_name + "/" + "t="  + tf + "/" + "RMS")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_label() + "/" + "RMS")
                 print(dest_str)
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
@@ -88,7 +90,7 @@ class save_output:
             if saving_condition == True :
                 print("saving")
                 f = h5py.File(self.config_file_path, 'r+')
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_label() + "/" + "RMS")
                 
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
@@ -118,9 +120,7 @@ class save_output:
             if self.major == 'cells':
                 print("saving RMSE")
                 f = h5py.File(self.config_file_path, 'r+')
-                if self.tfinal != 31.6228:
-                    self.tfinal = int(self.tfinal)
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS" + "/" + f"S{ang}")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_label() + "/" + "RMS" + "/" + f"S{ang}")
                 print(dest_str)
                 if not f.__contains__(dest_str):
                     f.create_group(dest_str)
@@ -141,7 +141,7 @@ class save_output:
             elif self.major == 'Ms':
                 print("saving RMSE")
                 f = h5py.File(self.config_file_path, 'r+')
-                dest_str = str(self.source_name + "/" + "t="  + str(int(self.tfinal)) + "/" + "RMS" + "/" + f"S{ang}")
+                dest_str = str(self.source_name + "/" + "t="  + self.time_label() + "/" + "RMS" + "/" + f"S{ang}")
                 print(dest_str)
                 
                 if not f.__contains__(dest_str):
-- 
2.43.0


From 1e55ede01b93bea9c7d1c55efe5cd7d308e3eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 42/43] fix: take the shock of the fake Sedov uncollided flux
 to be gone once it has left the domain

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 841976e..df83579 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -123,7 +123,7 @@ class uncollided_solution(object):
         sqrt_pi = math.sqrt(math.pi)
         kappa = 2
         rho0 = 0.2
-        b2 = ((v0*x0) - t0*v0*mu)/(v0 + mu)
+        b2 = max(((v0*x0) - t0*v0*mu)/(v0 + mu), x0) # the shock may already have left the domain when the particle is emitted
         b1 = max(x, b2)
         b4 = x0
         b3 =  min(x, b2)
-- 
2.43.0


From 0529d0927904b83f35aa59a4580aebe0178c4e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 43/43] fix: leave directions that do not enter through the
 boundary out of the fake Sedov uncollided flux, which divided by zero for an
 odd number of directions

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index df83579..7c8fc2c 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -96,7 +96,8 @@ class uncollided_solution(object):
         argument = self.mus
         funcval = argument * 0
         for imu, xmu in enumerate(argument):
-            funcval[imu] = func(xmu, t, x)
+            if xmu > 0.0: # the other directions do not enter through the left boundary
+                funcval[imu] = func(xmu, t, x)
         # return (b-a)/2 * np.sum(self.t_ws * funcval) 
         return 2*np.sum(np.multiply(self.ws, funcval))
         
-- 
2.43.0

