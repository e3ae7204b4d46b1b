From 6d498afda8115604122bea5c14f3e0eba664d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 01/19] fix: compare boundary condition names by value

The names read back from a solution file are equal to, but not the same
objects as, the literals, so a loaded solution had no boundary condition.
---
 dg1d/solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index c489e36..fe55125 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -527,17 +527,17 @@ class Solution:
         """Populates the ghost cells with the correct data depending on the BC"""
 
         # On the left side of the domain
-        if self.bc_l is 'periodic':
+        if self.bc_l == 'periodic':
             self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
-        elif self.bc_l is 'zerograd':
+        elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
-        if self.bc_r is 'periodic':
+        if self.bc_r == 'periodic':
             self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
-        elif self.bc_r is 'zerograd':
+        elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
-- 
2.43.0


From 440147aab27b3cdfe920e5b28910fe94400c35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 02/19] fix: set the scaled inverse mass matrix of a loaded
 solution

The loader left it at the uninitialized array of the constructor, so the
residual of a loaded solution was garbage.
---
 dg1d/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index fe55125..80306b8 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -202,6 +202,9 @@ class Solution:
         B = self.xc[-1] + 0.5 * self.dx
         self.x, self.dx = np.linspace(A, B, self.N_E + 1, retstep=True)
 
+        # Scale the inverse mass matrix
+        self.scaled_minv = self.basis.minv * 2.0 / self.dx
+
         #
         # Read solution data from all the files
         #
-- 
2.43.0


From 5661a623a6454a42820c9a5418ff5a3104dc3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 03/19] fix: limit a piecewise constant solution

Hierarchical reconstruction failed with an UnboundLocalError at order 0,
where there is nothing to limit.
---
 dg1d/limiting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 3af1ccf..b29d179 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -124,6 +124,9 @@ class Limiter:
 
         alim = np.zeros(np.shape(ac))
 
+        # The cell average if there are no derivatives to limit
+        avgLC = ac[0]
+
         # loop on derivatives
         N = len(ac) - 1
         for m in range(N, 0, -1):
-- 
2.43.0


From 632e20fb4f833a897829daf2e11f6d7470933959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 04/19] fix: update the ghost cells before limiting

The RK stages are limited before the boundary conditions are applied to
them, so the cells next to a boundary were limited with stale ghost cells
(on a periodic domain, the result depended on where the domain was cut).
---
 dg1d/limiting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index b29d179..66a9b5b 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -72,6 +72,9 @@ class Limiter:
     def adaptive_hr(self, solution):
         """Limit a solution in the domain using adaptive hierarchical reconstruction"""
 
+        # The sensors and the limiter need the neighbors of the boundary cells
+        solution.apply_bc()
+
         # Decide where to do limiting
         solution.sensors.sensing(solution)
 
-- 
2.43.0


From e3e813be259b2b5651692f1513ec58622b349de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 05/19] fix: do not skip outputs when a time step reaches past
 the final time

An output time between the current time and the final time was skipped,
and the final solution took its number, if the next time step reached
beyond the final time.
---
 dg1d/rk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 50a2928..9fa10ca 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -246,8 +246,9 @@ def adjust_for_output(dt, t, tf, tout):
     """
     #eps = 1e-14
 
-    # If we reached the final time (or almost)
-    if dt > tf - t:
+    # If we reached the final time (or almost), and there is no output
+    # left to do before it
+    if dt > tf - t and tout >= tf:
         return tf - t, True, True
 
     # If we reached an output time
-- 
2.43.0


From 8fb9f8faa3ae5c63f9ef9d7d98bc8910e57c812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 06/19] fix: set the time of the RK stages

The stage times were accumulated over the stages and over the time steps
instead of being t_0 + alpha_k dt.
---
 dg1d/rk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 9fa10ca..5cc8b0d 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -94,7 +94,7 @@ def classic_rk(solution, deck, dgsolver, limiter, coeffs, alphas, betas):
             uk.copy_data_only(us)
             for j, beta in enumerate(betas[k, :k]):
                 uk.smart_axpy(beta, K[j])
-            uk.t += alpha * dt
+            uk.t = solution.t + alpha * dt
 
             # Limit solution if necessary
             if k > 0:
@@ -165,7 +165,7 @@ def low_storage_rk4(solution, deck, dgsolver, limiter):
             # Calculate the star quantities
             ustar.copy_data_only(us)
             ustar.smart_axpy(beta, du)
-            ustar.t += beta * dt
+            ustar.t = solution.t + beta * dt
 
             # Limit solution if necessary
             if k > 0:
-- 
2.43.0


From 6ac74ab3b5f1ef5ba50ecfa8e2589dfc1dc1b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 07/19] fix: do not fail if another process makes the directory
 first

---
 dg1d/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dg1d/helpers.py b/dg1d/helpers.py
index ca18af6..d3a0999 100644
--- a/dg1d/helpers.py
+++ b/dg1d/helpers.py
@@ -20,4 +20,4 @@ def makedir(directory):
     Taken from http://stackoverflow.com/questions/273192/how-to-check-if-a-directory-exists-and-create-it-if-necessary
     """
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
-- 
2.43.0


From 32bb96fed33bdf20e623a25377265afee105e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 08/19] fix: check that no shock moves upstream before
 upwinding in Godunov's flux

A supersonic state next to the interface was always used to calculate the
flux, even if the other state pushes a shock back into it (e.g. a head-on
collision of two supersonic streams).
---
 dg1d/euler_physics.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 9d3871f..71ffa12 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -107,7 +107,8 @@ def riemann_godunov(ul, ur):
     for i in range(len(rhoL)):
 
         # Supersonic flow to the right
-        if (vL[i] / aL[i] >= 1.0):
+        if supersonic(rhoL[i], vL[i], aL[i], pL[i],
+                      rhoR[i], vR[i], aR[i], pR[i]):
             F[i * 3 + 0] = rhoL[i] * vL[i]                 # first: fx = rho*u
             F[i * 3 + 1] = rhoL[i] * vL[i] * vL[i] + \
                 pL[i]     # second: fx = rho*u*u+p
@@ -115,7 +116,8 @@ def riemann_godunov(ul, ur):
             F[i * 3 + 2] = (EL[i] + pL[i]) * vL[i]
 
         # Supersonic flow to the left
-        elif (vR[i] / aR[i] <= -1.0):
+        elif supersonic(rhoR[i], -vR[i], aR[i], pR[i],
+                        rhoL[i], -vL[i], aL[i], pL[i]):
             F[i * 3 + 0] = rhoR[i] * vR[i]                 # first: fx = rho*u
             F[i * 3 + 1] = rhoR[i] * vR[i] * vR[i] + \
                 pR[i]     # second: fx = rho*u*u+p
@@ -205,6 +207,30 @@ def riemann_godunov(ul, ur):
     return F
 
 
+# ========================================================================
+def supersonic(r1, v1, c1, P1, r2, v2, c2, P2):
+    """Returns true if all the waves move downstream, away from state 1
+
+    Velocities are positive from state 1 to state 2. This is used in
+    Godunov's flux. A supersonic flow in state 1 is not enough: state 2
+    can still push a shock upstream, across the interface.
+    """
+
+    if v1 / c1 < 1.0:
+        return False
+
+    # Pressure behind a shock standing at the interface
+    pm = P1 * (1 + 2 * constants.gamma /
+               (constants.gamma + 1) * ((v1 / c1)**2 - 1))
+
+    # The shock moves downstream if, at this pressure, the flow behind it
+    # is slower than the one next to state 2
+    vm1 = v1 - (pm - P1) / massflux(r1, c1, P1, pm)
+    vm2 = v2 + (pm - P2) / massflux(r2, c2, P2, pm)
+
+    return vm2 >= vm1
+
+
 # ========================================================================
 def massflux(r, c, pQ, pm):
     """ Returns the mass flux used for Godunov's Flux Function
-- 
2.43.0


From 443b48274aed8216ce51484731c09bb13efdedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 09/19] fix: flux of a shock standing at the interface within
 rounding errors

---
 dg1d/euler_physics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 71ffa12..45d6306 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -197,6 +197,13 @@ def riemann_godunov(ul, ur):
                 rmI, Um2, Um3 = sonic(
                     vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR)
 
+            # A shock at the interface within rounding errors: the flux is the
+            # same on both sides of it
+            elif SmL > 0:
+                rmI, Um2, Um3 = rhoL[i], rhoL[i] * vL[i], EL[i]
+            else:
+                rmI, Um2, Um3 = rhoR[i], rhoR[i] * vR[i], ER[i]
+
             # Compute the flux: evaluate the physical flux at the interface
             # (middle)
             pm = (constants.gamma - 1) * (Um3 - 0.5 * Um2 * Um2 / rmI)
-- 
2.43.0


From 47240993f71e9b7ea6b7bc6425ace9acc88502aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 10/19] fix: stability regions with the installed sympy and
 matplotlib

---
 analysis/rk_stability.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/analysis/rk_stability.py b/analysis/rk_stability.py
index 64cbd40..cafdfcb 100755
--- a/analysis/rk_stability.py
+++ b/analysis/rk_stability.py
@@ -20,7 +20,7 @@ __status__ = "Development"
 # ========================================================================
 import argparse
 import sys
-import scipy as sp
+import sympy as sp
 import numpy as np
 import matplotlib.pyplot as plt
 
@@ -147,12 +147,11 @@ def approximate_stability_bndry(coeffs, B, fignum=0, coloridx=0, pltlabel=''):
     cs1 = plt.contour(ZR, ZI, sigma, [1], colors=cmap[coloridx], linewidths=2)
     cs2 = plt.contour(ZR, -ZI, sigma, [1], colors=cmap[coloridx], linewidths=2)
     # plt.clabel(cs1,cs1.levels,inline=True,fmt = pltlabel, fontsize=10)
-    p = cs1.collections[0].get_paths()[0]
-    v = p.vertices
+    v = cs1.allsegs[0][0]
     x = v[:, 0]
     y = v[:, 1]
 
-    return x, y, cs1.collections[0]
+    return x, y, cs1.legend_elements()[0][0]
 
 
 # ========================================================================
-- 
2.43.0


From 8aea1b463f27bf2d6fb6ffe0a9af8ae456cd95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 11/19] fix: complex dtype removed from numpy

---
 analysis/dg_stability.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analysis/dg_stability.py b/analysis/dg_stability.py
index 7bd7ba1..1124a9e 100755
--- a/analysis/dg_stability.py
+++ b/analysis/dg_stability.py
@@ -203,13 +203,13 @@ def get_eigenvalue(Minv, F, G0, G1, T):
     N = 50
     betas = np.linspace(-1 * np.pi, np.pi, N)
     ebjs = np.exp(betas * 1j)
-    eigs = np.zeros((N, Minv.shape[0]), dtype=np.complex)
+    eigs = np.zeros((N, Minv.shape[0]), dtype=complex)
 
     for k, ebj in enumerate(ebjs):
 
         # replace T symbol by the Fourier transform
-        g0 = np.array(G0.subs(T, ebj).tolist()).astype(np.complex)
-        g1 = np.array(G1.subs(T, ebj).tolist()).astype(np.complex)
+        g0 = np.array(G0.subs(T, ebj).tolist()).astype(complex)
+        g1 = np.array(G1.subs(T, ebj).tolist()).astype(complex)
 
         # Get the full matrix
         FK = Minv.dot(-(g1 - g0) + F)
-- 
2.43.0


From 29e38f4cdaf33b190fe6a30425068173e0bf0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 12/19] fix: check both arguments of the delta function

---
 analysis/aux_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/aux_functions.py b/analysis/aux_functions.py
index 61c19e6..ea408c2 100644
--- a/analysis/aux_functions.py
+++ b/analysis/aux_functions.py
@@ -31,7 +31,7 @@ def sort_roots_angle(roots):
 def delta(i, j):
     """Given two integers, return 1 if i==j and 0 if not"""
 
-    if isinstance(i, int) and isinstance(i, int):
+    if isinstance(i, int) and isinstance(j, int):
         if i == j:
             return 1
         else:
-- 
2.43.0


From 56fd1ac2a451be3680a212746c96f10e201d1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 13/19] fix: absolute path of the solver in the convergence
 study

---
 advection_convergence/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/run.py b/advection_convergence/run.py
index 79bdabc..2ce7e04 100755
--- a/advection_convergence/run.py
+++ b/advection_convergence/run.py
@@ -12,7 +12,7 @@ import sys
 import shutil
 import subprocess as sp
 
-codedir = '../dg1d/'
+codedir = os.path.abspath('../dg1d') + '/'
 sys.path.insert(0, codedir)
 import deck as deck
 
-- 
2.43.0


From 33c934c7038a8f83e537b7215094179bc8296b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 14/19] fix: elapsed time of runs that take more than a day

---
 advection_convergence/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/plot.py b/advection_convergence/plot.py
index e77be99..6ff1c5f 100755
--- a/advection_convergence/plot.py
+++ b/advection_convergence/plot.py
@@ -73,7 +73,7 @@ def get_timer(fname):
     with open(fname) as f:
         for line in f:
             if 'seconds' in line:
-                return line.split()[4]
+                return line.split()[-2]
 
 
 # ===============================================================================
-- 
2.43.0


From 4828f7b9273f1ea8df84cc08905193251fe6a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 15/19] fix: Godunov's mass flux in weak expansions

1 - (pm/pQ)**gam2 lost all its digits when pm was within some rounding
errors of pQ. With ratios of specific heats close to 1 it was zero, and
the iteration of a uniform flow did not converge.
---
 dg1d/euler_physics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 45d6306..ec76f28 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -254,7 +254,9 @@ def massflux(r, c, pQ, pm):
     if pm / pQ >= 1 - eps:  # eps to avoid zero-division
         massflux = r * c * np.sqrt(1 + gam1 * (pm / pQ - 1))
     else:
-        massflux = r * c * gam2 * (1 - pm / pQ) / (1 - (pm / pQ)**gam2)
+        # expm1 keeps the digits of 1 - (pm / pQ)**gam2 in weak expansions
+        massflux = r * c * gam2 * (1 - pm / pQ) / \
+            -np.expm1(gam2 * np.log(pm / pQ))
 
     return massflux
 
-- 
2.43.0


From 0a5af16f28ed6bfe7454ba6e16770f1cac44bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 16/19] fix: Godunov's flux stops at the edge of vacuum

When the pressure iteration ended with a pressure of zero or below, the
wave speeds were not numbers and the flux of one of the sides was used.
---
 dg1d/euler_physics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index ec76f28..b416a39 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -158,6 +158,11 @@ def riemann_godunov(ul, ur):
                 # Set old value to new value
                 pm1 = pm2
 
+            # The iteration is not accurate enough close to vacuum
+            if not pm2 > 0:
+                sys.exit(
+                    "Godunov fixed-point iteration found no positive pressure. Exiting.")
+
             # Calculate the new fluxes
             mL = massflux(rhoL[i], aL[i], pL[i], pm2)
             mR = massflux(rhoR[i], aR[i], pR[i], pm2)
-- 
2.43.0


From c406ad350f97037fe45fee127a3ba70827ffd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 17/19] fix: makedir accepts a file in the place of the
 directory

os.path.exists is true for a file as well: the call returned without an
error and without a directory. Only a directory is good enough.
---
 dg1d/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dg1d/helpers.py b/dg1d/helpers.py
index d3a0999..030154c 100644
--- a/dg1d/helpers.py
+++ b/dg1d/helpers.py
@@ -19,5 +19,5 @@ def makedir(directory):
 
     Taken from http://stackoverflow.com/questions/273192/how-to-check-if-a-directory-exists-and-create-it-if-necessary
     """
-    if not os.path.exists(directory):
+    if not os.path.isdir(directory):
         os.makedirs(directory, exist_ok=True)
-- 
2.43.0


From 5343bc494e29af1d21d49d580c4fd3c746a51b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 18/19] fix: run where git or the repository is not available

---
 dg1d/main.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dg1d/main.py b/dg1d/main.py
index 975dd2a..1f8cf6e 100755
--- a/dg1d/main.py
+++ b/dg1d/main.py
@@ -36,8 +36,18 @@ import dg1d.limiting as limiting
 
 
 def get_git_revision_hash():
-    """Returns the git version of this project"""
-    return subprocess.check_output(['git', 'describe', '--always'], universal_newlines=True)
+    """Returns the git version of this project
+
+    It is unknown if git or the repository of this project is not available.
+    """
+    try:
+        return subprocess.check_output(['git', 'describe', '--always'],
+                                       cwd=os.path.dirname(
+                                           os.path.abspath(__file__)),
+                                       stderr=subprocess.DEVNULL,
+                                       universal_newlines=True)
+    except (OSError, subprocess.CalledProcessError):
+        return 'unknown\n'
 
 # ========================================================================
 #
-- 
2.43.0


From d8e831d1a2954abe0182985c4dd7e90cc19d7742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 19/19] fix: the convergence study runs in directories whose
 names a shell would split

---
 advection_convergence/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/advection_convergence/run.py b/advection_convergence/run.py
index 2ce7e04..613c053 100755
--- a/advection_convergence/run.py
+++ b/advection_convergence/run.py
@@ -9,6 +9,7 @@
 # ===============================================================================
 import os
 import sys
+import shlex
 import shutil
 import subprocess as sp
 
@@ -32,7 +33,7 @@ def runcode(deck, background=True):
 
     # Launch the code
     log = open('logfile', "w")
-    proc = sp.Popen(codedir + 'main.py -d ' + deck,
+    proc = sp.Popen(shlex.quote(codedir + 'main.py') + ' -d ' + shlex.quote(deck),
                     shell=True, stdout=log, stderr=sp.PIPE)
     retcode = 0
 
-- 
2.43.0

