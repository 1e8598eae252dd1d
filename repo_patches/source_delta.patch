From e4e081532cca2ab686c4842bd487ab9c504d8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 01/35] fix: a run that takes no time step no longer fails when
 closing files

---
 spectralDNS/h5io/HDF5File.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..360a58c 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -99,9 +99,9 @@ class HDF5File(object):
         self.wfile.open()
 
     def close(self):
-        if self.cfile.f:
+        if self.cfile is not None and self.cfile.f:
             self.cfile.close()
-        if self.wfile.f:
+        if self.wfile is not None and self.wfile.f:
             self.wfile.close()
 
     @staticmethod
-- 
2.43.0


From ea42cdc21409b6e4f00d1cce3c2d2ebb89965bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 02/35] fix: a first time step longer than the remaining time
 is shortened to end at T

---
 spectralDNS/__init__.py          | 4 ++--
 spectralDNS/maths/integrators.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 210ded7..2d08841 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -84,13 +84,13 @@ def solve(solver, context):
 
     solver.conv = solver.getConvection(params.convection)
 
+    dt_in = params.dt
+
     integrate = solver.getintegrator(context.dU, # rhs array
                                      context.u,  # primary variable
                                      solver,
                                      context)
 
-    dt_in = params.dt
-
     while params.t + params.dt <= params.T+1e-12:
 
         u, params.dt, dt_took = integrate()
diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..9837806 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -180,6 +180,11 @@ def getintegrator(rhs, u0, solver, context):
     params = solver.params
     u1 = u0.copy()
 
+    # The first step should hit T exactly if the time step is larger than the
+    # remaining time. Later steps are shortened by end_of_tstep
+    if params.t < params.T < params.t + params.dt:
+        params.dt = params.T - params.t
+
     if params.integrator == "RK4":
         # RK4 parameters
         a = np.array([1./6., 1./3., 1./3., 1./6.], dtype=context.float)
-- 
2.43.0


From 939eccc50774b3d97ba81549c3ff78aa8e6fbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:10 +0000
Subject: [PATCH 03/35] fix: KMM divergence convection differentiates all
 fluxes in the Dirichlet space

---
 spectralDNS/solvers/KMM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..5bac303 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,17 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    # All components of the flux are transformed using the Dirichlet space
+    VFSTp = VectorSpace(FSTp)
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSTp, output_array=F_tmp2)
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From 9b6508383b2974e820a1f316210714b533987b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 04/35] fix: a continued run with the BS5 integrator evaluates
 its first stage

---
 spectralDNS/maths/integrators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 9837806..88ce6d9 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -223,11 +223,17 @@ def getintegrator(rhs, u0, solver, context):
         sc = np.zeros_like(u0)
         err = np.zeros_like(u0)
 
+        # There is no previous stage to reuse on the first step of this
+        # integrator, regardless of how many steps have been taken before it
+        first = [True]
+
         @wraps(adaptiveRK)
         def func():
+            tstep = 0 if first[0] else params.tstep
+            first[0] = False
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
+                              rhs, u0, solver, params.dt, tstep, context,
                               solver.additional_callback, params)
         return func
 
-- 
2.43.0


From 65b231ec6a8006a73f7f6e8d5e1a1c711beaa3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:43 +0000
Subject: [PATCH 05/35] fix: the adaptive error norm does not depend on the
 number of processes

---
 spectralDNS/maths/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 88ce6d9..a565b82 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -93,7 +93,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             if comm.Get_rank() == 0:
                 est_to_bcast = np.zeros(1)
                 est = np.max(np.sqrt(nsquared))
-                est /= np.sqrt(np.array(context.T.shape(True)).prod())
+                est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
                 est_to_bcast[0] = est
             est_to_bcast = comm.bcast(est_to_bcast, root=0)
             est = est_to_bcast[0]
-- 
2.43.0


From 7c090be068dc2b1a9cf6d76593157e4e248fd817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:00 +0000
Subject: [PATCH 06/35] fix: AB2 uses the previous right hand side when the
 step changes or a run continues

---
 spectralDNS/maths/integrators.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index a565b82..aa16509 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -244,7 +244,25 @@ def getintegrator(rhs, u0, solver, context):
         return func
 
     elif params.integrator == "AB2":
+        # u1 is the previous right hand side multiplied by the previous time
+        # step. Keep it with the context such that a continued run uses it.
+        history = context.get('AB2_history', {'tstep': None})
+        if params.tstep > 0 and history['tstep'] == params.tstep:
+            u1 = history['u1']
+        history['u1'] = u1
+        context.AB2_history = history
+
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            dt = params.dt
+            if params.tstep == 0 or history['tstep'] != params.tstep:
+                # No previous right hand side, start with ForwardEuler
+                tstep = 0
+            else:
+                tstep = params.tstep
+                if dt != history['dt']:
+                    u1[:] *= dt/history['dt']
+            history['tstep'] = params.tstep+1
+            history['dt'] = dt
+            return AB2(u0, u1, rhs, dt, tstep, solver, context)
         return func
-- 
2.43.0


From b1b3c08b5332e27a734e96af4ca6137919eed6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:00 +0000
Subject: [PATCH 07/35] fix: cython ForwardEuler accepts the arguments it is
 called with

---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..bc602b7 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From 385db5d50203fc9721521c2899d9dec7e5860718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:00 +0000
Subject: [PATCH 08/35] fix: cython AB2 in 2D starts with ForwardEuler on the
 first step

---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index bc602b7..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -163,7 +163,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0


From e11173429c081e316f381a58eaba54f337e168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:15 +0000
Subject: [PATCH 09/35] fix: cython cross2 in 2D reads the wavenumbers within
 bounds

---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..6019d52 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -138,8 +138,8 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
 
     for i in xrange(b.shape[1]):
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a0 = kx[i,0]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From cfd1faf063dfa399e86dab41303517e91de11e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 10/35] fix: KMM.compute_derivatives calls the Chebyshev
 derivative kernel that exists

---
 spectralDNS/solvers/KMM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 5bac303..b8d9521 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -271,7 +271,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-- 
2.43.0


From 034a1ce0b42a176c190512624a15bdb231a70def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 11/35] fix: KMMr differentiates along its own wall-normal axis
 in all forms of convection

---
 spectralDNS/solvers/KMMr.py | 100 +++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 54 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..c499f50 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -264,20 +264,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    duidxj[2, 2] = dwdz = FST.backward(F_tmp[2], duidxj[2, 2])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0]) # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
@@ -288,30 +288,27 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     Uc2 = work[(U, 2, True)]
     F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
-
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], u_hat[0], u_hat[1], F_tmp[0], F_tmp[1], 2)
+    F_tmp[2] = mat.CDB.matvec(u_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    dudz = Uc[0] = FCTp.backward(F_tmp[0], Uc[0])
+    dvdz = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
+    dwdz = Uc[2] = FSTp.backward(F_tmp[2], Uc[2])
 
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc2[0])
+    dudy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc2[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -325,32 +322,27 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     F_tmp2 = work[(rhs, 1, True)]
     U = u_dealias
 
-    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
+    F_tmp[0] = FSTp.forward(U[0]*U[2], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
-    rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+
+    for i in range(3):
+        F_tmp2[i] = mat.CDD.matvec(F_tmp[i], F_tmp2[i], axis=2)
+        F_tmp2[i] = la.TDMASolverD(F_tmp2[i], axis=2)
+    rhs += F_tmp2
+
+    F_tmp2[0] = FSTp.forward(U[0]*U[2], F_tmp2[0])
+    F_tmp2[1] = FSTp.forward(U[1]*U[2], F_tmp2[1])
+    rhs[2] += 1j*K[0]*F_tmp2[0] # dwudx
+    rhs[2] += 1j*K[1]*F_tmp2[1] # dwvdy
+
+    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # duvdx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From bcd31cee73401b8a1ec2ae5fce9863b65cb539db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 12/35] fix: get_curl of the channel solvers has an array to
 write to and uses the unpadded spaces

---
 spectralDNS/solvers/KMM.py  | 5 +++--
 spectralDNS/solvers/KMMr.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index b8d9521..88145a9 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -63,6 +63,7 @@ def get_context():
     # Solution variables
     U = Array(VFS)
     U0 = Array(VFS)
+    curl = Array(VFS)
     U_hat = Function(VFS)
     U_hat0 = Function(VFS)
     g = Function(FST)
@@ -164,9 +165,9 @@ def set_velocity(U_hat, U, VFS, **context):
     U_hat = VFS.forward(U, U_hat)
     return U_hat
 
-def get_curl(curl, U_hat, g, K, FCTp, FSTp, FSBp, work, **context):
+def get_curl(curl, U_hat, g, K, FCT, FST, FSB, work, **context):
     """Compute curl from context"""
-    curl = compute_curl(curl, U_hat, g, K, FCTp, FSTp, FSBp, work)
+    curl = compute_curl(curl, U_hat, g, K, FCT, FST, FSB, work)
     return curl
 
 def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index c499f50..9ee050a 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -60,6 +60,7 @@ def get_context():
     # Solution variables
     U = Array(VFS)
     U0 = Array(VFS)
+    curl = Array(VFS)
     U_hat = Function(VFS)
     U_hat0 = Function(VFS)
     g = Function(FST)
@@ -165,9 +166,9 @@ def set_velocity(U_hat, U, VFS, **context):
     U_hat = VFS.forward(U, U_hat)
     return U_hat
 
-def get_curl(curl, U_hat, g, work, FCTp, FSTp, FSBp, Kx, **context):
+def get_curl(curl, U_hat, g, work, FCT, FST, FSB, Kx, **context):
     """Compute curl from context"""
-    curl = compute_curl(curl, U_hat, g, Kx, FCTp, FSTp, FSBp, work)
+    curl = compute_curl(curl, U_hat, g, Kx, FCT, FST, FSB, work)
     return curl
 
 def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias, **context):
-- 
2.43.0


From 3d73ebe53f9877e60edaf4d5aad00fe29b69e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 13/35] fix: appending to a checkpoint file keeps the time and
 step of the checkpoint in it

---
 spectralDNS/h5io/HDF5File.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index 360a58c..e2f97fa 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -67,8 +67,10 @@ class HDF5File(object):
                                      self.checkpoint['space'],
                                      mode=params.filemode)
             self.cfile.open()
-            self.cfile.f.attrs.create('tstep', 0)
-            self.cfile.f.attrs.create('t', 0.0)
+            # Keep the attributes of a checkpoint already in the file (filemode 'a')
+            if 'tstep' not in self.cfile.f.attrs:
+                self.cfile.f.attrs.create('tstep', 0)
+                self.cfile.f.attrs.create('t', 0.0)
             self.cfile.close()
         if self.wfile is None:
             self.wfile = ShenfunFile(self.filename+'_w',
-- 
2.43.0


From 56cc7cbc5a1187159a1efc4f8cb58a0df28663b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:03 +0000
Subject: [PATCH 14/35] fix: Rayleigh-Benard temperature uses the quadrature of
 the other spaces

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..d40d94f 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..6b20e55 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, c.ST.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From ecff9ed691c009723e93e2a20c01cb0fa7db3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:14 +0000
Subject: [PATCH 15/35] fix: the temperature of the Rayleigh-Benard solvers is
 solved for

The Helmholtz solver takes the right hand side first and the solution second.
It was called with the temperature as the right hand side, so the temperature
was never advanced.
---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index d40d94f..0bd4294 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 6b20e55..79fd3e6 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From d58f45806a4bd56b1303146e77db5c2cfa645239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:14 +0000
Subject: [PATCH 16/35] fix: wall-normal temperature gradient of KMMRK3_RB has
 the sign of the boundary values

The last two coefficients are the temperatures at x=-1 and x=1, in this order,
so the linear profile between them has the slope (p_hat[-1]-p_hat[-2])/2.
---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0bd4294..16d16e0 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -108,7 +108,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
-- 
2.43.0


From af8ce1afc81efb154fd188faf724ff894d932ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:50 +0000
Subject: [PATCH 17/35] fix: KMM_RB convects the mean temperature gradient with
 the 2/3-rule

The truncation of the 2/3-rule sets also the boundary values of the
temperature to zero, such that the linear profile between the walls was missing
from the convected temperature.
---
 spectralDNS/solvers/KMM_RB.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 79fd3e6..8b28336 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -22,6 +22,9 @@ def get_context():
     c.dU = Function(c.VFS)  # rhs vector for integrator. Now three components, not two
     c.phi = Array(FRB)
     c.phi0 = Array(FRBp)
+    # The truncation of the 2/3-rule removes the boundary values (1, 0) along
+    # with the highest modes. Keep the linear profile between the walls.
+    c.phi_w = 0.5*(1-c.X[0]) if config.params.dealias == '2/3-rule' else 0
     c.phi_hat = Function(FRB)
     c.phi_hat0 = Function(FRB)
     c.phi_hat1 = Function(FRB)
@@ -98,7 +101,7 @@ def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-                    UCN, VFSp, U_hat0, phi_ab, phi0, mat, K, N_hat,
+                    UCN, VFSp, U_hat0, phi_ab, phi0, phi_w, mat, K, N_hat,
                     phi_hat0, phi_hat1, FRBp, FSBp, FSTp, work, **context):
     uT_hat = work[(p_hat, 0, True)]
     F_tmp = work[(u_hat, 0, True)]
@@ -106,6 +109,7 @@ def DivRBConvection(rhs, u_hat, g_hat, p_hat,
     UCN = VFSp.backward(0.5*(u_hat + U_hat0), UCN)
     phi_ab[:] = 1.5*phi_hat0 - 0.5*phi_hat1
     phi0 = FRBp.backward(phi_ab, phi0)
+    phi0 += phi_w
     uT_hat = FSBp.forward(phi0*UCN[0], uT_hat)
     F_tmp[0] = mat.CDB.matvec(uT_hat, F_tmp[0])
     uT_hat = FSTp.forward(phi0*UCN[1], uT_hat)
-- 
2.43.0


From 84f4186bd66338c4db83cbad787657b28886c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:39 +0000
Subject: [PATCH 18/35] fix: KMMRK3_RB convects the temperature

The matrix vector product zeroes its result first. Using the same array for
the vector and the result gave a convection that was always zero.
---
 spectralDNS/solvers/KMMRK3_RB.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 16d16e0..5dcf9d1 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -114,8 +114,8 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
-    N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    N_s = FSTp.forward(N, N_s)
+    rhs = mat.BDD.matvec(N_s, rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From f8bad70df7fe594dc6214364a8ca3037e27df601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:51 +0000
Subject: [PATCH 19/35] fix: defaults of solver specific parameters can be set
 with config.update

The subparser of a solver has its own defaults for its own options (Ri, Pr,
eta), and these replaced the values given to config.update.
---
 spectralDNS/config.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index ff1771f..8a8e4ca 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -304,6 +304,10 @@ Coupled.add_argument('--integrator', default='implicit', choices=('implicit',),
 CoupledRK3 = channelsubparsers.add_parser('CoupledRK3', help='Coupled channel solver with RK3.')
 CoupledRK3.add_argument('--integrator', default='implicit', choices=('implicit',), help='Coupled RK3 integrator for channel solver')
 
+subparsers = {'triplyperiodic': trippelsubparsers,
+              'doublyperiodic': doublesubparsers,
+              'channel': channelsubparsers}
+
 def update(new, mesh="triplyperiodic"):
     """Update spectralDNS parameters"""
     global fft_plans
@@ -312,3 +316,7 @@ def update(new, mesh="triplyperiodic"):
         fft_plans.update(new['planner_effort'])
         new['planner_effort'] = fft_plans
     globals()[mesh].set_defaults(**new)
+    # The options of one solver are parsed by a subparser with its own defaults
+    for solver in subparsers[mesh].choices.values():
+        solver.set_defaults(**{key: val for key, val in new.items()
+                               if solver.get_default(key) is not None})
-- 
2.43.0


From a66ff346a23a78b64ec51ca19cc3e32aad8f62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:51 +0000
Subject: [PATCH 20/35] fix: only 'Vortex' is accepted as convection in doubly
 periodic domains

The choices were a string, and all substrings of it were accepted.
---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 8a8e4ca..858752a 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -246,7 +246,7 @@ doublyperiodic.add_argument('--integrator', default='RK4',
 doublyperiodic.add_argument('--L', default=[2*pi, 2*pi], nargs=2, metavar=('Lx', 'Ly'),
                             help='Physical mesh size')
 doublyperiodic.add_argument('--convection', default='Vortex',
-                            choices=('Vortex'),
+                            choices=('Vortex',),
                             help='Choose method for computing the nonlinear convective term')
 doublyperiodic.add_argument('--TOL', type=float, default=1e-6,
                             help='Tolerance for adaptive time integrator')
-- 
2.43.0


From fb36e8d054fa20db12f5bbbd470ca421cc7c821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:00 +0000
Subject: [PATCH 21/35] fix: defaults set for one type of problem do not change
 those of the others

The parsers shared the arguments of their parent, and set_defaults stores the
default in the argument.
---
 spectralDNS/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 858752a..db8a716 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -46,6 +46,7 @@ __copyright__ = "Copyright (C) 2015-2018 " + __author__
 __license__ = "GNU Lesser GPL version 3 or any later version"
 
 import argparse
+import copy
 from collections.abc import MutableMapping
 from collections import defaultdict
 import json
@@ -208,8 +209,11 @@ parser.add_argument('--mask_nyquist', dest='mask_nyquist', action='store_true',
 parser.add_argument('--no-mask_nyquist', dest='mask_nyquist', action='store_false', help='Do not eliminate Nyquist frequency')
 parser.set_defaults(mask_nyquist=True)
 
+# Each type of problem has its own copy of the generic arguments, because the
+# defaults set with update are stored in the arguments
+
 # Arguments for 3D isotropic solvers
-triplyperiodic = argparse.ArgumentParser(parents=[parser])
+triplyperiodic = argparse.ArgumentParser(parents=[copy.deepcopy(parser)])
 
 triplyperiodic.add_argument('--convection', default='Vortex',
                             choices=('Standard', 'Divergence', 'Skewed', 'Vortex'),
@@ -239,7 +243,7 @@ parser_Bq.add_argument('--Ri', default=0.1, type=float, help='Richardson number'
 parser_Bq.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for 2D periodic solvers
-doublyperiodic = argparse.ArgumentParser(parents=[parser])
+doublyperiodic = argparse.ArgumentParser(parents=[copy.deepcopy(parser)])
 doublyperiodic.add_argument('--integrator', default='RK4',
                             choices=('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive'),
                             help='Integrator for doubly periodic domain')
@@ -261,7 +265,7 @@ parser_Bq2D.add_argument('--Ri', default=0.1, type=float, help='Richardson numbe
 parser_Bq2D.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for channel solvers with one inhomogeneous direction
-channel = argparse.ArgumentParser(parents=[parser])
+channel = argparse.ArgumentParser(parents=[copy.deepcopy(parser)])
 channel.add_argument('--convection', default='Vortex',
                      choices=('Standard', 'Divergence', 'Skew', 'Vortex'),
                      help='Choose method for computing the nonlinear convective term')
-- 
2.43.0


From 2ae6a6cae6d4602cad56c9185dc0d081b9e60ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 22/35] fix: the Nyquist frequencies are masked also in single
 precision

shenfun's mask_nyquist has no kernel for single precision, and the default
mask_nyquist=True raised a TypeError for all solvers.
---
 spectralDNS/solvers/Bq2D.py | 2 +-
 spectralDNS/solvers/MHD.py  | 2 +-
 spectralDNS/solvers/NS.py   | 2 +-
 spectralDNS/solvers/VV.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/Bq2D.py b/spectralDNS/solvers/Bq2D.py
index a8526c1..dbda9af 100644
--- a/spectralDNS/solvers/Bq2D.py
+++ b/spectralDNS/solvers/Bq2D.py
@@ -169,7 +169,7 @@ def ComputeRHS(rhs, ur_hat, solver, work, K, K2, K_over_K2, P_hat, T, Tp,
     """
     rhs = solver.conv(rhs, ur_hat, work, T, Tp, VM, VMp, K, ur_dealias)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
     rhs = solver.add_pressure_diffusion(rhs, ur_hat, P_hat, K_over_K2, K, K2,
                                         params.nu, params.Ri, params.Pr)
 
diff --git a/spectralDNS/solvers/MHD.py b/spectralDNS/solvers/MHD.py
index 41751e0..eecd7ab 100644
--- a/spectralDNS/solvers/MHD.py
+++ b/spectralDNS/solvers/MHD.py
@@ -170,7 +170,7 @@ def ComputeRHS(rhs, ub_hat, solver, Tp, VMp, K, K2, K_over_K2, P_hat,
     """
     rhs = solver.conv(rhs, ub_hat, Tp, VMp, K, ub_dealias, ZZ_hat)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
     rhs = solver.add_pressure_diffusion(rhs, ub_hat, params.nu, params.eta, K2,
                                         K, P_hat, K_over_K2)
     return rhs
diff --git a/spectralDNS/solvers/NS.py b/spectralDNS/solvers/NS.py
index 6a11909..ca9427a 100644
--- a/spectralDNS/solvers/NS.py
+++ b/spectralDNS/solvers/NS.py
@@ -251,7 +251,7 @@ def ComputeRHS(rhs, u_hat, solver, work, Tp, VTp, P_hat, K, K2, u_dealias,
     """
     rhs = solver.conv(rhs, u_hat, work, Tp, VTp, K, u_dealias)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
 
     rhs = solver.add_pressure_diffusion(rhs, u_hat, params.nu, K2, K, P_hat,
                                         K_over_K2)
diff --git a/spectralDNS/solvers/VV.py b/spectralDNS/solvers/VV.py
index df96576..d34de79 100644
--- a/spectralDNS/solvers/VV.py
+++ b/spectralDNS/solvers/VV.py
@@ -141,6 +141,6 @@ def ComputeRHS(rhs, w_hat, solver, work, Tp, VT, VTp, K, K2, K_over_K2,
     """
     rhs = solver.conv(rhs, w_hat, work, Tp, VTp, K, K_over_K2, u_dealias)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
     rhs = solver.add_linear(rhs, w_hat, params.nu, K2, Source)
     return rhs
-- 
2.43.0


From c92cfcb6370b04f053dede620b2bd0d366b34656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 23/35] fix: a single precision run takes its last time step

---
 spectralDNS/__init__.py             | 3 ++-
 spectralDNS/solvers/NS.py           | 2 +-
 spectralDNS/solvers/spectralinit.py | 5 +++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 2d08841..ee4c28f 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -91,7 +91,8 @@ def solve(solver, context):
                                      solver,
                                      context)
 
-    while params.t + params.dt <= params.T+1e-12:
+    tol = solver.time_tolerance(params)
+    while params.t + params.dt <= params.T+tol:
 
         u, params.dt, dt_took = integrate()
 
diff --git a/spectralDNS/solvers/NS.py b/spectralDNS/solvers/NS.py
index ca9427a..3106cf7 100644
--- a/spectralDNS/solvers/NS.py
+++ b/spectralDNS/solvers/NS.py
@@ -112,7 +112,7 @@ def get_divergence(T, K, U_hat, mask, **context):
 def end_of_tstep(context):
     # Make sure that the last step hits T exactly.
     # Used by adaptive solvers
-    if abs(params.t - params.T) < 1e-12:
+    if abs(params.t - params.T) < time_tolerance(params):
         return True
 
     if (abs(params.t + params.dt - params.T) < 1e-12 or
diff --git a/spectralDNS/solvers/spectralinit.py b/spectralDNS/solvers/spectralinit.py
index 9c848e8..7295dc0 100644
--- a/spectralDNS/solvers/spectralinit.py
+++ b/spectralDNS/solvers/spectralinit.py
@@ -28,6 +28,11 @@ def datatypes(precision):
     return {"single": (np.float32, np.complex64, MPI.C_FLOAT_COMPLEX),
             "double": (np.float64, np.complex128, MPI.C_DOUBLE_COMPLEX)}[precision]
 
+def time_tolerance(params):
+    """Return round-off expected in params.t, which is a sum of time steps
+    represented with the chosen precision."""
+    return 1e-12 if params.precision == 'double' else 1e-12 + 1e-7*abs(params.T)
+
 def regression_test(context):
     """Optional function called at the end"""
     pass
-- 
2.43.0


From 7c8d714146db3a7d9a1c981075d6dc2ec6ffe066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 24/35] fix: channel integrals weigh the last Chebyshev
 coefficient of Gauss-Lobatto points once

---
 spectralDNS/utilities/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectralDNS/utilities/__init__.py b/spectralDNS/utilities/__init__.py
index 0c9d7d0..29fc5ff 100644
--- a/spectralDNS/utilities/__init__.py
+++ b/spectralDNS/utilities/__init__.py
@@ -98,6 +98,7 @@ def dx(u, FST, axis=0):
                 dct = dctn(aligned_like(c), axes=(0,), type=1)
                 ak = dct(c, ak)
                 ak /= (M-1)
+                ak[-1] *= 0.5
                 w = np.arange(0, M, 1, dtype=float)
                 w[2:] = 2./(1-w[2:]**2)
                 w[0] = 1
-- 
2.43.0


From 6ccc2ad88a8de4fe0b55bb4242a478e948347455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 25/35] fix: the wall temperature profile follows the padded
 space's distribution over processes

---
 spectralDNS/solvers/KMM_RB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 8b28336..2c3ea54 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -24,7 +24,7 @@ def get_context():
     c.phi0 = Array(FRBp)
     # The truncation of the 2/3-rule removes the boundary values (1, 0) along
     # with the highest modes. Keep the linear profile between the walls.
-    c.phi_w = 0.5*(1-c.X[0]) if config.params.dealias == '2/3-rule' else 0
+    c.phi_w = 0.5*(1-FRBp.local_mesh(True)[0]) if config.params.dealias == '2/3-rule' else 0
     c.phi_hat = Function(FRB)
     c.phi_hat0 = Function(FRB)
     c.phi_hat1 = Function(FRB)
-- 
2.43.0


From dae2ffcc97d878ed6bcd7d034cfb357cdeecf839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 26/35] fix: the C++ solver starts every step from the velocity
 of that step

---
 cpp/spectralDNS.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/spectralDNS.cpp b/cpp/spectralDNS.cpp
index be72c6c..c8f1b31 100644
--- a/cpp/spectralDNS.cpp
+++ b/cpp/spectralDNS.cpp
@@ -268,6 +268,17 @@ int main( int argc, char *argv[] )
             W_hat[z] = W_hat1[z];
         }
 
+    // The velocity at the end of the step is used for output and by the first stage of the next step
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(U_hat.data()), U.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(V_hat.data()), V.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(W_hat.data()), W.data());
+    for (int k=0; k<U.size(); k++)
+    {
+      U[k] /= tot;
+      V[k] /= tot;
+      W[k] /= tot;
+    }
+
     if (tstep % 2 == 0)
     {
         s_in[0] = 0.0;
-- 
2.43.0


From 0a9dc4d5e021040dd07bdf961d4db2352cb91eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 27/35] fix: Isotropic demo lost its initial velocity with the
 velocity-vorticity solver

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index ec2ecb8..7511440 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -53,7 +53,7 @@ def initialize(solver, context):
     c.mask = c.T.get_mask_nyquist()
     c.T.mask_nyquist(c.U_hat, c.mask)
 
-    solver.get_velocity(**c)
+    c.U_hat.backward(c.U)
     U_hat = solver.set_velocity(**c)
 
     K = c.K
-- 
2.43.0


From 7148cdd6b544125c46b586244eaf448bfb628875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 28/35] fix: Isotropic demo could not store spectra (file
 opened read-only)

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index 7511440..b0a80a6 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -213,7 +213,7 @@ def update(context):
 
     if params.tstep % params.compute_spectrum == 0:
         Ek, _, _, _, _ = spectrum(solver, context)
-        f = h5py.File(context.spectrumname, driver='mpio', comm=solver.comm)
+        f = h5py.File(context.spectrumname, mode='a', driver='mpio', comm=solver.comm)
         f['Turbulence/Ek'].create_dataset(str(params.tstep), data=Ek)
         f.close()
 
-- 
2.43.0


From 8f4a79983208f70157f7f5e66d2cc0769cf3be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 29/35] fix: RayleighBenard demo sampled statistics from a
 velocity not brought up to date

---
 demo/RayleighBenard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index d8e8587..09c897d 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -37,7 +37,7 @@ def update(context):
     solver = config.solver
     X, U, phi = c.X, c.U, c.phi
 
-    if (params.tstep % params.compute_energy == 0 or params.tstep % params.sample_stats or
+    if (params.tstep % params.compute_energy == 0 or params.tstep % params.sample_stats == 0 or
             params.tstep % params.plot_result == 0 and params.plot_result > 0):
         U = solver.get_velocity(**c)
         phi = c.phi_hat.backward(c.phi)
-- 
2.43.0


From 489b17638c6caf0586944dff5e749e2b80851bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 30/35] fix: MKM restart computed the previous convection
 without g and overwrote the current velocity with the previous

---
 demo/MKM.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index deae01d..8dd1de6 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -268,14 +268,16 @@ def init_from_file(filename, solver, context):
         U_hat[:] = f["U/3D/1"][su]
 
         # Set g, which is used in computing convection
-        #context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
+        if hasattr(context, 'g'):
+            context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
         context.H_hat1[:] = solver.get_convection(**context)
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
     if hasattr(context, 'g'):
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
+    if 'RK3' not in config.params.solver:
+        context.U_hat0[:] = U_hat
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From 002e12b1449e355e2205c043bfe2fb20c75eebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 31/35] fix: RayleighBenard restart mixed up current and
 previous fields, and time and step

---
 demo/RayleighBenard.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index 09c897d..4225399 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -194,19 +194,21 @@ def init_from_file(filename, solver, context):
 
         # Set g, which is used in computing convection
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
         context.H_hat1[:] = solver.get_convection(**context)
-        context.phi_hat0[:] = f["phi/3D/1"][sp]
+        context.phi_hat1[:] = f["phi/3D/1"][sp]
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
     phi_hat[:] = f["phi/3D/0"][sp]
     context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
+    if not 'RK3' in config.params.solver:
+        context.U_hat0[:] = U_hat
+        context.phi_hat0[:] = phi_hat
     context.hdf5file.filename = filename
     if 'tstep' in f.attrs:
         config.params.tstep = f.attrs['tstep']
     if 't' in f.attrs:
-        config.params.tstep = f.attrs['t']
+        config.params.t = f.attrs['t']
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From ac7161f8ffa57285f2acbbff7ec1edd03d8935b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 32/35] fix: only the process that plots draws at the end of
 the Vortices demo

---
 demo/Vortices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demo/Vortices.py b/demo/Vortices.py
index f05a758..c5d3c24 100644
--- a/demo/Vortices.py
+++ b/demo/Vortices.py
@@ -66,8 +66,9 @@ def regression_test(context):
     global im
     solver = config.solver
     U = solver.get_velocity(**context)
-    im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
-    plt.pause(1e-6)
+    if solver.rank == 0:
+        im.set_UVC(U[2, 0], U[1, 0])
+        plt.pause(1e-6)
 
 if __name__ == "__main__":
     config.update(
-- 
2.43.0


From 5995645182cdcf4eb05f1fcb6991ec34944984c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 33/35] fix: gather the profile and the mesh of the laminar
 channel demo from any division over processes

---
 demo/LaminarChannel.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/demo/LaminarChannel.py b/demo/LaminarChannel.py
index 0ec6e39..b14f520 100644
--- a/demo/LaminarChannel.py
+++ b/demo/LaminarChannel.py
@@ -71,14 +71,12 @@ def update(context):
 
     if params.tstep % params.compute_energy == 0:
         u0 = U[1, :, 0, 0].copy()
-        uall = None
-        if solver.rank == 0:
-            uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
-        solver.comm.Gather(u0, uall, root=0)
+        uall = solver.comm.gather(u0, root=0)
+        xall = solver.comm.gather(context.X[0][:, 0, 0], root=0)
 
         if solver.rank == 0:
-            uall = uall.reshape((params.N[0],))
-            x0 = context.X[0][:, 0, 0]
+            uall = np.concatenate(uall)
+            x0 = np.concatenate(xall)
             #x = x0
             #pc = zeros(len(x))
             #pc = ST.fct(uall, pc)  # Cheb transform of result
@@ -94,14 +92,11 @@ def regression_test(context):
     solver = config.solver
     U = solver.get_velocity(**context)
     u0 = U[1, :, 0, 0].copy()
-    uall = None
-    if solver.rank == 0:
-        uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
-
-    solver.comm.Gather(u0, uall, root=0)
+    uall = solver.comm.gather(u0, root=0)
+    xall = solver.comm.gather(context.X[0][:, 0, 0], root=0)
     if solver.rank == 0:
-        uall = uall.reshape((params.N[0],))
-        x0 = context.X[0][:, 0, 0]
+        uall = np.concatenate(uall)
+        x0 = np.concatenate(xall)
         #x = x0
         #pc = zeros(len(x))
         #pc = ST.fct(uall, pc)  # Cheb transform of result
-- 
2.43.0


From 2f018a4109d04b9d44907b7fe88dcd94b0c97313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 34/35] fix: statistics of the MKM demo are stored where they
 belong when the axis is divided unevenly

---
 demo/MKM.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index 8dd1de6..94f9774 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -214,7 +214,8 @@ class Stats(object):
 
     def get_stats(self, tofile=True):
         N = self.shape[0]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        stop = self.comm.scan(N)
+        s = slice(stop-N, stop, 1)
         Nd = self.num_samples*self.shape[1]*self.shape[2]
         self.comm.barrier()
         if tofile:
@@ -247,7 +248,8 @@ class Stats(object):
         N = self.shape[0]
         self.num_samples = self.f0.attrs["num_samples"]
         Nd = self.num_samples*self.shape[1]*self.shape[2]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        stop = self.comm.scan(N)
+        s = slice(stop-N, stop, 1)
         for i, name in enumerate(("U", "V", "W")):
             self.Umean[i, :] = self.f0["Average/"+name][s]*Nd
         self.Pmean[:] = self.f0["Average/P"][s]*Nd
-- 
2.43.0


From 4e10a89ee55c0bdb913983d445687e241967d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 35/35] fix: statistics of the Rayleigh-Benard demo are stored
 where they belong when the axis is divided unevenly

---
 demo/RayleighBenard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index 4225399..beca1f3 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -130,7 +130,8 @@ class Stats(object):
     def get_stats(self, tofile=True):
         import h5py
         N = self.shape[0]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        stop = self.comm.scan(N)
+        s = slice(stop-N, stop, 1)
         Nd = self.num_samples*self.shape[1]*self.shape[2]
         self.comm.barrier()
         if tofile:
@@ -167,7 +168,8 @@ class Stats(object):
         self.num_samples = self.f0.attrs["num_samples"]
         Nd = self.num_samples*self.shape[1]*self.shape[2]
         #s = self.T.local_slice(False)[self.axis+1]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        stop = self.comm.scan(N)
+        s = slice(stop-N, stop, 1)
         for i, name in enumerate(("U", "V", "W")):
             self.Umean[i, :] = self.f0["Average/"+name][s]*Nd
         self.phim[:] = self.f0["Average/phi"][s]*Nd
-- 
2.43.0

