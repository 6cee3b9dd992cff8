From 7ba44cde52161d3fc4484342410774450db45458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:37 +0000
Subject: [PATCH 01/27] fix: remove the duplicated definition of D_RUS, which
 kept fluxes.cpp from compiling

---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From fd71e2547e00f2a4f4b804fc81cd3cbb2255a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 02/27] fix: include the reference temperature term in the
 density derivative of the temperature

---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 code/python/gpr/vars/mg.py        | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..65adee0 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = φ(ρ, MP) * Γ / ρ;
+  return MP.Tref * dφ -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..d35b4a8 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -277,7 +277,9 @@ def dTdρ(ρ, p, MP):
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    dφ = φ(ρ, MP) * Γ / ρ
+    ret = - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    return MP.Tref * dφ + ret
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From 29153fc248d43756e7bf2df115dca822bb7bb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 03/27] fix: put the pressure gradient into the momentum
 equation of the chosen direction in the wave-speed estimate

---
 code/cpp/src/system/eig.cpp        | 2 +-
 code/python/gpr/sys/eigenvalues.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..18fd6c0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
diff --git a/code/python/gpr/sys/eigenvalues.py b/code/python/gpr/sys/eigenvalues.py
index 7c077fc..88c13e8 100644
--- a/code/python/gpr/sys/eigenvalues.py
+++ b/code/python/gpr/sys/eigenvalues.py
@@ -14,7 +14,7 @@ def Xi1(P, d, MP):
     else:
         ret = zeros([3, 5])
 
-    ret[0, 1] = 1 / ρ
+    ret[d, 1] = 1 / ρ
 
     if VISCOUS:
         dσdρ = P.dσdρ()
-- 
2.43.0


From 1f7e8d4be911cb160f758106d95f347ad425ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 04/27] fix: initialise the WENO oscillation indicator before
 accumulating into it

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 43ee42c4024e9721adad4cc434490d4c60d959a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:03 +0000
Subject: [PATCH 05/27] fix: use the reference pressure in the energy
 derivative of the JWL and Cochran-Chan equations of state

---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index d35b4a8..e49d6e9 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From 5d339d6417a67707feb6b569be66b40be54ad309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 06/27] fix: fill the right-hand matrix of the thermal slip
 conditions

---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From 993b9c3e29e67d826ddc5eac5d1941a959f00f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:48 +0000
Subject: [PATCH 07/27] fix: couple the density to the velocity along the
 chosen direction in the wave-speed estimate

---
 code/cpp/src/system/eig.cpp        | 2 +-
 code/python/gpr/sys/eigenvalues.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 18fd6c0..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
diff --git a/code/python/gpr/sys/eigenvalues.py b/code/python/gpr/sys/eigenvalues.py
index 88c13e8..1cb741c 100644
--- a/code/python/gpr/sys/eigenvalues.py
+++ b/code/python/gpr/sys/eigenvalues.py
@@ -43,7 +43,7 @@ def Xi2(P, d, MP):
     else:
         ret = zeros([5, 3])
 
-    ret[0, 0] = ρ
+    ret[0, d] = ρ
     ret[1, d] = ρ * c0**2
 
     if VISCOUS:
-- 
2.43.0


From 02d8171c0d8beddfe8c34ca813a37c841ed2202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:25 +0000
Subject: [PATCH 08/27] fix: accumulate the flux of the second component like
 the other fluxes

---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 84c3fd223b3c4d838ed7930932308557d3ed16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:19 +0000
Subject: [PATCH 09/27] fix: size the stiff initial guess for two-dimensional
 cells too

---
 code/cpp/src/solvers/dg/initial_guess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..b9ae7f6 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,8 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  for (int i = 0; i < N; i++)
+    q.middleRows(i * NT, NT) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From 0cc7139f14c6ee2d95f824edf367b6f584c21868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:19 +0000
Subject: [PATCH 10/27] fix: solve for the predictor with Newton-Krylov when
 its iteration does not converge

---
 code/cpp/src/solvers/dg/dg1.cpp | 6 ++++--
 code/cpp/src/solvers/dg/dg2.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..2c58f88 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -94,10 +94,12 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
 
           absDiff = (q1 - q0).array().abs();
 
-          if ((absDiff > DG_TOL * (1 + q0.array().abs())).any()) {
+          bool moving = (absDiff > DG_TOL * (1 + q0.array().abs())).any();
+
+          if (moving && count < DG_IT - 1) {
             q0 = q1;
             continue;
-          } else if (q1.array().isNaN().any()) {
+          } else if (moving || q1.array().isNaN().any()) {
             stiff_initial_guess(q0, wi, N, dt, MP);
             VecMap q0v(q0.data(), N * N * V);
             qh.segment<N * N * V>(ind * N * N * V) =
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..08f9761 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -146,12 +146,14 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
 
           absDiff = (q1 - q0).array().abs();
 
-          if ((absDiff > DG_TOL * (1 + q0.array().abs())).any())
+          bool moving = (absDiff > DG_TOL * (1 + q0.array().abs())).any();
+
+          if (moving && count < DG_IT - 1)
           {
             q0 = q1;
             continue;
           }
-          else if (q1.array().isNaN().any())
+          else if (moving || q1.array().isNaN().any())
           {
             stiff_initial_guess(q0, wi, N * N, dt, MP);
             VecMap q0v(q0.data(), N * N * N * V);
-- 
2.43.0


From 79aed55b584ca366bf7c91f06f954e43582341aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 11/27] fix: do not treat the edges of a thread's part of a 2D
 grid as edges of the domain

---
 code/cpp/src/solvers/steppers.cpp  | 34 +++++++++++++++++++++---------
 code/cpp/src/solvers/weno/weno.cpp | 29 +++++++++++++++----------
 code/cpp/src/solvers/weno/weno.h   |  2 ++
 3 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/code/cpp/src/solvers/steppers.cpp b/code/cpp/src/solvers/steppers.cpp
index e095a87..3d99cbe 100644
--- a/code/cpp/src/solvers/steppers.cpp
+++ b/code/cpp/src/solvers/steppers.cpp
@@ -7,20 +7,26 @@
 #include "split/ode.h"
 #include "weno/weno.h"
 
-void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
-                  int FLUX, Par &MP, bVecr mask) {
+void ader_part(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+               int FLUX, Par &MP, bVecr mask, int start, int total) {
+  // Steps rows start,...,start+nX(0)-1 of a grid of total rows
 
   int ndim = nX.size();
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
   Vec qh(extended_dimensions(nX, 1) * int(pow(N, ndim + 1)) * V);
 
-  weno_launcher(wh, ub, nX, MP);
+  weno_part(wh, ub, nX, start, total, MP);
 
   predictor(qh, wh, dt, dX, STIFF, false, MP, mask);
 
   fv_launcher(u, qh, nX, dt, dX, true, true, FLUX, MP, mask);
 }
 
+void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                  int FLUX, Par &MP, bVecr mask) {
+  ader_part(u, ub, nX, dt, dX, STIFF, FLUX, MP, mask, 0, nX(0));
+}
+
 void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                        bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -39,23 +45,25 @@ void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     iVec nX0 = nX;
     nX0(0) = finish - start;
 
-    ader_stepper(
+    ader_part(
         u.segment(start * uRowSize, (finish - start) * uRowSize),
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize),
         nX0, dt, dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx);
   }
 }
 
-void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
-                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+void split_part(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool HALF_STEP,
+                int FLUX, Par &MP, bVecr mask, int start, int total) {
+  // Steps rows start,...,start+nX(0)-1 of a grid of total rows
 
   int ndim = nX.size();
   ode_launcher(u, dt / 2, MP);
   ode_launcher(ub, dt / 2, MP);
 
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
-  weno_launcher(wh, ub, nX, MP);
+  weno_part(wh, ub, nX, start, total, MP);
 
   if (HALF_STEP)
     midstepper(wh, dt, dX, MP, mask);
@@ -65,6 +73,11 @@ void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
   ode_launcher(u, dt / 2, MP);
 }
 
+void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+  split_part(u, ub, nX, dt, dX, HALF_STEP, FLUX, MP, mask, 0, nX(0));
+}
+
 void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                         bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -86,9 +99,10 @@ void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     Vec ub_ =
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize);
 
-    split_stepper(
+    split_part(
         u.segment(start * uRowSize, (finish - start) * uRowSize), ub_, nX0, dt,
         dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx);
   }
 }
diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..2b498ba 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -72,15 +72,17 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
 
-void weno1(Matr wh, Matr ub, int nx, int gap) {
+void weno1(Matr wh, Matr ub, int nx, int gap, int start, int total) {
   // Returns the WENO reconstruction of u using polynomials in x
   // Shape of ub: (nx + 2(N-1), V)
   // Shapw of wh: (nx * N, V)
+  // NOTE: these are rows start,...,start+nx-1 of a grid of total rows
   for (int i = 0; i < nx; i++)
-    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gap, i);
+    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), total, gap,
+           start + i);
 }
 
-void weno2(Matr wh, Matr ub, int nx, int ny) {
+void weno2(Matr wh, Matr ub, int nx, int ny, int start, int total) {
   // Returns the WENO reconstruction of u using polynomials in y
   // Size of ub: (nx + 2(N-1)) * (ny + 2(N-1)) * V
   // Size of wh: nx * ny * N * N * V
@@ -97,9 +99,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, N, start, total);
     else
-      weno1(tmp0, ubMap, nx, 0);
+      weno1(tmp0, ubMap, nx, 0, start, total);
     uxMap = tmp0Map;
   }
 
@@ -113,17 +115,18 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
       MatMap whMap(wh.data() + (i * ny * N + ii) * N * V, ny, N * V,
                    OuterStride(N * N * V));
 
-      if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1);
+      if (NO_CORNERS && (start + i == 0 || start + i == total - 1))
+        weno1(tmp1, uxMap, ny, 1, 0, ny);
       else
-        weno1(tmp1, uxMap, ny, 0);
+        weno1(tmp1, uxMap, ny, 0, 0, ny);
       whMap = tmp1Map;
     }
   // TODO: make this n-dimensional by turning these two sets of for loops into
   // n sets of for loops, contained within a large loop over the dimensions
 }
 
-void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+void weno_part(Vecr wh, Vecr ub, iVecr nX, int start, int total, Par &MP) {
+  // Reconstructs rows start,...,start+nX(0)-1 of a grid of total rows
   // NOTE: boundary conditions extend u by two cells in each dimension
 
   int ndim = nX.size();
@@ -143,11 +146,11 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
   switch (ndim) {
 
   case 1:
-    weno1(whMap, ubMap, nX(0) + 2, 0);
+    weno1(whMap, ubMap, nX(0) + 2, 0, start, total + 2);
     break;
 
   case 2:
-    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2);
+    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2, start, total + 2);
     break;
   }
 
@@ -155,3 +158,7 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
     for (int i = 0; i < nwh; i++)
       Cvec(wh.segment<V>(i * V), MP);
 }
+
+void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+  weno_part(wh, ub, nX, 0, nX(0), MP);
+}
diff --git a/code/cpp/src/solvers/weno/weno.h b/code/cpp/src/solvers/weno/weno.h
index 56def22..e670b88 100644
--- a/code/cpp/src/solvers/weno/weno.h
+++ b/code/cpp/src/solvers/weno/weno.h
@@ -3,6 +3,8 @@
 
 #include "../../etc/globals.h"
 
+void weno_part(Vecr wh, Vecr ub, iVecr nX, int start, int total, Par &MP);
+
 void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP);
 
 #endif // WENO_H
-- 
2.43.0


From dce41ad384bdfc0e41776f419eed42a8536b84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 12/27] fix: keep the last two states within the returned array
 when a run fails near its end

---
 code/cpp/src/solvers/iterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..5f5e734 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,6 +159,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
+      pushCount = std::min(pushCount, 98);
       ret[pushCount] = uprev;
       ret[pushCount + 1] = u;
       return ret;
-- 
2.43.0


From 70af5d20dd3bff2f02e9df4486afcadd12b613ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 13/27] fix: keep the principal stretches in order when
 relaxing an oblate distortion

---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 code/python/gpr/sys/analytical.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..d533db0 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -108,7 +108,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = atan2(sqrt(arg1), 9. * Δ);
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index 742bd3c..d20505b 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -1,4 +1,4 @@
-from numpy import arctan, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
+from numpy import arctan, arctan2, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
 from numpy.linalg import svd
 
 from gpr.misc.functions import L2_1D
@@ -101,7 +101,7 @@ def solver_distortion_analytic(A, dt, MP):
         x1 = tmp / 6 + u / tmp + m
 
     else:
-        θ = arctan(sqrt(arg1) / (9 * Δ))
+        θ = arctan2(sqrt(arg1), 9 * Δ)
         x1 = sqrt(6 * u) / 3 * cos(θ / 3) + m
 
     tmp2 = 3 * m - x1
-- 
2.43.0


From 975cf7bff55631d28727ad2b878892b7209ab15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 14/27] fix: do not relax elastic solids in the split solver

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 +++-
 code/python/gpr/sys/analytical.py           | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index d533db0..e61df9d 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -64,7 +64,9 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
-  } else
+  } else if (MP.SOLID)
+    return 0.;
+  else
     return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index d20505b..c00def0 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -62,6 +62,9 @@ def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
             tmp2 = (sqrt(c) * ρ * cs2 / (6 * sqrt(3)))**k
             return 2 / (k * λ) * log(tmp1 * tmp2 * dt + 1)
 
+    elif MP.SOLID:
+        return 0
+
     else:
         return MP.ρ0 * MP.b02 * detA3**7 / (3 * MP.μ) * dt
 
-- 
2.43.0


From 41b8b42c6e39df777a8d407de55c8530bcc27f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 15/27] fix: take the density and viscosity of a fluid's
 relaxation rate from its parameters

---
 code/python/gpr/vars/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..f3db636 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -33,7 +33,7 @@ def theta1inv(ρ, A, MP):
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
-- 
2.43.0


From f5d551903469fe13fc5f6602cd3da168821d95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 16/27] fix: relax fluids with the shear speed at their density

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++--
 code/python/gpr/sys/analytical.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index e61df9d..237c070 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -59,7 +59,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
-      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
+      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
@@ -67,7 +67,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
   } else if (MP.SOLID)
     return 0.;
   else
-    return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
+    return MP.ρ0 * c_s2(ρ, MP) * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index c00def0..e6a6a3a 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -57,7 +57,7 @@ def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
                      - 8 / 9 * b**3 - a**4 / 6 + 16 / 27 * a**3 * b
                      - 4 / 5 * a**2 * b**2 + 16 / 33 * a * b**3 - b**4 / 9)
 
-            τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * MP.b02)
+            τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * cs2)
             tmp1 = k * λ / τ1 * detA3**(4 * k + 7)
             tmp2 = (sqrt(c) * ρ * cs2 / (6 * sqrt(3)))**k
             return 2 / (k * λ) * log(tmp1 * tmp2 * dt + 1)
@@ -66,7 +66,7 @@ def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
         return 0
 
     else:
-        return MP.ρ0 * MP.b02 * detA3**7 / (3 * MP.μ) * dt
+        return MP.ρ0 * c_s2(ρ, MP) * detA3**7 / (3 * MP.μ) * dt
 
 
 def solver_distortion_analytic(A, dt, MP):
-- 
2.43.0


From e010f53071b5428a575c556f3a95f11fba9cf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:21 +0000
Subject: [PATCH 17/27] fix: keep a level set that has no interface within the
 grid

---
 code/cpp/src/multi/pfmm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..60cdef5 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,7 +20,11 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  int error = marcher->getError();
   delete marcher;
 
+  if (error) // there is no interface to measure the distance to
+    return phi;
+
   return dist;
 }
-- 
2.43.0


From 785173b8e19a42e6f9dacd339acc327e935edf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:21 +0000
Subject: [PATCH 18/27] fix: keep the probes on either side of an interface
 within the grid

---
 code/cpp/src/multi/fill.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..7d0406f 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -93,6 +93,12 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec position_inds(aVec x, aVecr dX, iVecr nX) {
+  // Returns the indexes of the cell containing x (or the closest one, if x lies
+  // outside the grid)
+  return (x / dX).cast<int>().max(0).min(nX.array() - 1);
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +111,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = position_inds(xi, dX, nX);
+  iVec xLVec = position_inds(xL, dX, nX);
+  iVec xRVec = position_inds(xR, dX, nX);
 
   int ndim = nX.size();
   switch (ndim) {
-- 
2.43.0


From 146ae72764dab2585eb95097d99d92385174beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:42 +0000
Subject: [PATCH 19/27] fix: extend ghost states from other cells within the
 grid only

---
 code/cpp/src/multi/fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 7d0406f..de0f9cf 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -250,7 +250,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = position_inds(xn, dX, nX);
 
   switch (ndim) {
   case 1:
@@ -265,7 +265,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   }
 
   // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  if (newInd == ind || intMask(newInd / V) < 1)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
-- 
2.43.0


From aee9b069ff834510442e67440dd137173680a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 20/27] fix: look for the inner state of an interface cell
 within the grid only

---
 code/cpp/src/multi/fill.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index de0f9cf..ddca1a7 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -6,7 +6,7 @@
 
 int iVec_to_ind(iVecr v) { return v(0) * V; }
 
-int iVec_to_ind(iVecr v, int ny) { return (v(0) * ny + v(1)) * V; }
+int iVec_to_ind(iVec v, int ny) { return (v(0) * ny + v(1)) * V; }
 
 void update_interface_mask(iVecr intMask, Vecr φ, int indL, int indR) {
   double φL = φ(indL);
@@ -93,10 +93,15 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec nearest_inds(iVec inds, iVecr nX) {
+  // Returns the indexes of the cell of the grid that is closest to inds
+  return inds.array().max(0).min(nX.array() - 1);
+}
+
 iVec position_inds(aVec x, aVecr dX, iVecr nX) {
   // Returns the indexes of the cell containing x (or the closest one, if x lies
   // outside the grid)
-  return (x / dX).cast<int>().max(0).min(nX.array() - 1);
+  return nearest_inds((x / dX).cast<int>(), nX);
 }
 
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
@@ -165,27 +170,27 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
 
     if (std::abs(n(0)) > std::abs(n(1))) {
       Linds(0) -= n0;
-      Lind = iVec_to_ind(Linds, nX(1));
+      Lind = iVec_to_ind(nearest_inds(Linds, nX), nX(1));
       if (get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = n0;
         n(1) = 0.;
       } else {
         Linds(0) += n0;
         Linds(1) -= n1;
-        Lind = iVec_to_ind(Linds, nX(1));
+        Lind = iVec_to_ind(nearest_inds(Linds, nX), nX(1));
         n(0) = 0.;
         n(1) = n1;
       }
     } else {
       Linds(1) -= n1;
-      Lind = iVec_to_ind(Linds, nX(1));
+      Lind = iVec_to_ind(nearest_inds(Linds, nX), nX(1));
       if (get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = 0.;
         n(1) = n1;
       } else {
         Linds(0) -= n0;
         Linds(1) += n1;
-        Lind = iVec_to_ind(Linds, nX(1));
+        Lind = iVec_to_ind(nearest_inds(Linds, nX), nX(1));
         n(0) = n0;
         n(1) = 0.;
       }
-- 
2.43.0


From f7c453bcf98201cbd0aa3532d634b249995112e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 21/27] fix: fill the ghosts at an interface from the states
 before any was filled

---
 code/cpp/src/multi/fill.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index ddca1a7..2eca76a 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -142,23 +142,24 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   return ret;
 }
 
-void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
-                         int mat, std::vector<Par> &MPs, double dt, Vecr n,
-                         int indn) {
-  // Attempts to fill the boundary cell at location given by inds.
+void fill_boundary_inner(Vecr grid, Vecr old, iVecr inds, aVecr dX, iVecr nX,
+                         double φi, int mat, std::vector<Par> &MPs, double dt,
+                         Vecr n, int indn) {
+  // Attempts to fill the boundary cell at location given by inds, from the
+  // states that the grid held before any of its cells was filled.
   // TODO: handle case when QL is chosen to be an isolated point
 
   BoundaryInds bInds = boundary_inds(inds, φi, n, dX, nX);
 
   VecV QL;
-  VecV QR = grid.segment<V>(bInds.R);
+  VecV QR = old.segment<V>(bInds.R);
   int miR = get_material_index(QR);
 
   if (get_material_index(grid.segment<V>(bInds.interf)) == mat)
-    QL = grid.segment<V>(bInds.interf);
+    QL = old.segment<V>(bInds.interf);
 
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
-    QL = grid.segment<V>(bInds.L);
+    QL = old.segment<V>(bInds.L);
 
   else { // should only happen if ndim>1
     iVec Linds = inds;
@@ -196,9 +197,9 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
       }
     }
     if (get_material_index(grid.segment<V>(Lind)) == mat)
-      QL = grid.segment<V>(Lind);
+      QL = old.segment<V>(Lind);
     else
-      QL = grid.segment<V>(indn * V);
+      QL = old.segment<V>(indn * V);
   }
 
   VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
@@ -213,6 +214,7 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
   int ndim = nX.size();
   int nx = nX(0);
   Vec n(ndim);
+  Vec old = grid;
 
   switch (ndim) {
 
@@ -222,7 +224,8 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        fill_boundary_inner(grid, old, inds, dX, nX, φ(ind), mat, MPs, dt, n,
+                            -1);
       }
     }
     break;
@@ -237,7 +240,7 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
           n = normal(Δφ.row(ind));
           iVec inds(2);
           inds << i, j;
-          fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
+          fill_boundary_inner(grid, old, inds, dX, nX, φ(ind), mat, MPs, dt, n,
                               indn);
         }
       }
-- 
2.43.0


From a34616604e754ca348bd7193dc39e0bc194e3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 22/27] fix: judge convergence of the nonlinear solver by the
 step just taken

---
 code/cpp/src/scipy/newton_krylov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 7c5a5d4..5fff4b5 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -163,7 +163,7 @@ Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol,
       break;
 
     double tol = std::min(eta, eta * Fx_norm);
-    Vec dx = -jacobian.solve(Fx, tol);
+    dx = -jacobian.solve(Fx, tol);
 
     _nonlin_line_search(F, x, Fx, dx);
     double Fx_norm_new = Fx.norm();
-- 
2.43.0


From cdceba23b28aab4fd05b288b4edc7c5da53c2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 23/27] fix: let phase densities follow pressure in the energy
 derivative of mixtures

---
 code/cpp/src/system/energy/derivatives.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 0a8a284..d59cca3 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -55,10 +55,23 @@ double dEdp(VecVr Q, Par &MP) {
     double λ = Q(mV) / ρ;
 
     Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
     double ρ1 = sol(1);
     double ρ2 = sol(2);
 
-    return λ * dedp(ρ1, MP) + (1 - λ) * dedp(ρ2, MP.MP2);
+    double a1 = λ / (ρ1 * ρ1);
+    double a2 = (1 - λ) / (ρ2 * ρ2);
+    double c = a1 * dTdρ(ρ2, p, MP.MP2) + a2 * dTdρ(ρ1, p, MP);
+    double dT = dTdp(ρ2, MP.MP2) - dTdp(ρ1, MP);
+
+    // the phase densities change with p, so that the temperatures stay equal
+    double dρ1 = a2 * dT / c;
+    double dρ2 = -a1 * dT / c;
+
+    double tmp1 = λ * (dedp(ρ1, MP) + dedρ(ρ1, p, MP) * dρ1);
+    double tmp2 = (1 - λ) * (dedp(ρ2, MP.MP2) + dedρ(ρ2, p, MP.MP2) * dρ2);
+
+    return tmp1 + tmp2;
   } else {
     return dedp(ρ, MP);
   }
-- 
2.43.0


From d750ce49c93011d95dd09998e84a587731bae398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 24/27] fix: choose the constants of the second phase by its
 own equation of state

---
 code/python/gpr/misc/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..1e3a604 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,22 +147,22 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
-- 
2.43.0


From b2fa114d9276093b82ec9de5884ebb2c1cbd6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 25/27] fix: compare a material's reaction with its code

---
 code/python/gpr/misc/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..059e294 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,7 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -85,11 +86,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
-- 
2.43.0


From 06ee954070df2542513205df5e8004bfe20e1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 26/27] fix: import the logarithm the hyperelastic entropy uses

---
 code/python/gpr/vars/hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
-- 
2.43.0


From fd0f32bd1a07fe37dda67d3dfad9ad8298431e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:49 +0000
Subject: [PATCH 27/27] fix: use the ignition limit and reference density in
 the Python reaction rate

---
 code/python/gpr/vars/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index f3db636..be0daf9 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -93,15 +93,15 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
     φ = 1 - λ
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ:
+        ret += I * λ**b * (ρ / MP.ρ0 - 1 - a)**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
-- 
2.43.0

