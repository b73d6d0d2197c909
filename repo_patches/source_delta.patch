From 13a6807a85fef256edb76476054be942b5dea75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 01/21] fix: keep the loads of a parked rotor that is aligned
 with the wind

With Omega = 0 and no yaw or tilt the tangential velocity is exactly zero
and every section was reported as unloaded (and the gradients as NaN).
---
 ccblade/ccblade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..65b3900 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -716,7 +716,8 @@ class CCBlade(object):
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
-        if Vx != 0.0 and Vy != 0.0:
+        # a parked rotor aligned with the wind (Vy = 0) is still loaded
+        if Vx != 0.0 and (Vy != 0.0 or not rotating):
 
             cphi = np.cos(phi)
             sphi = np.sin(phi)
-- 
2.43.0


From 8fd9dc0bf4bbd94ca0a24a358323af2b376392b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 02/21] fix: differentiate the polars at the Reynolds number
 they are evaluated at

The loads use cl, cd at the Reynolds number without induction, but their
gradients used the slopes (and the Reynolds number sensitivity) of the
induced velocity, so gradients were off for multi-Reynolds polars.
---
 ccblade/ccblade.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 65b3900..1ddecc4 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -781,12 +781,16 @@ class CCBlade(object):
                     self.mu,
                 )
 
-                # cl, cd (spline derivatives)
-                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
+                # cl, cd (spline derivatives) at the Reynolds number they were evaluated at (no induction)
+                _, W0, Re0 = _bem.relativewind(phi, 0.0, 0.0, Vx, Vy, self.pitch, chord, theta, self.rho, self.mu)
+                dRe0_dx = np.array(
+                    [0.0, Re0 / chord, 0.0, Re0 * Vx / W0 ** 2, Re0 * Vy / W0 ** 2, 0.0, 0.0, 0.0, 0.0]
+                )
+                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re0)
 
                 # chain rule
-                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
-                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
+                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe0_dx
+                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe0_dx
 
                 # cn, cd
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
-- 
2.43.0


From 692d0d787f3aaff4aeb5e57666c58a68c7aa2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 03/21] fix: zero polar slopes beyond the tabulated Reynolds
 numbers and angles

CCAirfoil.evaluate is constant outside of the table, but derivatives()
returned the slope at the edge of the table there.
---
 ccblade/ccblade.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 1ddecc4..db81468 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -224,6 +224,16 @@ class CCAirfoil(object):
             except:
                 dcl_dRe = 0.0
                 dcd_dRe = 0.0
+
+        # the splines are constant beyond the tabulated range
+        alpha_knots, Re_knots = self.cl_spline.get_knots()
+        if np.ndim(alpha) == 0 and not alpha_knots[0] <= alpha <= alpha_knots[-1]:
+            dcl_dalpha = 0.0
+            dcd_dalpha = 0.0
+        if np.ndim(Re) == 0 and not Re_knots[0] <= Re <= Re_knots[-1]:
+            dcl_dRe = 0.0
+            dcd_dRe = 0.0
+
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
 
     def eval_unsteady(self, alpha, cl, cd, cm):
-- 
2.43.0


From a7d3d6d8002985affde405b2f9c053c4df49be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 04/21] fix: slopes of polars with two Reynolds numbers or two
 angles of attack

bisplev cannot differentiate a direction of degree one: the Reynolds number
slope was silently replaced by zero, and two angles raised a ValueError.
---
 ccblade/ccblade.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index db81468..2b03996 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -207,23 +207,25 @@ class CCAirfoil(object):
 
     def derivatives(self, alpha, Re):
 
-        # note: direct call to bisplev will be unnecessary with latest scipy update (add derivative method)
-        tck_cl = self.cl_spline.tck[:3] + self.cl_spline.degrees  # concatenate lists
-        tck_cd = self.cd_spline.tck[:3] + self.cd_spline.degrees
-
-        dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
-        dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
+        def slope(spline, dx, dy):
+            # with only two data points in a direction the spline is linear there, which bisplev does not differentiate
+            x, y = spline.get_knots()
+            if dx > 0 and spline.degrees[0] == 1:
+                return (spline.ev(x[-1], Re) - spline.ev(x[0], Re)) / (x[-1] - x[0])
+            if dy > 0 and spline.degrees[1] == 1:
+                return (spline.ev(alpha, y[-1]) - spline.ev(alpha, y[0])) / (y[-1] - y[0])
+            # note: direct call to bisplev will be unnecessary with latest scipy update (add derivative method)
+            return bisplev(alpha, Re, spline.tck[:3] + spline.degrees, dx=dx, dy=dy)
+
+        dcl_dalpha = slope(self.cl_spline, 1, 0)
+        dcd_dalpha = slope(self.cd_spline, 1, 0)
 
         if self.one_Re:
             dcl_dRe = 0.0
             dcd_dRe = 0.0
         else:
-            try:
-                dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
-                dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
-            except:
-                dcl_dRe = 0.0
-                dcd_dRe = 0.0
+            dcl_dRe = slope(self.cl_spline, 0, 1)
+            dcd_dRe = slope(self.cd_spline, 0, 1)
 
         # the splines are constant beyond the tabulated range
         alpha_knots, Re_knots = self.cl_spline.get_knots()
-- 
2.43.0


From f0ac5a93f216896109cd264af736d8d3f2f60ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 05/21] fix: include the off-diagonal terms of the gradients
 with respect to r

The local cone angle depends on the radial position of the neighboring
stations when the blade is curved, so the Jacobians with respect to r are
tridiagonal (as with respect to precurve), not diagonal.
---
 ccblade/ccblade.py | 61 ++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 2b03996..2891949 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -846,7 +846,7 @@ class CCBlade(object):
         )
 
         if not self.derivatives:
-            return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
         # y = [r, precurve, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]  (derivative order)
         n = len(self.r)
@@ -877,8 +877,8 @@ class CCBlade(object):
             dy_dy[:, 3 * n + 4],
         )
 
-        dVx_dr = np.diag(Vxd[:n, :])  # off-diagonal terms are known to be zero and not needed
-        dVy_dr = np.diag(Vyd[:n, :])
+        dVx_dr = Vxd[:n, :]  # tri-diagonal, as the local cone angle depends on the neighboring stations
+        dVy_dr = Vyd[:n, :]
 
         dVx_dcurve = Vxd[n : 2 * n, :]  # tri-diagonal  (note: dVx_j / dcurve_i  i==row)
         dVy_dcurve = Vyd[n : 2 * n, :]  # off-diagonal are actually all zero, but leave for convenience
@@ -886,11 +886,11 @@ class CCBlade(object):
         dVx_dsweep = np.diag(Vxd[2 * n : 3 * n, :])  # off-diagonal terms are known to be zero and not needed
         dVy_dsweep = np.diag(Vyd[2 * n : 3 * n, :])
 
-        # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
-        dVx_dw = np.vstack((dVx_dr, dVx_dsweep, Vxd[3 * n :, :]))
-        dVy_dw = np.vstack((dVy_dr, dVy_dsweep, Vyd[3 * n :, :]))
+        # w = [presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
+        dVx_dw = np.vstack((dVx_dsweep, Vxd[3 * n :, :]))
+        dVy_dw = np.vstack((dVy_dsweep, Vyd[3 * n :, :]))
 
-        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve
+        return Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve
 
     def distributedAeroLoads(self, Uinf, Omega, pitch, azimuth):
         """Compute distributed aerodynamic loads along blade.
@@ -932,8 +932,8 @@ class CCBlade(object):
             - dNp : dictionary containing arrays (present if ``self.derivatives = True``)
                 derivatives of normal loads.  Each item in the dictionary a 2D Jacobian.
                 The array sizes and keys are (where n = number of stations along blade):
-                n x n (diagonal): 'dr', 'dchord', 'dtheta', 'dpresweep'
-                n x n (tridiagonal): 'dprecurve'
+                n x n (diagonal): 'dchord', 'dtheta', 'dpresweep'
+                n x n (tridiagonal): 'dr', 'dprecurve'
                 n x 1: 'dRhub', 'dRtip', 'dprecone', 'dtilt', 'dhubHt', 'dyaw', 'dshear', 'dazimuth', 'dUinf', 'dOmega', 'dpitch'
                 for example dNp_dr = dNp['dr']  (where dNp_dr is an n x n array)
                 and dNp_dr[i, j] = dNp_i / dr_j
@@ -945,7 +945,7 @@ class CCBlade(object):
         azimuth = np.deg2rad(azimuth)
 
         # component of velocity at each radial station
-        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
+        Vx, Vy, dVx_dw, dVy_dw, dVx_dr, dVy_dr, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
 
         # initialize
         n = len(self.r)
@@ -1086,15 +1086,16 @@ class CCBlade(object):
             dNp_dprecurve = dNp_dVx * dVx_dcurve + dNp_dVy * dVy_dcurve
             dTp_dprecurve = dTp_dVx * dVx_dcurve + dTp_dVy * dVy_dcurve
 
+            dNp_dr = np.diag(dNp_dz[0, :]) + dNp_dVx * dVx_dr + dNp_dVy * dVy_dr
+            dTp_dr = np.diag(dTp_dz[0, :]) + dTp_dVx * dVx_dr + dTp_dVy * dVy_dr
+
             # stack
             # z = [r, chord, theta, Rhub, Rtip, pitch]
-            # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
+            # w = [presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
             # X = [r, chord, theta, Rhub, Rtip, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega, pitch]
-            dNp_dz[0, :] += dNp_dw[0, :]  # add partial w.r.t. r
-            dTp_dz[0, :] += dTp_dw[0, :]
-
-            dNp_dX = np.vstack((dNp_dz[:-1, :], dNp_dw[1:, :], dNp_dz[-1, :]))
-            dTp_dX = np.vstack((dTp_dz[:-1, :], dTp_dw[1:, :], dTp_dz[-1, :]))
+            # (the row of r only has the direct effect of r, see dNp_dr for the total)
+            dNp_dX = np.vstack((dNp_dz[:-1, :], dNp_dw, dNp_dz[-1, :]))
+            dTp_dX = np.vstack((dTp_dz[:-1, :], dTp_dw, dTp_dz[-1, :]))
 
             # add chain rule for conversion to radians
             ridx = [2, 6, 7, 9, 11, 14]
@@ -1105,6 +1106,8 @@ class CCBlade(object):
             # (intended for internal use only.  not to be accessed by user)
             self._dNp_dX = dNp_dX
             self._dTp_dX = dTp_dX
+            self._dNp_dr = dNp_dr
+            self._dTp_dr = dTp_dr
             self._dNp_dprecurve = dNp_dprecurve
             self._dTp_dprecurve = dTp_dprecurve
 
@@ -1113,8 +1116,6 @@ class CCBlade(object):
             dTp = {}
 
             # n x n (diagonal)
-            dNp["dr"] = np.diag(dNp_dX[0, :])
-            dTp["dr"] = np.diag(dTp_dX[0, :])
             dNp["dchord"] = np.diag(dNp_dX[1, :])
             dTp["dchord"] = np.diag(dTp_dX[1, :])
             dNp["dtheta"] = np.diag(dNp_dX[2, :])
@@ -1123,6 +1124,8 @@ class CCBlade(object):
             dTp["dpresweep"] = np.diag(dTp_dX[5, :])
 
             # n x n (tridiagonal)
+            dNp["dr"] = dNp_dr.T
+            dTp["dr"] = dTp_dr.T
             dNp["dprecurve"] = dNp_dprecurve.T
             dTp["dprecurve"] = dTp_dprecurve.T
 
@@ -1322,7 +1325,15 @@ class CCBlade(object):
                         dQ_dv_sub,
                         dM_dv_sub,
                     ) = self.__thrustTorqueDeriv(
-                        Np, Tp, self._dNp_dX, self._dTp_dX, self._dNp_dprecurve, self._dTp_dprecurve, *args
+                        Np,
+                        Tp,
+                        self._dNp_dX,
+                        self._dTp_dX,
+                        self._dNp_dr,
+                        self._dTp_dr,
+                        self._dNp_dprecurve,
+                        self._dTp_dprecurve,
+                        *args
                     )
 
                     dT_ds[i, :] += self.B * dT_ds_sub / nsec
@@ -1510,6 +1521,8 @@ class CCBlade(object):
         Tp,
         dNp_dX,
         dTp_dX,
+        dNp_dr,
+        dTp_dr,
         dNp_dprecurve,
         dTp_dprecurve,
         r,
@@ -1552,11 +1565,11 @@ class CCBlade(object):
         dQ_dX = dQ_dNp * dNp_dX + dQ_dTp * dTp_dX
         dM_dX = dM_dNp * dNp_dX + dM_dTp * dTp_dX
 
-        dT_dr = dT_dX[0, :] + rb[0, :]
-        dY_dr = dY_dX[0, :] + rb[1, :]
-        dZ_dr = dZ_dX[0, :] + rb[2, :]
-        dQ_dr = dQ_dX[0, :] + rb[3, :]
-        dM_dr = dM_dX[0, :] + rb[4, :]
+        dT_dr = np.sum(dT_dNp * dNp_dr + dT_dTp * dTp_dr, axis=1) + rb[0, :]
+        dY_dr = np.sum(dY_dNp * dNp_dr + dY_dTp * dTp_dr, axis=1) + rb[1, :]
+        dZ_dr = np.sum(dZ_dNp * dNp_dr + dZ_dTp * dTp_dr, axis=1) + rb[2, :]
+        dQ_dr = np.sum(dQ_dNp * dNp_dr + dQ_dTp * dTp_dr, axis=1) + rb[3, :]
+        dM_dr = np.sum(dM_dNp * dNp_dr + dM_dTp * dTp_dr, axis=1) + rb[4, :]
 
         dT_dchord = dT_dX[1, :]
         dY_dchord = dY_dX[1, :]
-- 
2.43.0


From 8e1acbaf67273466a64f6d04c847578db9320afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 06/21] fix: gradients of coefficients that are zero

The logarithmic form 0 * (dX / 0) gave NaN gradients for CY, CZ, CMy, CMz
of axisymmetric rotors and for CP of parked rotors.
---
 ccblade/ccblade.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 2891949..b9ad0f5 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1422,34 +1422,39 @@ class CCBlade(object):
                 dU_ds = np.zeros((npts, 12))
                 dU_ds[:, 9] = 1.0
 
-                dOmega_ds = np.zeros((npts, 12))
-                dOmega_ds[:, 10] = 1.0
-
                 dq_ds = (self.rho * Uinf * dU_ds.T).T
 
-                dCT_ds = (CT * (dT_ds.T / T - dA_ds.T / A - dq_ds.T / q)).T
+                dCT_ds = (dT_ds.T / (q * A) - CT * (dA_ds.T / A + dq_ds.T / q)).T
                 dCT_dv = (dT_dv.T / (q * A)).T
 
-                dCY_ds = (CY * (dY_ds.T / Y - dA_ds.T / A - dq_ds.T / q)).T
+                dCY_ds = (dY_ds.T / (q * A) - CY * (dA_ds.T / A + dq_ds.T / q)).T
                 dCY_dv = (dY_dv.T / (q * A)).T
 
-                dCZ_ds = (CZ * (dZ_ds.T / Z - dA_ds.T / A - dq_ds.T / q)).T
+                dCZ_ds = (dZ_ds.T / (q * A) - CZ * (dA_ds.T / A + dq_ds.T / q)).T
                 dCZ_dv = (dZ_dv.T / (q * A)).T
 
-                dCQ_ds = (CQ * (dQ_ds.T / Q - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCQ_ds = (
+                    dQ_ds.T / (q * self.rotorR * A) - CQ * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCQ_dv = (dQ_dv.T / (q * self.rotorR * A)).T
 
-                dCMy_ds = (CMy * (dMy_ds.T / My - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMy_ds = (
+                    dMy_ds.T / (q * self.rotorR * A) - CMy * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMy_dv = (dMy_dv.T / (q * self.rotorR * A)).T
 
-                dCMz_ds = (CMz * (dMz_ds.T / Mz - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMz_ds = (
+                    dMz_ds.T / (q * self.rotorR * A) - CMz * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMz_dv = (dMz_dv.T / (q * self.rotorR * A)).T
 
-                dCMb_ds = (CMb * (dMb_ds.T / Mb - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMb_ds = (
+                    dMb_ds.T / (q * self.rotorR * A) - CMb * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMb_dv = (dMb_dv.T / (q * self.rotorR * A)).T
 
-                dCP_ds = (CP * (dQ_ds.T / Q + dOmega_ds.T / Omega - dA_ds.T / A - dq_ds.T / q - dU_ds.T / Uinf)).T
-                dCP_dv = (dQ_dv.T * CP / Q).T
+                dCP_ds = (dP_ds.T / (q * A * Uinf) - CP * (dA_ds.T / A + dq_ds.T / q + dU_ds.T / Uinf)).T
+                dCP_dv = (dP_dv.T / (q * A * Uinf)).T
 
                 # pack derivatives into dictionary
                 dCT, dCY, dCZ, dCQ, dCMy, dCMz, dCMb, dCP = self.__thrustTorqueDictionary(
-- 
2.43.0


From d5d7267f872ee4f573d6d98a7ddc590095e8e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 07/21] fix: raise the error about gradients with iterRe > 1

The ValueError was created but not raised, and gradients of a different
function were returned.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index b9ad0f5..b927a60 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -678,7 +678,7 @@ class CCBlade(object):
         """derivatives of fzero, a, ap"""
 
         if self.iterRe != 1:
-            ValueError("Analytic derivatives not supplied for case with iterRe > 1")
+            raise ValueError("Analytic derivatives not supplied for case with iterRe > 1")
 
         # x = [phi, chord, theta, Vx, Vy, r, Rhub, Rtip, pitch]  (derivative order)
 
-- 
2.43.0


From 57b3639e39969a208c32830476c0851a96446947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 08/21] fix: accept integer and generic sequences for r,
 precurve and presweep

Moving the end stations off the hub and the tip was truncated for integer
arrays (unloading the station), and sequences without copy() failed.
---
 ccblade/ccblade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index b927a60..2d569d7 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -563,7 +563,7 @@ class CCBlade(object):
         derivatives : boolean, optional
             if True, derivatives along with function values will be returned for the various methods
         """
-        r = np.array(r)
+        r = np.array(r, dtype=float)
         self.r = r.copy()
         self.chord = np.array(chord)
         self.theta = np.deg2rad(theta)
@@ -591,9 +591,9 @@ class CCBlade(object):
             presweep = np.zeros(len(r))
             presweepTip = 0.0
 
-        self.precurve = precurve.copy()
+        self.precurve = np.array(precurve, dtype=float)
         self.precurveTip = precurveTip
-        self.presweep = presweep.copy()
+        self.presweep = np.array(presweep, dtype=float)
         self.presweepTip = presweepTip
 
         # Enfore unique points at tip and hub
-- 
2.43.0


From befe00d1622385410b4d9a04f1fad00d6b4f0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 09/21] fix: use the wind speed of each station when Uinf is an
 array

distributedAeroLoads documents an array of wind speeds along the blade but
only the first value was used, at all stations.
---
 ccblade/ccblade.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 2d569d7..9770af1 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -831,6 +831,13 @@ class CCBlade(object):
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
 
+        if np.size(Uinf) > 1:  # wind speed specified at each radial location
+            stations = [self.__windComponents(Ui, Omega, azimuth) for Ui in Uinf]
+            return tuple(
+                np.stack([v[..., i] for i, v in enumerate(values)], axis=-1) if np.ndim(values[0]) > 0 else 0.0
+                for values in zip(*stations)
+            )
+
         Vx, Vy = _bem.windcomponents(
             self.r,
             self.precurve,
-- 
2.43.0


From 4255a1ffebe4ea47a60a6c78106dade70ccaffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 10/21] fix: loss factors in the propeller brake region

The tip and hub loss factors use the magnitude of sin(phi): with a negative
inflow angle they were NaN, so that the propeller brake solution could never
be found when either loss was on.
---
 ccblade/src/bem.f90 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index de7085a..d995af6 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -57,15 +57,13 @@ subroutine inductionFactors(r, chord, Rhub, Rtip, phi, cl, cd, B, &
     ! Prandtl's tip and hub loss factor
     Ftip = 1.0_dp
     if ( tipLoss ) then
-        ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-        factortip = B/2.0_dp*(Rtip - r)/(r*sphi)
+        factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
         Ftip = 2.0_dp/pi*acos(exp(-factortip))
     end if
 
     Fhub = 1.0_dp
     if ( hubLoss ) then
-        ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*sphi)
+        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
         Fhub = 2.0_dp/pi*acos(exp(-factorhub))
     end if
 
@@ -446,13 +444,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   ftip = 1.0_dp
   IF (tiploss) THEN
 ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-    temp = 2.0_dp*r*sphi
+    temp = 2.0_dp*r*ABS(sphi)
     temp0 = (rtip-r)/temp
     factortip = b*temp0
     arg1 = EXP(-factortip)
     DO nd=1,nbdirs
-      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(sphi*2.0_dp*rd(nd)+&
-&       2.0_dp*r*sphid(nd)))/temp
+      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(ABS(sphi)*2.0_dp*rd(nd)+&
+&       2.0_dp*r*SIGN(1.0_dp, sphi)*sphid(nd)))/temp
       arg1d(nd) = -(EXP(-factortip)*factortipd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
@@ -469,13 +467,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   fhub = 1.0_dp
   IF (hubloss) THEN
 ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-    temp0 = 2.0_dp*rhub*sphi
+    temp0 = 2.0_dp*rhub*ABS(sphi)
     temp = (r-rhub)/temp0
     factorhub = b*temp
     arg1 = EXP(-factorhub)
     DO nd=1,nbdirs
-      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(sphi*2.0_dp*rhubd(nd)+&
-&       2.0_dp*rhub*sphid(nd)))/temp0
+      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(ABS(sphi)*2.0_dp*rhubd(nd)+&
+&       2.0_dp*rhub*SIGN(1.0_dp, sphi)*sphid(nd)))/temp0
       arg1d(nd) = -(EXP(-factorhub)*factorhubd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
-- 
2.43.0


From 8480cacc6bf2364a34b397a5a36d341efabc3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 11/21] fix: write one entry per line in AeroDyn files

The files had no line breaks, and could not be read back.
---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..7446960 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -776,32 +776,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From 83e9d88443b61d35b25c09e56300be4e84b5d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 12/21] fix: do not duplicate the lowest angle of attack in
 extrapolate

When the polar reaches as far down as up (or further), its first angle of
attack appeared twice in the result, which can then not be splined.
---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7446960..a5acd84 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -280,6 +280,8 @@ class Polar(object):
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
         alpha5 = alpha5[1:]
+        if alpha_low <= -alpha_high:
+            alpha5 = alpha5[:-1]  # alpha_low is the first point of the polar
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
-- 
2.43.0


From 0aa4ee8ea2285cfd63f4bc46b06b9ed98ca447d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 13/21] fix: keep the pitching moment at the ends of the polar
 in extrapolate

When the first or last angle of attack is a multiple of 10 deg, a zero was
placed at the same angle, which replaced the moment of the polar there.
---
 ccblade/airfoilprep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index a5acd84..96ef910 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -306,6 +306,9 @@ class Polar(object):
         alpha_num = abs(int((-180.0 - cm1_alpha) / 10.0 - 1))
         alpha_cm1 = np.linspace(-180.0, cm1_alpha, alpha_num)
         alpha_cm2 = np.linspace(cm2_alpha, 180.0, int((180.0 - cm2_alpha) / 10.0 + 1))
+        # the ends of the polar are already in the polar
+        alpha_cm1 = alpha_cm1[alpha_cm1 < self.alpha[0]]
+        alpha_cm2 = alpha_cm2[alpha_cm2 > self.alpha[-1]]
         alpha_cm = np.concatenate(
             (alpha_cm1, self.alpha, alpha_cm2)
         )  # Specific alpha values are needed for cm function to work
-- 
2.43.0


From 5c820921307d0165a9d02fecddc4b01845b0f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 14/21] fix: blend airfoils at every Reynolds number of the two

---
 ccblade/airfoilprep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 96ef910..b49f013 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -667,6 +667,7 @@ class Airfoil(object):
             p1 = self.getPolar(Relist[i])
             p2 = other.getPolar(Relist[i])
             polars[i] = p1.blend(p2, weight)
+            polars[i].Re = Relist[i]  # also beyond the range of one of the airfoils, where its closest polar is used
 
         return Airfoil(polars)
 
-- 
2.43.0


From 6f6907b7142f1d44a360c3ff5756e11778cfbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 15/21] fix: angle of attack for minimum drag in degrees

---
 ccblade/airfoilprep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index b49f013..c549e6e 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -471,7 +471,7 @@ class Polar(object):
 
         # return: control setting, stall angle, alpha for 0 cn, cn slope,
         #         cn at stall+, cn at stall-, alpha for min CD, min(CD)
-        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, alpha[minIdx], cd[minIdx])
+        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, self.alpha[minIdx], cd[minIdx])
 
     def plot(self):
         """plot cl/cd/cm polar
-- 
2.43.0


From 3609a6d03636a9ab5088db6bac0d169d66428190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 16/21] fix: cross product of single vectors is a single vector

---
 ccblade/csystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 934616d..e8a125f 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -384,8 +384,8 @@ class DirectionVector(object):
             vector = self X other
 
         """
-        v1 = np.c_[self.x, self.y, self.z]
-        v2 = np.c_[other.x, other.y, other.z]
+        v1 = np.stack(np.broadcast_arrays(self.x, self.y, self.z), axis=-1)
+        v2 = np.stack(np.broadcast_arrays(other.x, other.y, other.z), axis=-1)
         v = np.cross(v1, v2)
 
         if len(v.shape) > 1:
-- 
2.43.0


From 47c41a6668bddb18c899c1cee20632f86d9b7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 17/21] fix: power, thrust, torque and root moment of
 CCBladeTwist

The four outputs were declared but never set. The thrust is a force.
---
 ccblade/ccblade_component.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..dc25200 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -500,7 +500,7 @@ class CCBladeTwist(ExplicitComponent):
         )
 
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("T", val=0.0, units="N*m", desc="Rotor aerodynamic thrust")
+        self.add_output("T", val=0.0, units="N", desc="Rotor aerodynamic thrust")
         self.add_output("Q", val=0.0, units="N*m", desc="Rotor aerodynamic torque")
         self.add_output("M", val=0.0, units="N*m", desc="Blade root flapwise moment")
 
@@ -653,6 +653,7 @@ class CCBladeTwist(ExplicitComponent):
         # Call ccblade evaluate (averaging across azimuth)
         myout, _ = ccblade.evaluate([inputs["Uhub"]], [Omega], [inputs["pitch"]], coefficients=True)
         CP, CMb, W = [myout[key] for key in ["CP", "CMb", "W"]]
+        P, T, Q, Mb = [myout[key] for key in ["P", "T", "Q", "Mb"]]
 
         # import matplotlib.pyplot as plt
         # plt.figure()
@@ -668,6 +669,10 @@ class CCBladeTwist(ExplicitComponent):
         outputs["theta"] = ccblade.theta
         outputs["CP"] = CP[0]
         outputs["CM"] = CMb[0]
+        outputs["P"] = P[0]
+        outputs["T"] = T[0]
+        outputs["Q"] = Q[0]
+        outputs["M"] = Mb[0]
         outputs["local_airfoil_velocities"] = np.nan_to_num(W)
         outputs["a"] = loads["a"]
         outputs["ap"] = loads["ap"]
-- 
2.43.0


From 6bc24ac5319fb7778cc3c59058cd4565f825f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:35 +0000
Subject: [PATCH 18/21] fix: airfoil loads of CCBladeTwist at a pitch angle

The airfoil frame is rotated from the blade frame by twist and pitch.
---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index dc25200..e6be5aa 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -688,7 +688,7 @@ class CCBladeTwist(ExplicitComponent):
         outputs["Pz_b"] = 0 * loads["Np"]
         # Forces in the airfoil coordinate system, pag 21 of https://www.nrel.gov/docs/fy13osti/58819.pdf
         P_b = DirectionVector(loads["Np"], -loads["Tp"], 0)
-        P_af = P_b.bladeToAirfoil(ccblade.theta * 180.0 / np.pi)
+        P_af = P_b.bladeToAirfoil(ccblade.theta * 180.0 / np.pi + inputs["pitch"])
         outputs["Px_af"] = P_af.x
         outputs["Py_af"] = P_af.y
         outputs["Pz_af"] = P_af.z
-- 
2.43.0


From 6ed1f6044a6f1cd755fc3b9f9500cd2e8342e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 19/21] fix: gradients of stations whose load coefficient is
 zero

---
 ccblade/ccblade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 9770af1..33d068e 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -809,11 +809,11 @@ class CCBlade(object):
                 dct_dx = dcl_dx * sphi + cl * cphi * dphi_dx - dcd_dx * cphi + cd * sphi * dphi_dx
 
                 # Np, Tp
-                if cn == 0.0 or W == 0.0 or chord == 0.0:
+                if W == 0.0 or chord == 0.0:
                     print(phi, rotating, r, chord, theta, af, Vx, Vy)
                     raise ValueError()
-                dNp_dx = Np * (1.0 / cn * dcn_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
-                dTp_dx = Tp * (1.0 / ct * dct_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
+                dNp_dx = q * chord * dcn_dx + Np * (2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
+                dTp_dx = q * chord * dct_dx + Tp * (2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
 
                 alpha_deg = np.rad2deg(alpha_rad)
 
-- 
2.43.0


From 67300e033d7859bd6dc69ae275756ae1aa73463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 20/21] fix: gradients of sections in still air were not
 numbers

Sections without relative wind have zero loads; the residual derivative
returned for them was zero as well, and the gradients became 0/0.  The
inflow angle is now held fixed there, as for a non-rotating blade.
---
 ccblade/ccblade.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 33d068e..968cc2d 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -826,7 +826,10 @@ class CCBlade(object):
 
         else:
             # print('Warning: CCBlade.__loads: Wind Velocities, Vx=0, Vy=0. If unexpected, check assigned load cases, connections, and/or workflow order.')
-            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), np.zeros(9)
+            # without wind the inflow angle is fixed, as for a non-rotating blade
+            dR_dx = np.zeros(9)
+            dR_dx[0] = 1.0
+            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), dR_dx
 
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
-- 
2.43.0


From 4507e46e37b4c66c2142be3bfa076cb4eafeec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 21/21] fix: plotting an airfoil failed on an attribute polars
 do not have

---
 ccblade/airfoilprep.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index c549e6e..5e4637b 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -879,13 +879,9 @@ class Airfoil(object):
             ax2 = fig2.add_subplot(111)
             figs.append(fig2)
 
-            # loop through all polars to see if we need to generate handles for cm figs
-            for p in self.polars:
-                if p.useCM == True:
-                    fig3 = plt.figure()
-                    ax3 = fig3.add_subplot(111)
-                    figs.append(fig3)
-                    break
+            fig3 = plt.figure()
+            ax3 = fig3.add_subplot(111)
+            figs.append(fig3)
 
             # loop through polars and plot
             for p in self.polars:
-- 
2.43.0

