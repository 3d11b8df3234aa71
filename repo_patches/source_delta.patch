From 697b2cf7477593cd9073c2812ba8ee6e51133363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 01/29] fix: use |sin(phi)| in the Prandtl loss factors so the
 propeller-brake branch is solvable

With tip or hub losses on, the loss factors were evaluated with a negative
sin(phi) for phi < 0 and came out as NaN, so the propeller-brake bracket was
never accepted: the section was reported with a warning and zero loads.
---
 ccblade/src/bem.f90 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index de7085a..8185827 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -57,15 +57,13 @@ subroutine inductionFactors(r, chord, Rhub, Rtip, phi, cl, cd, B, &
     ! Prandtl's tip and hub loss factor
     Ftip = 1.0_dp
     if ( tipLoss ) then
-        ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-        factortip = B/2.0_dp*(Rtip - r)/(r*sphi)
+        factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
         Ftip = 2.0_dp/pi*acos(exp(-factortip))
     end if
 
     Fhub = 1.0_dp
     if ( hubLoss ) then
-        ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*sphi)
+        factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
         Fhub = 2.0_dp/pi*acos(exp(-factorhub))
     end if
 
@@ -446,13 +444,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   ftip = 1.0_dp
   IF (tiploss) THEN
 ! factortip = B/2.0_dp*(Rtip - r)/(r*abs(sphi))
-    temp = 2.0_dp*r*sphi
+    temp = 2.0_dp*r*ABS(sphi)
     temp0 = (rtip-r)/temp
     factortip = b*temp0
     arg1 = EXP(-factortip)
     DO nd=1,nbdirs
-      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(sphi*2.0_dp*rd(nd)+&
-&       2.0_dp*r*sphid(nd)))/temp
+      factortipd(nd) = b*(rtipd(nd)-rd(nd)-temp0*(ABS(sphi)*2.0_dp*rd(nd&
+&       )+2.0_dp*r*SIGN(1.0_dp,sphi)*sphid(nd)))/temp
       arg1d(nd) = -(EXP(-factortip)*factortipd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
@@ -469,13 +467,13 @@ SUBROUTINE INDUCTIONFACTORS_DV(r, rd, chord, chordd, rhub, rhubd, rtip, &
   fhub = 1.0_dp
   IF (hubloss) THEN
 ! factorhub = B/2.0_dp*(r - Rhub)/(Rhub*abs(sphi))
-    temp0 = 2.0_dp*rhub*sphi
+    temp0 = 2.0_dp*rhub*ABS(sphi)
     temp = (r-rhub)/temp0
     factorhub = b*temp
     arg1 = EXP(-factorhub)
     DO nd=1,nbdirs
-      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(sphi*2.0_dp*rhubd(nd)+&
-&       2.0_dp*rhub*sphid(nd)))/temp0
+      factorhubd(nd) = b*(rd(nd)-rhubd(nd)-temp*(ABS(sphi)*2.0_dp*rhubd(&
+&       nd)+2.0_dp*rhub*SIGN(1.0_dp,sphi)*sphid(nd)))/temp0
       arg1d(nd) = -(EXP(-factorhub)*factorhubd(nd))
       IF (arg1 .EQ. 1.0 .OR. arg1 .EQ. (-1.0)) THEN
         result1d(nd) = 0.0_dp
-- 
2.43.0


From e490107987f3fc351cf8281696c7cf22ea8b5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 02/29] fix: actually raise when derivatives are requested with
 iterRe != 1

The ValueError was built but never raised, so gradients that are only valid
for iterRe=1 were returned silently.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..1c98d0a 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -666,7 +666,7 @@ class CCBlade(object):
         """derivatives of fzero, a, ap"""
 
         if self.iterRe != 1:
-            ValueError("Analytic derivatives not supplied for case with iterRe > 1")
+            raise ValueError("Analytic derivatives not supplied for case with iterRe > 1")
 
         # x = [phi, chord, theta, Vx, Vy, r, Rhub, Rtip, pitch]  (derivative order)
 
-- 
2.43.0


From 400917c79d463fefcb42c6115885a5bf0fe29e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 03/29] fix: store r, precurve and presweep as floats

With integer input the inward shift of the hub/tip stations was truncated
away, leaving a station exactly at the hub or tip and NaN/zero loads there.
---
 ccblade/ccblade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 1c98d0a..66efa83 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -551,7 +551,7 @@ class CCBlade(object):
         derivatives : boolean, optional
             if True, derivatives along with function values will be returned for the various methods
         """
-        r = np.array(r)
+        r = np.array(r, dtype=float)
         self.r = r.copy()
         self.chord = np.array(chord)
         self.theta = np.deg2rad(theta)
@@ -579,9 +579,9 @@ class CCBlade(object):
             presweep = np.zeros(len(r))
             presweepTip = 0.0
 
-        self.precurve = precurve.copy()
+        self.precurve = np.array(precurve, dtype=float)
         self.precurveTip = precurveTip
-        self.presweep = presweep.copy()
+        self.presweep = np.array(presweep, dtype=float)
         self.presweepTip = presweepTip
 
         # Enfore unique points at tip and hub
-- 
2.43.0


From 55b0e15d4cd3fc5f77c0fb85817fee19ce5d17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 04/29] fix: do not use unset bracket limits in the NaN message
 of a parked rotor

phi_lower and phi_upper only exist for a rotating rotor, so a NaN load of a
parked one ended in an UnboundLocalError.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 66efa83..8260dac 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1025,7 +1025,7 @@ class CCBlade(object):
             ) = self.__loads(phi_star, rotating, *args)
 
             if np.isnan(Np[i]):
-                print(f"NaNs at {i}/{n}: {phi_lower} {phi_star} {phi_upper}")
+                print(f"NaNs at {i}/{n}: {phi_star}")
                 a[i] = 0.0
                 ap[i] = 0.0
                 Np[i] = 0.0
-- 
2.43.0


From 0129a644c9164d91af4d982a7b8c1b645270836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 05/29] fix: a parked blade aligned with the wind is loaded

A parked section with exactly Vy == 0 (aligned rotor, or azimuth 0 without
yaw) was given zero loads, and NaN gradients, although only Vx == Vy == 0
means that there is no flow.
---
 ccblade/ccblade.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 8260dac..88b0807 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -716,7 +716,7 @@ class CCBlade(object):
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
-        if Vx != 0.0 and Vy != 0.0:
+        if (Vx != 0.0 and Vy != 0.0) or (not rotating and (Vx != 0.0 or Vy != 0.0)):
 
             cphi = np.cos(phi)
             sphi = np.sin(phi)
@@ -809,7 +809,9 @@ class CCBlade(object):
 
         else:
             # print('Warning: CCBlade.__loads: Wind Velocities, Vx=0, Vy=0. If unexpected, check assigned load cases, connections, and/or workflow order.')
-            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), np.zeros(9)
+            dR_dx = np.zeros(9)
+            dR_dx[0] = 1.0  # just to prevent divide by zero
+            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), dR_dx
 
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
-- 
2.43.0


From d638fbf1e1cf3135d8c4ef850f000edf28fe6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 06/29] fix: coefficient gradients stay finite when the
 quantity itself is zero

The gradients were formed as C * (dX / X - ...), which is 0/0 for a zero side
force, moment, torque or rotor speed (parked or axisymmetric rotor).
---
 ccblade/ccblade.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 88b0807..09541be 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1396,34 +1396,39 @@ class CCBlade(object):
                 dU_ds = np.zeros((npts, 12))
                 dU_ds[:, 9] = 1.0
 
-                dOmega_ds = np.zeros((npts, 12))
-                dOmega_ds[:, 10] = 1.0
-
                 dq_ds = (self.rho * Uinf * dU_ds.T).T
 
-                dCT_ds = (CT * (dT_ds.T / T - dA_ds.T / A - dq_ds.T / q)).T
+                dCT_ds = (dT_ds.T / (q * A) - CT * (dA_ds.T / A + dq_ds.T / q)).T
                 dCT_dv = (dT_dv.T / (q * A)).T
 
-                dCY_ds = (CY * (dY_ds.T / Y - dA_ds.T / A - dq_ds.T / q)).T
+                dCY_ds = (dY_ds.T / (q * A) - CY * (dA_ds.T / A + dq_ds.T / q)).T
                 dCY_dv = (dY_dv.T / (q * A)).T
 
-                dCZ_ds = (CZ * (dZ_ds.T / Z - dA_ds.T / A - dq_ds.T / q)).T
+                dCZ_ds = (dZ_ds.T / (q * A) - CZ * (dA_ds.T / A + dq_ds.T / q)).T
                 dCZ_dv = (dZ_dv.T / (q * A)).T
 
-                dCQ_ds = (CQ * (dQ_ds.T / Q - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCQ_ds = (
+                    dQ_ds.T / (q * self.rotorR * A) - CQ * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCQ_dv = (dQ_dv.T / (q * self.rotorR * A)).T
 
-                dCMy_ds = (CMy * (dMy_ds.T / My - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMy_ds = (
+                    dMy_ds.T / (q * self.rotorR * A) - CMy * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMy_dv = (dMy_dv.T / (q * self.rotorR * A)).T
 
-                dCMz_ds = (CMz * (dMz_ds.T / Mz - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMz_ds = (
+                    dMz_ds.T / (q * self.rotorR * A) - CMz * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMz_dv = (dMz_dv.T / (q * self.rotorR * A)).T
 
-                dCMb_ds = (CMb * (dMb_ds.T / Mb - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMb_ds = (
+                    dMb_ds.T / (q * self.rotorR * A) - CMb * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMb_dv = (dMb_dv.T / (q * self.rotorR * A)).T
 
-                dCP_ds = (CP * (dQ_ds.T / Q + dOmega_ds.T / Omega - dA_ds.T / A - dq_ds.T / q - dU_ds.T / Uinf)).T
-                dCP_dv = (dQ_dv.T * CP / Q).T
+                dCP_ds = (dP_ds.T / (q * A * Uinf) - CP * (dA_ds.T / A + dq_ds.T / q + dU_ds.T / Uinf)).T
+                dCP_dv = (dP_dv.T / (q * A * Uinf)).T
 
                 # pack derivatives into dictionary
                 dCT, dCY, dCZ, dCQ, dCMy, dCMz, dCMb, dCP = self.__thrustTorqueDictionary(
-- 
2.43.0


From 25beb00297988dee47eef985a177ba1fb4c6c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 07/29] fix: differentiate cl and cd at the Reynolds number
 they are evaluated at

The loads use the airfoil coefficients at the Reynolds number without
induction (iterRe=1), but their gradients were taken at, and propagated
through, the induced Reynolds number.
---
 ccblade/ccblade.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 09541be..0fd441f 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -780,12 +780,24 @@ class CCBlade(object):
                     self.mu,
                 )
 
+                # Reynolds number used to evaluate the airfoil (without induction, see __runBEM with iterRe=1)
+                if rotating:
+                    _, Waf, Reaf = _bem.relativewind(
+                        phi, 0.0, 0.0, Vx, Vy, self.pitch, chord, theta, self.rho, self.mu
+                    )
+                    dReaf_dx = np.zeros(9)
+                    dReaf_dx[1] = Reaf / chord
+                    dReaf_dx[3] = Reaf * Vx / Waf ** 2
+                    dReaf_dx[4] = Reaf * Vy / Waf ** 2
+                else:
+                    Reaf, dReaf_dx = Re, dRe_dx
+
                 # cl, cd (spline derivatives)
-                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
+                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Reaf)
 
                 # chain rule
-                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
-                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
+                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dReaf_dx
+                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dReaf_dx
 
                 # cn, cd
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
-- 
2.43.0


From 9852e5023d4282d118c3554ed650b5188310458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 08/29] fix: honour a wind speed given per radial station

distributedAeroLoads documents an array Uinf with one value per station, but
only its first element was used.
---
 ccblade/ccblade.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 0fd441f..86bd1be 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -828,6 +828,16 @@ class CCBlade(object):
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
 
+        if np.size(Uinf) > 1:  # one wind speed per station
+            if np.size(Uinf) != len(self.r):
+                raise ValueError("Uinf must be a scalar or have one value per radial station")
+            parts = [self.__windComponents(U, Omega, azimuth) for U in np.asarray(Uinf).flatten()]
+            Vx = np.array([p[0][i] for i, p in enumerate(parts)])
+            Vy = np.array([p[1][i] for i, p in enumerate(parts)])
+            if not self.derivatives:
+                return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return (Vx, Vy) + tuple(np.column_stack([p[k][:, i] for i, p in enumerate(parts)]) for k in range(2, 6))
+
         Vx, Vy = _bem.windcomponents(
             self.r,
             self.precurve,
-- 
2.43.0


From 601c4f7b056b0b2885901f3ee143e2c72f5b2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 09/29] fix: reject a blade with fewer than two stations

The curvature of the blade needs two stations; with a single one the Fortran
routines read past the end of their arrays.
---
 ccblade/ccblade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 86bd1be..7f7d35b 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -552,6 +552,8 @@ class CCBlade(object):
             if True, derivatives along with function values will be returned for the various methods
         """
         r = np.array(r, dtype=float)
+        if len(r) < 2:
+            raise ValueError(f"Need at least 2 radial stations, but found {r}")
         self.r = r.copy()
         self.chord = np.array(chord)
         self.theta = np.deg2rad(theta)
-- 
2.43.0


From 3dbbb57106a2e7d1f0c8d80736594bd49466b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 10/29] fix: write line ends in the AeroDyn file

---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..7446960 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -776,32 +776,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From c211046d3d32f4eeacbd5f5c8733f768879ca62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 11/29] fix: CCBladeTwist forms the Reynolds number with the
 rotor speed in rad/s, not rpm

---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..bc28113 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -593,7 +593,7 @@ class CCBladeTwist(ExplicitComponent):
             cd = np.zeros(self.n_span)
             alpha = np.zeros(self.n_span)
             margin2stall = self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"] * 180.0 / np.pi
-            Re = np.array(Omega * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
+            Re = np.array(Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
             aoa_op = inputs["aoa_op"]
             for i in range(self.n_span):
                 # Use the required angle of attack if defined. If it isn't defined (==pi), then take the stall point minus the margin
-- 
2.43.0


From 1a373e4c34c6f897d9539824599e3e7c6547b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 12/29] fix: CCBladeTwist sets its declared P, T, Q and M
 outputs

---
 ccblade/ccblade_component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index bc28113..41387b3 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -500,7 +500,7 @@ class CCBladeTwist(ExplicitComponent):
         )
 
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("T", val=0.0, units="N*m", desc="Rotor aerodynamic thrust")
+        self.add_output("T", val=0.0, units="N", desc="Rotor aerodynamic thrust")
         self.add_output("Q", val=0.0, units="N*m", desc="Rotor aerodynamic torque")
         self.add_output("M", val=0.0, units="N*m", desc="Blade root flapwise moment")
 
@@ -668,6 +668,10 @@ class CCBladeTwist(ExplicitComponent):
         outputs["theta"] = ccblade.theta
         outputs["CP"] = CP[0]
         outputs["CM"] = CMb[0]
+        outputs["P"] = myout["P"][0]
+        outputs["T"] = myout["T"][0]
+        outputs["Q"] = myout["Q"][0]
+        outputs["M"] = myout["Mb"][0]
         outputs["local_airfoil_velocities"] = np.nan_to_num(W)
         outputs["a"] = loads["a"]
         outputs["ap"] = loads["ap"]
-- 
2.43.0


From 741304081a8771da8bb2c47859b3c0d4cf9f26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 13/29] fix: accumulate the derivative when a direction vector
 is rotated twice by the same angle

---
 ccblade/csystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 934616d..c090c69 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -115,8 +115,8 @@ class DirectionVector(object):
         dxnew["dy"] = dx["dy"] * c + dy["dy"] * s
         dxnew["dz"] = dx["dz"] * c + dy["dz"] * s
         dxnew["d" + thetaname] = (-x * s + y * c) * np.radians(thetaM)
-        for dangle in angles:
-            dxnew[dangle] = dx[dangle] * c + dy[dangle] * s
+        for dangle in angles:  # accumulate, as the chain may already contain a rotation by the same angle
+            dxnew[dangle] = dxnew.get(dangle, 0.0) + dx[dangle] * c + dy[dangle] * s
 
         dynew = {}
         dynew["dx"] = -dx["dx"] * s + dy["dx"] * c
@@ -124,7 +124,7 @@ class DirectionVector(object):
         dynew["dz"] = -dx["dz"] * s + dy["dz"] * c
         dynew["d" + thetaname] = (-x * c - y * s) * np.radians(thetaM)
         for dangle in angles:
-            dynew[dangle] = -dx[dangle] * s + dy[dangle] * c
+            dynew[dangle] = dynew.get(dangle, 0.0) - dx[dangle] * s + dy[dangle] * c
 
         dznew = {}
         dznew["dx"] = dz["dx"] * np.ones_like(theta)  # multiply by ones just to get right size in case of float
@@ -132,7 +132,7 @@ class DirectionVector(object):
         dznew["dz"] = dz["dz"] * np.ones_like(theta)
         dznew["d" + thetaname] = np.zeros_like(theta)
         for dangle in angles:
-            dznew[dangle] = dz[dangle]
+            dznew[dangle] = dznew.get(dangle, 0.0) + dz[dangle]
 
         return xnew, ynew, znew, dxnew, dynew, dznew
 
-- 
2.43.0


From 50b1535ffe5738da3342b9c93d9d7d8c6fce6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 14/29] fix: unsteadyparam returns the angle of minimum drag in
 degrees

---
 ccblade/airfoilprep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7446960..13d861c 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -466,7 +466,7 @@ class Polar(object):
 
         # return: control setting, stall angle, alpha for 0 cn, cn slope,
         #         cn at stall+, cn at stall-, alpha for min CD, min(CD)
-        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, alpha[minIdx], cd[minIdx])
+        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, np.degrees(alpha[minIdx]), cd[minIdx])
 
     def plot(self):
         """plot cl/cd/cm polar
-- 
2.43.0


From 6917b2cfd36109c52d9090fd9bed50864d37a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 15/29] fix: extrapolate does not repeat the lowest angle of
 attack

---
 ccblade/airfoilprep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 13d861c..55bd833 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -279,7 +279,8 @@ class Polar(object):
 
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
-        alpha5 = alpha5[1:]
+        # the last point is a data point if there is no segment from -alpha_high to alpha_low
+        alpha5 = alpha5[1:-1] if alpha_low <= -alpha_high else alpha5[1:]
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
-- 
2.43.0


From 8cd3f1da80afbec6801ccf9065693e4122ee30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 16/29] fix: extrapolate keeps the moment coefficient at the
 ends of the data

---
 ccblade/airfoilprep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 55bd833..f334499 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -305,6 +305,9 @@ class Polar(object):
         alpha_num = abs(int((-180.0 - cm1_alpha) / 10.0 - 1))
         alpha_cm1 = np.linspace(-180.0, cm1_alpha, alpha_num)
         alpha_cm2 = np.linspace(cm2_alpha, 180.0, int((180.0 - cm2_alpha) / 10.0 + 1))
+        # the end points of the data keep their own moment coefficient
+        alpha_cm1 = alpha_cm1[alpha_cm1 < self.alpha[0]]
+        alpha_cm2 = alpha_cm2[alpha_cm2 > self.alpha[-1]]
         alpha_cm = np.concatenate(
             (alpha_cm1, self.alpha, alpha_cm2)
         )  # Specific alpha values are needed for cm function to work
-- 
2.43.0


From 04523f3fc22477b8cf06094d912fa76e2a63ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 17/29] fix: a section without a solution also gets zero
 velocity and gradients, not NaN

---
 ccblade/ccblade.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 7f7d35b..56f9b14 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1057,6 +1057,12 @@ class CCBlade(object):
                 Np[i] = 0.0
                 Tp[i] = 0.0
                 alpha[i] = 0.0
+                W[i] = 0.0
+                Re[i] = 0.0
+                dNp_dx = np.zeros(9)
+                dTp_dx = np.zeros(9)
+                dR_dx = np.zeros(9)
+                dR_dx[0] = 1.0  # just to prevent divide by zero
                 # print('warning, BEM convergence error, setting Np[%d] = Tp[%d] = 0.' % (i,i))
 
             if self.derivatives:
-- 
2.43.0


From 5640de3d0c8c393fefb9773adb601ab885f5d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 18/29] fix: airfoil derivatives vanish outside the range of
 the data, like the coefficients

---
 ccblade/ccblade.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 56f9b14..4454088 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -224,6 +224,15 @@ class CCAirfoil(object):
             except:
                 dcl_dRe = 0.0
                 dcd_dRe = 0.0
+
+        # outside the range of the data the splines are evaluated at its edge, thus they are constant there
+        tx, ty = tck_cl[:2]
+        if not tx[0] <= alpha <= tx[-1]:
+            dcl_dalpha = 0.0
+            dcd_dalpha = 0.0
+        if not ty[0] <= Re <= ty[-1]:
+            dcl_dRe = 0.0
+            dcd_dRe = 0.0
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
 
     def eval_unsteady(self, alpha, cl, cd, cm):
-- 
2.43.0


From a4165b13a934e6fb8c9cfcf95fa60e23d0f8dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 19/29] fix: airfoil derivative with respect to Re for polars
 at exactly two Reynolds numbers

---
 ccblade/ccblade.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 4454088..d6b4639 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -217,13 +217,14 @@ class CCAirfoil(object):
         if self.one_Re:
             dcl_dRe = 0.0
             dcd_dRe = 0.0
+        elif self.cl_spline.degrees[1] == 1:
+            # two Reynolds numbers: linear variation (bisplev needs a degree larger than the order of the derivative)
+            Re1, Re2 = tck_cl[1][0], tck_cl[1][-1]
+            dcl_dRe = (self.cl_spline.ev(alpha, Re2) - self.cl_spline.ev(alpha, Re1)) / (Re2 - Re1)
+            dcd_dRe = (self.cd_spline.ev(alpha, Re2) - self.cd_spline.ev(alpha, Re1)) / (Re2 - Re1)
         else:
-            try:
-                dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
-                dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
-            except:
-                dcl_dRe = 0.0
-                dcd_dRe = 0.0
+            dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
+            dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
 
         # outside the range of the data the splines are evaluated at its edge, thus they are constant there
         tx, ty = tck_cl[:2]
-- 
2.43.0


From 673d64727a2ea8a06efcfdcd160835a3565e9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 20/29] fix: the loads of a curved blade depend on the
 neighboring radial positions too

---
 ccblade/ccblade.py | 63 ++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index d6b4639..6de6949 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -847,8 +847,8 @@ class CCBlade(object):
             Vx = np.array([p[0][i] for i, p in enumerate(parts)])
             Vy = np.array([p[1][i] for i, p in enumerate(parts)])
             if not self.derivatives:
-                return Vx, Vy, 0.0, 0.0, 0.0, 0.0
-            return (Vx, Vy) + tuple(np.column_stack([p[k][:, i] for i, p in enumerate(parts)]) for k in range(2, 6))
+                return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
+            return (Vx, Vy) + tuple(np.column_stack([p[k][:, i] for i, p in enumerate(parts)]) for k in range(2, 8))
 
         Vx, Vy = _bem.windcomponents(
             self.r,
@@ -865,7 +865,7 @@ class CCBlade(object):
         )
 
         if not self.derivatives:
-            return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
         # y = [r, precurve, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]  (derivative order)
         n = len(self.r)
@@ -896,8 +896,8 @@ class CCBlade(object):
             dy_dy[:, 3 * n + 4],
         )
 
-        dVx_dr = np.diag(Vxd[:n, :])  # off-diagonal terms are known to be zero and not needed
-        dVy_dr = np.diag(Vyd[:n, :])
+        dVx_dr = Vxd[:n, :]  # tri-diagonal for a curved blade (the local cone angle depends on the neighboring stations)
+        dVy_dr = Vyd[:n, :]
 
         dVx_dcurve = Vxd[n : 2 * n, :]  # tri-diagonal  (note: dVx_j / dcurve_i  i==row)
         dVy_dcurve = Vyd[n : 2 * n, :]  # off-diagonal are actually all zero, but leave for convenience
@@ -905,11 +905,11 @@ class CCBlade(object):
         dVx_dsweep = np.diag(Vxd[2 * n : 3 * n, :])  # off-diagonal terms are known to be zero and not needed
         dVy_dsweep = np.diag(Vyd[2 * n : 3 * n, :])
 
-        # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
-        dVx_dw = np.vstack((dVx_dr, dVx_dsweep, Vxd[3 * n :, :]))
-        dVy_dw = np.vstack((dVy_dr, dVy_dsweep, Vyd[3 * n :, :]))
+        # w = [presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
+        dVx_dw = np.vstack((dVx_dsweep, Vxd[3 * n :, :]))
+        dVy_dw = np.vstack((dVy_dsweep, Vyd[3 * n :, :]))
 
-        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve
+        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve, dVx_dr, dVy_dr
 
     def distributedAeroLoads(self, Uinf, Omega, pitch, azimuth):
         """Compute distributed aerodynamic loads along blade.
@@ -951,8 +951,8 @@ class CCBlade(object):
             - dNp : dictionary containing arrays (present if ``self.derivatives = True``)
                 derivatives of normal loads.  Each item in the dictionary a 2D Jacobian.
                 The array sizes and keys are (where n = number of stations along blade):
-                n x n (diagonal): 'dr', 'dchord', 'dtheta', 'dpresweep'
-                n x n (tridiagonal): 'dprecurve'
+                n x n (diagonal): 'dchord', 'dtheta', 'dpresweep'
+                n x n (tridiagonal): 'dr', 'dprecurve'
                 n x 1: 'dRhub', 'dRtip', 'dprecone', 'dtilt', 'dhubHt', 'dyaw', 'dshear', 'dazimuth', 'dUinf', 'dOmega', 'dpitch'
                 for example dNp_dr = dNp['dr']  (where dNp_dr is an n x n array)
                 and dNp_dr[i, j] = dNp_i / dr_j
@@ -964,7 +964,7 @@ class CCBlade(object):
         azimuth = np.deg2rad(azimuth)
 
         # component of velocity at each radial station
-        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
+        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve, dVx_dr, dVy_dr = self.__windComponents(Uinf, Omega, azimuth)
 
         # initialize
         n = len(self.r)
@@ -1113,13 +1113,14 @@ class CCBlade(object):
 
             # stack
             # z = [r, chord, theta, Rhub, Rtip, pitch]
-            # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
+            # w = [presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
             # X = [r, chord, theta, Rhub, Rtip, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega, pitch]
-            dNp_dz[0, :] += dNp_dw[0, :]  # add partial w.r.t. r
-            dTp_dz[0, :] += dTp_dw[0, :]
+            # (row r of X only holds the part through the section itself, dNp_dr and dTp_dr hold the total)
+            dNp_dr = dNp_dVx * dVx_dr + dNp_dVy * dVy_dr + np.diag(dNp_dz[0, :])
+            dTp_dr = dTp_dVx * dVx_dr + dTp_dVy * dVy_dr + np.diag(dTp_dz[0, :])
 
-            dNp_dX = np.vstack((dNp_dz[:-1, :], dNp_dw[1:, :], dNp_dz[-1, :]))
-            dTp_dX = np.vstack((dTp_dz[:-1, :], dTp_dw[1:, :], dTp_dz[-1, :]))
+            dNp_dX = np.vstack((dNp_dz[:-1, :], dNp_dw, dNp_dz[-1, :]))
+            dTp_dX = np.vstack((dTp_dz[:-1, :], dTp_dw, dTp_dz[-1, :]))
 
             # add chain rule for conversion to radians
             ridx = [2, 6, 7, 9, 11, 14]
@@ -1132,14 +1133,14 @@ class CCBlade(object):
             self._dTp_dX = dTp_dX
             self._dNp_dprecurve = dNp_dprecurve
             self._dTp_dprecurve = dTp_dprecurve
+            self._dNp_dr = dNp_dr
+            self._dTp_dr = dTp_dr
 
             # pack derivatives into dictionary
             dNp = {}
             dTp = {}
 
             # n x n (diagonal)
-            dNp["dr"] = np.diag(dNp_dX[0, :])
-            dTp["dr"] = np.diag(dTp_dX[0, :])
             dNp["dchord"] = np.diag(dNp_dX[1, :])
             dTp["dchord"] = np.diag(dTp_dX[1, :])
             dNp["dtheta"] = np.diag(dNp_dX[2, :])
@@ -1148,6 +1149,8 @@ class CCBlade(object):
             dTp["dpresweep"] = np.diag(dTp_dX[5, :])
 
             # n x n (tridiagonal)
+            dNp["dr"] = dNp_dr.T
+            dTp["dr"] = dTp_dr.T
             dNp["dprecurve"] = dNp_dprecurve.T
             dTp["dprecurve"] = dTp_dprecurve.T
 
@@ -1347,7 +1350,15 @@ class CCBlade(object):
                         dQ_dv_sub,
                         dM_dv_sub,
                     ) = self.__thrustTorqueDeriv(
-                        Np, Tp, self._dNp_dX, self._dTp_dX, self._dNp_dprecurve, self._dTp_dprecurve, *args
+                        Np,
+                        Tp,
+                        self._dNp_dX,
+                        self._dTp_dX,
+                        self._dNp_dprecurve,
+                        self._dTp_dprecurve,
+                        self._dNp_dr,
+                        self._dTp_dr,
+                        *args,
                     )
 
                     dT_ds[i, :] += self.B * dT_ds_sub / nsec
@@ -1542,6 +1553,8 @@ class CCBlade(object):
         dTp_dX,
         dNp_dprecurve,
         dTp_dprecurve,
+        dNp_dr,
+        dTp_dr,
         r,
         precurve,
         presweep,
@@ -1582,11 +1595,11 @@ class CCBlade(object):
         dQ_dX = dQ_dNp * dNp_dX + dQ_dTp * dTp_dX
         dM_dX = dM_dNp * dNp_dX + dM_dTp * dTp_dX
 
-        dT_dr = dT_dX[0, :] + rb[0, :]
-        dY_dr = dY_dX[0, :] + rb[1, :]
-        dZ_dr = dZ_dX[0, :] + rb[2, :]
-        dQ_dr = dQ_dX[0, :] + rb[3, :]
-        dM_dr = dM_dX[0, :] + rb[4, :]
+        dT_dr = np.sum(dT_dNp * dNp_dr + dT_dTp * dTp_dr, axis=1) + rb[0, :]
+        dY_dr = np.sum(dY_dNp * dNp_dr + dY_dTp * dTp_dr, axis=1) + rb[1, :]
+        dZ_dr = np.sum(dZ_dNp * dNp_dr + dZ_dTp * dTp_dr, axis=1) + rb[2, :]
+        dQ_dr = np.sum(dQ_dNp * dNp_dr + dQ_dTp * dTp_dr, axis=1) + rb[3, :]
+        dM_dr = np.sum(dM_dNp * dNp_dr + dM_dTp * dTp_dr, axis=1) + rb[4, :]
 
         dT_dchord = dT_dX[1, :]
         dY_dchord = dY_dX[1, :]
-- 
2.43.0


From b510b415f8fede0a2f1440093a98d7bcdfdc14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 21/29] fix: airfoil derivatives for polars with exactly two
 angles of attack

---
 ccblade/ccblade.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6de6949..e8469a5 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -211,14 +211,20 @@ class CCAirfoil(object):
         tck_cl = self.cl_spline.tck[:3] + self.cl_spline.degrees  # concatenate lists
         tck_cd = self.cd_spline.tck[:3] + self.cd_spline.degrees
 
-        dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
-        dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
+        if self.cl_spline.degrees[0] == 1:
+            # two angles of attack: linear variation (bisplev needs a degree larger than the order of the derivative)
+            alpha1, alpha2 = tck_cl[0][0], tck_cl[0][-1]
+            dcl_dalpha = (self.cl_spline.ev(alpha2, Re) - self.cl_spline.ev(alpha1, Re)) / (alpha2 - alpha1)
+            dcd_dalpha = (self.cd_spline.ev(alpha2, Re) - self.cd_spline.ev(alpha1, Re)) / (alpha2 - alpha1)
+        else:
+            dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
+            dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
 
         if self.one_Re:
             dcl_dRe = 0.0
             dcd_dRe = 0.0
         elif self.cl_spline.degrees[1] == 1:
-            # two Reynolds numbers: linear variation (bisplev needs a degree larger than the order of the derivative)
+            # two Reynolds numbers: linear variation
             Re1, Re2 = tck_cl[1][0], tck_cl[1][-1]
             dcl_dRe = (self.cl_spline.ev(alpha, Re2) - self.cl_spline.ev(alpha, Re1)) / (Re2 - Re1)
             dcd_dRe = (self.cd_spline.ev(alpha, Re2) - self.cd_spline.ev(alpha, Re1)) / (Re2 - Re1)
-- 
2.43.0


From fc3d5681a1904312844b4bd8551c9f36890a7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 22/29] fix: blended airfoils keep one polar per Reynolds
 number, at that Reynolds number

Outside the data of one airfoil the closest polar was blended with its own
Reynolds number, so that several polars of the result had the same one and
no airfoil could be built from them.
---
 ccblade/airfoilprep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index f334499..f520cc0 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -666,6 +666,7 @@ class Airfoil(object):
             p1 = self.getPolar(Relist[i])
             p2 = other.getPolar(Relist[i])
             polars[i] = p1.blend(p2, weight)
+            polars[i].Re = Relist[i]  # closest data is used at this Reynolds number if out of range
 
         return Airfoil(polars)
 
-- 
2.43.0


From 6c8c19a9324ae7ed8f9d34eab75bbb0419356fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 23/29] fix: unit of the blade root moment of CCBladeEvaluate

A moment was declared in N/m, so that it could neither be read in kN*m nor
connected to inputs declared in N*m.
---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 41387b3..7052f2b 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -758,7 +758,7 @@ class CCBladeEvaluate(ExplicitComponent):
 
         # outputs
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("Mb", val=0.0, units="N/m", desc="Aerodynamic blade root flapwise moment")
+        self.add_output("Mb", val=0.0, units="N*m", desc="Aerodynamic blade root flapwise moment")
         self.add_output("Fhub", val=np.zeros(3), units="N", desc="Aerodynamic forces at hub center in the hub c.s.")
         self.add_output("Mhub", val=np.zeros(3), units="N*m", desc="Aerodynamic moments at hub center in the hub c.s.")
         self.add_output("CP", val=0.0, desc="Rotor aerodynamic power coefficient")
-- 
2.43.0


From 5173281e38f394587406c5d202d55cd83929b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 24/29] fix: stall margin of the twist inverse uses the same
 airfoil table as the airfoils

---
 ccblade/ccblade_component.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 7052f2b..8c0541a 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -534,10 +534,10 @@ class CCBladeTwist(ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
 
         # Create Airfoil class instances
+        ref_tab = int(np.floor(self.n_tab / 2))
         af = [None] * self.n_span
         for i in range(self.n_span):
             if self.n_tab > 1:
-                ref_tab = int(np.floor(self.n_tab / 2))
                 af[i] = CCAirfoil(
                     inputs["airfoils_aoa"],
                     inputs["airfoils_Re"],
@@ -600,9 +600,9 @@ class CCBladeTwist(ExplicitComponent):
                 if abs(aoa_op[i] - np.pi) < 1.0e-4:
                     af[i].eval_unsteady(
                         inputs["airfoils_aoa"],
-                        inputs["airfoils_cl"][i, :, 0, 0],
-                        inputs["airfoils_cd"][i, :, 0, 0],
-                        inputs["airfoils_cm"][i, :, 0, 0],
+                        inputs["airfoils_cl"][i, :, 0, ref_tab],
+                        inputs["airfoils_cd"][i, :, 0, ref_tab],
+                        inputs["airfoils_cm"][i, :, 0, ref_tab],
                     )
                     alpha[i] = (af[i].unsteady["alpha1"] - margin2stall) / 180.0 * np.pi
                 else:
-- 
2.43.0


From 9e764325237272abf25c5ec9fcd1be441819176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 25/29] fix: work array of the curvature adjoint has the size
 of what is assigned to it

---
 ccblade/src/bem.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index 8185827..bed1280 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -1125,7 +1125,7 @@ SUBROUTINE DEFINECURVATURE_BV(n, r, rb, precurve, precurveb, presweep, &
   REAL(dp) :: tempb4(nbdirs, n-2)
   REAL(dp) :: tempb3(nbdirs, n-2)
   REAL(dp) :: tempb2(nbdirs, n-2)
-  REAL(dp) :: tempb1(nbdirs, n)
+  REAL(dp) :: tempb1(nbdirs, n-2)
   REAL(dp) :: tempb0(nbdirs)
   REAL(dp) :: tempb11(nbdirs)
   REAL(dp) :: tempb10(nbdirs)
-- 
2.43.0


From 7232a354ef54a06a3a4d15e26510f684dc69f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 26/29] fix: plot all polars of an airfoil on shared figures
 (Polar has no useCM)

---
 ccblade/airfoilprep.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index f520cc0..7eaefcb 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -878,13 +878,9 @@ class Airfoil(object):
             ax2 = fig2.add_subplot(111)
             figs.append(fig2)
 
-            # loop through all polars to see if we need to generate handles for cm figs
-            for p in self.polars:
-                if p.useCM == True:
-                    fig3 = plt.figure()
-                    ax3 = fig3.add_subplot(111)
-                    figs.append(fig3)
-                    break
+            fig3 = plt.figure()
+            ax3 = fig3.add_subplot(111)
+            figs.append(fig3)
 
             # loop through polars and plot
             for p in self.polars:
-- 
2.43.0


From 96b58ec4b23c75512f0ea1142add3a1717809258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 27/29] fix: compute in double precision whatever number type
 the inputs have

---
 ccblade/ccblade.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index e8469a5..1aa0fd8 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -58,7 +58,7 @@ class CCAirfoil(object):
             cd[i, j] is the drag coefficient at alpha[i] and Re[j]
         """
 
-        alpha = np.deg2rad(alpha)
+        alpha = np.deg2rad(alpha, dtype=float)
         self.x = x
         self.y = y
         self.AFName = AFName
@@ -571,17 +571,17 @@ class CCBlade(object):
         if len(r) < 2:
             raise ValueError(f"Need at least 2 radial stations, but found {r}")
         self.r = r.copy()
-        self.chord = np.array(chord)
-        self.theta = np.deg2rad(theta)
+        self.chord = np.array(chord, dtype=float)
+        self.theta = np.deg2rad(theta, dtype=float)
         self.af = af
         self.Rhub = Rhub
         self.Rtip = Rtip
         self.B = B
         self.rho = rho
         self.mu = mu
-        self.precone = float(np.deg2rad(precone))
-        self.tilt = float(np.deg2rad(tilt))
-        self.yaw = float(np.deg2rad(yaw))
+        self.precone = float(np.deg2rad(precone, dtype=float))
+        self.tilt = float(np.deg2rad(tilt, dtype=float))
+        self.yaw = float(np.deg2rad(yaw, dtype=float))
         self.shearExp = shearExp
         self.hubHt = hubHt
         self.bemoptions = dict(usecd=usecd, tiploss=tiploss, hubloss=hubloss, wakerotation=wakerotation)
@@ -966,8 +966,8 @@ class CCBlade(object):
                 derivatives of tangential loads.  Same keys as dNp.
         """
 
-        self.pitch = np.deg2rad(pitch)
-        azimuth = np.deg2rad(azimuth)
+        self.pitch = np.deg2rad(pitch, dtype=float)
+        azimuth = np.deg2rad(azimuth, dtype=float)
 
         # component of velocity at each radial station
         Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve, dVx_dr, dVy_dr = self.__windComponents(Uinf, Omega, azimuth)
@@ -1286,9 +1286,9 @@ class CCBlade(object):
         nsec = self.nSector
 
         # initialize
-        Uinf = np.array(Uinf).flatten()
-        Omega = np.array(Omega).flatten()
-        pitch = np.array(pitch).flatten()
+        Uinf = np.array(Uinf, dtype=float).flatten()
+        Omega = np.array(Omega, dtype=float).flatten()
+        pitch = np.array(pitch, dtype=float).flatten()
 
         npts = len(Uinf)
         T = np.zeros(npts)
-- 
2.43.0


From 5f9dfb3f9f63bf4ff36b598da8345f8113438bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 28/29] fix: Airfoil.getPolar returns the stored polar at the
 Reynolds number of a stored polar

The polar was blended with its lower neighbour with a weight of one, which
dropped all angles of attack outside the range common to both.
---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7eaefcb..049df35 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -628,6 +628,8 @@ class Airfoil(object):
         else:
             Relist = [pp.Re for pp in p]
             i = np.searchsorted(Relist, Re)
+            if Relist[i] == Re:  # a stored polar needs no interpolation
+                return copy.deepcopy(p[i])
             weight = (Re - Relist[i - 1]) / (Relist[i] - Relist[i - 1])
             return p[i - 1].blend(p[i], weight)
 
-- 
2.43.0


From 9d79b4e267857a326e3f6af57daf9b7ca07784cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 29/29] fix: in-place arithmetic of direction vectors made from
 integers

v *= 0.5, v += 0.5 and v -= 0.5 raised UFuncTypeError for a vector with
integer components (v / 2, v * 0.5 and v /= 2 work).
---
 ccblade/csystem.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index c090c69..5e8b748 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -471,13 +471,13 @@ class DirectionVector(object):
         """add DirectionVector object to self (v1 += v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x += other.x
-            self.y += other.y
-            self.z += other.z
+            self.x = self.x + other.x
+            self.y = self.y + other.y
+            self.z = self.z + other.z
         else:
-            self.x += other
-            self.y += other
-            self.z += other
+            self.x = self.x + other
+            self.y = self.y + other
+            self.z = self.z + other
 
         return self
 
@@ -485,13 +485,13 @@ class DirectionVector(object):
         """subract DirectionVector object from self (v1 -= v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x -= other.x
-            self.y -= other.y
-            self.z -= other.z
+            self.x = self.x - other.x
+            self.y = self.y - other.y
+            self.z = self.z - other.z
         else:
-            self.x -= other
-            self.y -= other
-            self.z -= other
+            self.x = self.x - other
+            self.y = self.y - other
+            self.z = self.z - other
 
         return self
 
@@ -515,13 +515,13 @@ class DirectionVector(object):
         """multiply self times a scalar or element by element muiltiply times another vector (v1 *= alpha or v1 *= v2)"""
 
         if isinstance(other, DirectionVector):
-            self.x *= other.x
-            self.y *= other.y
-            self.z *= other.z
+            self.x = self.x * other.x
+            self.y = self.y * other.y
+            self.z = self.z * other.z
         else:
-            self.x *= other
-            self.y *= other
-            self.z *= other
+            self.x = self.x * other
+            self.y = self.y * other
+            self.z = self.z * other
         return self
 
     def __str__(self):
-- 
2.43.0

