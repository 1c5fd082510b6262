From 73efcc5b296ad01302789ae54c8cddefe28524c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 01/45] fix: divide the zonal difference of v by the longitude
 spacing in QGPV

---
 src/falwa/f90_modules/compute_qgpv.f90            | 9 +++++----
 src/falwa/f90_modules/compute_qgpv_direct_inv.f90 | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qgpv.f90 b/src/falwa/f90_modules/compute_qgpv.f90
index 1cbebfb..a626d28 100644
--- a/src/falwa/f90_modules/compute_qgpv.f90
+++ b/src/falwa/f90_modules/compute_qgpv.f90
@@ -16,12 +16,13 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
     REAL ::  st(nlon,nlat),zmst(nlat)
     REAL ::  zmav(nlat,kmax)
     REAL ::  zmpv(nlat,kmax)
-    REAL :: rkappa, pi, dphi
+    REAL :: rkappa, pi, dphi, dlambda
 
 
     rkappa = rr/cp
     pi = acos(-1.)
     dphi = pi/float(nlat-1)
+    dlambda = 2.*pi/float(nlon)
 
     !  **** compute zonal mean ****
     tz = 0.
@@ -67,17 +68,17 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
 
             do i = 2,nlon-1
                 av1 = 2.*omega*sin(phi0)
-                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
                 av3 = -(ut(i,j+1,kk)*cos(phip)-ut(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
                 avort(i,j,kk) = av1+av2+av3
             enddo
 
             av1 = 2.*omega*sin(phi0)
-            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av3 = -(ut(1,j+1,kk)*cos(phip)-ut(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
             avort(1,j,kk) = av1+av2+av3
             av4 = 2.*omega*sin(phi0)
-            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av6 =   & 
             -(ut(nlon,j+1,kk)*cos(phip)-ut(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
             avort(nlon,j,kk) = av4+av5+av6
diff --git a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90 b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
index e53da8c..dd29944 100644
--- a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
+++ b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
@@ -19,6 +19,7 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
    rkappa = rr/cp
    pi = acos(-1.)
    dphi = pi/float(nlat-1)
+   dlambda = 2.*pi/float(nlon)
 
   write(6,*) 'nlon, nlat, kmax, jd'
   write(6,*) nlon, nlat, kmax, jd
@@ -33,17 +34,17 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
 
       do i = 2,nlon-1
         av1 = 2.*omega*sin(phi0)
-        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
         av3 = -(uq(i,j+1,kk)*cos(phip)-uq(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
         avort(i,j,kk) = av1+av2+av3
       enddo
 
       av1 = 2.*omega*sin(phi0)
-      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av3 = -(uq(1,j+1,kk)*cos(phip)-uq(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(1,j,kk) = av1+av2+av3
       av4 = 2.*omega*sin(phi0)
-      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av6 =   &
       -(uq(nlon,j+1,kk)*cos(phip)-uq(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(nlon,j,kk) = av4+av5+av6
-- 
2.43.0


From e0a1ef1f24740ea674e86c50ff6f1719ca83c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 02/45] fix: use the hemispheric mean theta of the inverted
 hemisphere in QGFieldNHN22

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..b925b6e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From 711f9b2edc77b6fb1230af6c17c83d2f8f57965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 03/45] fix: negate the absolute vorticity of the flipped
 Southern Hemisphere in QGFieldNHN22

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b925b6e..93b4adf 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1800,7 +1800,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
-- 
2.43.0


From 78b3a8439eba55b1d8a3492cf460112d56bb7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 04/45] fix: store the boundary eddy momentum fluxes in the
 first analysed row

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..6da285c 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -149,7 +149,9 @@ SUBROUTINE compute_flux_dirinv_nshem( &
         ! meridional eddy momentum flux one grid north and south
         if (is_nhem) then
           ep2(i,j,k) = (uu(i,j+nd,k)-uref(j-jb+1,k))*cosp*cosp * vv(i,j+nd,k)
-          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          if (j.gt.jb+1) then
+            ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          endif
         else
           ! TODO: double check.
           ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
@@ -170,12 +172,12 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep4(i,j) = ep41*(ep42+ep43)   ! low-level heat flux
         endif
       enddo
-      phip = dp*jb
-      phi0 = dp*(jb-1)
+      phip = dp*(jb+1)
+      phi0 = dp*jb
       cosp = cos(phip)          ! cosine for one grid north
       cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      ep2(i,jb+1,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
+      ep3(i,jb+1,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
     enddo
   enddo
 
-- 
2.43.0


From dd18e9f1c4d4f5643abd513766277ba316543159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 05/45] fix: store the Southern Hemisphere LWA components in
 compute_lwa_only

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 93b4adf..ede19b3 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -686,8 +686,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From 8362d740c29fc1cf05ddc614fed2dc5bcfd406fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 06/45] fix: let compute_layerwise_lwa_fluxes work on even
 latitude grids

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ede19b3..fd5bf85 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1075,7 +1075,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 24a59b618ec90b354a91a4f54585905e07814534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 07/45] fix: always pass kmax heights to the direct solver of
 QGFieldNHN22

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index fd5bf85..b21f906 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1842,7 +1842,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=np.arange(self.kmax) * self.dz,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From 5ff4026933013312790c284b1fb846e5b3b557db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 08/45] fix: take the top thermal wind of QGFieldNHN22 at the
 latitude it applies to

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..5c5e236 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -169,7 +169,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     cos0 = cos(phi0)
     sin0 = sin(phi0)
     tjk(j-1,kmax-1) = -dz*rr*cos0*exp(-z(kmax-1)*rkappa/h)
-    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(j+1,kmax)-tbar(j-1,kmax))
+    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(jj+1,kmax)-tbar(jj-1,kmax))
     tjk(j-1,kmax-1) = tjk(j-1,kmax-1)/(4.*omega*sin0*dphi*h*a)
     sjk(j-1,j-1,kmax-1) = 1.
   enddo
-- 
2.43.0


From 07881e550109eafcf708cc43524deac6d15e8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 09/45] fix: return Uref at the equatorward boundary of
 QGFieldNHN22

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 6 +++++-
 src/falwa/f90_modules/upward_sweep.f90                | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 5c5e236..214b356 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -57,7 +57,6 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
 
   do k = 2,kmax-1
     pv2(:,:) = pv(:,:,k)
-    vort2(:,:) = vort(:,:,k)
 
     !  **** compute qref via area analysis ****
     qmax = maxval(pv2)
@@ -103,6 +102,11 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       *a*dphi*2.*pi*a*cos(phi0)
     enddo
 
+  enddo
+
+  do k = 2,kmax
+    vort2(:,:) = vort(:,:,k)
+
     ! **** compute Kelvin's circulation based on absolute vorticity (for b.c.) ****
 
 
diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index e4e4c7d..9ed932b 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -43,6 +43,9 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   ! *** Corner boundary conditions ***
   u(1,1) = 0.
   u(jd,1) = 0.
+  do k = 2,kmax-1
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  enddo
   !        u(1,kmax) = ubar(1+jb,kmax)*cos(dp*float(jb))
   u(1,kmax) = ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(dp*float(jb))
   u(jd,kmax) = 0.
-- 
2.43.0


From 66a1995c2103a03b3140bdf51a8b8b4696697100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 10/45] fix: average u_baro and flux_vector_phi_baro over the
 levels the prefactor covers

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b21f906..c80c04a 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -407,7 +407,7 @@ class QGFieldBase(ABC):
 
         # Build dynamic slicer for var_3d
         slicer = [slice(None)] * var_3d.ndim
-        slicer[height_axis] = slice(lowest_layer_index, None)
+        slicer[height_axis] = slice(lowest_layer_index, -1)
 
         # Build dynamic shape for height broadcasting
         height_shape = [1] * var_3d.ndim
@@ -415,7 +415,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-self.height[lowest_layer_index:-1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
-- 
2.43.0


From 00dceae91f03e2985dc5d95a01687ead3db316f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 11/45] fix: keep the area analysis inside its bins for uniform
 or missing data

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 ++
 src/falwa/f90_modules/compute_reference_states.f90    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 214b356..78cf0a1 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -72,6 +72,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       phi0 = -0.5*pi+dphi*float(j-1)
       do i = 1,imax
         ind = 1+int((qmax-pv2(i,j))/dq)
+        ind = max(1, min(nnd, ind))
         da = a*a*dphi*dlambda*cos(phi0)
         an(ind) = an(ind) + da
         cn(ind) = cn(ind) + da*pv2(i,j)
@@ -123,6 +124,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       phi0 = -0.5*pi+dphi*float(j-1)
       do i = 1,imax
       ind = 1+int((qmax-vort2(i,j))/dq)
+      ind = max(1, min(nnd, ind))
       da = a*a*dphi*dlambda*cos(phi0)
       an(ind) = an(ind) + da
       cn(ind) = cn(ind) + da*vort2(i,j)
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index e48f6d3..17a3993 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -84,6 +84,7 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
             phi0 = -0.5*pi+dphi*float(j-1)
             do i = 1,nlon
                 ind = 1+int((qmax-pv2(i,j))/dq)
+                ind = max(1, min(npart, ind))
                 da = a*a*dphi*dlambda*cos(phi0)
                 an(ind) = an(ind) + da
                 cn(ind) = cn(ind) + da*pv2(i,j)
-- 
2.43.0


From 39f4686b4b5830aca8d4fce56641b24c1b1f4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 12/45] fix: forget an earlier solver outcome when reference
 states are recomputed

---
 src/falwa/oopinterface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index c80c04a..17cc0d7 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -600,6 +600,8 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        self._nonconvergent_uref = False
+        self._reference_states_computed = False
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
-- 
2.43.0


From 336f363c569a37ef8fdeef8860727a0626f1783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 13/45] fix: accept even latitude grids whose midpoint linspace
 rounds off zero

---
 src/falwa/oopinterface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 17cc0d7..f3b83dd 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -327,6 +327,7 @@ class QGFieldBase(ABC):
             # Even grid
             need_latitude_interpolation = True
             _ylat = np.linspace(-90., 90., ylat.size + 1, endpoint=True)
+            _ylat[ylat.size // 2] = 0.  # linspace may miss the equator by a rounding error
             equator_idx = \
                 np.argwhere(_ylat == 0)[0][0] + 1
             # Fortran indexing starts from 1
-- 
2.43.0


From 9333e5a41f685d1bfec9015da6e1e2c5157532a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 14/45] fix: label the hemispheric static stability profiles of
 QGDataset correctly

---
 src/falwa/xarrayinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..60377b7 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -488,8 +488,8 @@ class QGDataset:
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n"),
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From d3987d33cb0f53c02d3514d501295909b26c4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 15/45] fix: report integration_seconds for any datetime
 resolution

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 60377b7..f1af5aa 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -731,7 +731,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, 's')
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 6a78dbf33d39cdac01b1827305220afd12aba3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 16/45] fix: return zero where cos(lat) is below tol as
 documented

---
 src/falwa/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..4c23d9c 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -227,6 +227,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
 
+    zonal_diff[~finite_clat, :] = 0.
     zonal_diff[finite_clat, :] = zonal_diff[finite_clat, :] * \
                                  (-1./(planet_radius * clat[finite_clat, np.newaxis] * 2. * dlambda))
 
@@ -274,6 +275,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
 
+    meridional_diff[~finite_clat, :] = 0.
     meridional_diff[finite_clat, :] = \
         meridional_diff[finite_clat, :] / (planet_radius * clat[finite_clat, np.newaxis] * 2. * dphi)
 
-- 
2.43.0


From 9cf890d23927d42542b3bc3cc83ae541fc4e63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 17/45] fix: undo the sign flip of the Northern Hemisphere in
 eqvlat_hemispheric

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..4d06749 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
-- 
2.43.0


From 14898e29300717bb25c7b7034481b2dcc007589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 18/45] fix: compute the vgrad bracket with eqvlat_vgrad, which
 accepts it

---
 src/falwa/wrapper.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 4d06749..ccc7a28 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -168,7 +168,7 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
     """
     nlat = vort.shape[0]
     qref = np.zeros(nlat)
-    brac = np.zeros(nlat)
+    brac = np.zeros(nlat) if vgrad is not None else None
 
     if nlat_s is None:
         nlat_s = nlat // 2
@@ -177,23 +177,24 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad[:nlat_s, :])
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad[::-1, :][:nlat_s, :])
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
-    brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    if vgrad is not None:
+        brac[:nlat_s] = brac1
+        brac[-nlat_s:] = brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +407,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +436,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From ddd3e1cddb301afccaf215ba7295274cd2d00b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 19/45] fix: return the LWA array from
 barotropic_input_qref_to_compute_lwa as documented

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index ccc7a28..fb4b27f 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From 4f4252dc5cdd7427e991bb192ee7d5e97f8dd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 20/45] fix: flip the heating rate of QGDataset like the other
 input fields

---
 src/falwa/xarrayinterface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index f1af5aa..f31b1e0 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -396,6 +396,7 @@ class QGDataset:
             flip.append(-3)
         # Ordering of xlon doesn't matter here
         xlon = da_xlon.values
+        self._flip = flip
         # Create a QGField object for each combination of timestep, ensemble
         # member, etc.
         self._fields = []
@@ -656,7 +657,10 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
+            heating_rate_sliced = heating_rate.sel(coord).values
+            if self._flip:
+                heating_rate_sliced = np.flip(heating_rate_sliced, axis=self._flip)
+            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_sliced)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From a3c514184e15808afcef124bbc1941c7232fe9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 21/45] fix: give the ncforce of QGDataset its global latitudes
 in hemispheric mode

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index f31b1e0..33db3ef 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-- 
2.43.0


From 72cad4aaead31f23dc7749e15b2e7e4109a27295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 22/45] fix: return the global fields of a hemispheric QGField
 on even latitude grids

---
 src/falwa/oopinterface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index f3b83dd..8d7e79a 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -393,7 +393,8 @@ class QGFieldBase(ABC):
             The interpolated variable(numpy.ndarray)
         """
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            # QGPV and the interpolated fields are global even in hemispheric mode
+            if self.northern_hemisphere_results_only and variable.shape[interp_axis] != self._nlat_analysis:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
-- 
2.43.0


From 3c73f853fc393e96bd45465bb740ae2decfb8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 23/45] fix: raise the documented ValueError when a quantity is
 read before it is computed

The guards compared storage arrays with None, but the storages start out as
arrays of zeros, so qref, uref, ptref, lwa_baro, u_baro, ncforce_baro and lwa
returned zeros instead of raising.
---
 src/falwa/oopinterface.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 8d7e79a..5bc637e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -185,6 +185,9 @@ class QGFieldBase(ABC):
         # === Stage completion indicator ===
         self._reference_states_computed: bool = False
         self._layerwise_fluxes_computed: bool = False
+        self._qref_computed: bool = False
+        self._lwa_computed: bool = False
+        self._barotropic_fluxes_computed: bool = False
 
     def _initialize_storage(self):
         """
@@ -604,6 +607,7 @@ class QGFieldBase(ABC):
 
         self._nonconvergent_uref = False
         self._reference_states_computed = False
+        self._qref_computed = True  # Qref is available even if Uref turns out not to converge
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
@@ -692,6 +696,7 @@ class QGFieldBase(ABC):
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
             self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
             self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
+        self._lwa_computed = True
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
@@ -908,6 +913,8 @@ class QGFieldBase(ABC):
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
 
         self._compute_intermediate_barotropic_flux_terms(ncforce=ncforce)
+        self._lwa_computed = True
+        self._barotropic_fluxes_computed = True
 
         # === Compute named fluxes in NH18 ===
         clat = self._clat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._clat
@@ -1274,7 +1281,7 @@ class QGFieldBase(ABC):
         """
         Reference state of QGPV (Qref).
         """
-        if self._reference_states_storage.qref is None:
+        if not self._qref_computed:
             raise ValueError('qref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.qref_correct_unit(
@@ -1285,7 +1292,7 @@ class QGFieldBase(ABC):
         """
         Reference state of zonal wind (Uref).
         """
-        if self._reference_states_storage.uref is None:
+        if not self._qref_computed:
             raise ValueError('uref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.uref),
@@ -1296,7 +1303,7 @@ class QGFieldBase(ABC):
         """
         Reference state of potential temperature (\\Theta_ref).
         """
-        if self._reference_states_storage.ptref is None:
+        if not self._qref_computed:
             raise ValueError('ptref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.ptref),
@@ -1390,7 +1397,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic local wave activity (with cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.lwa_baro is None:
+        if not self._lwa_computed:
             raise ValueError('lwa_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1404,7 +1411,7 @@ class QGFieldBase(ABC):
         corresponding barotropic component of non-conservative force contribution with respect to the wave
         activity budget equation in Lubis et al (2025, Nature Comm) Eq.(11).
         """
-        if self._barotropic_flux_terms_storage.ncforce_baro is None:
+        if not self._barotropic_fluxes_computed:
             raise ValueError('ncforce_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1416,7 +1423,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic zonal wind (without cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.u_baro is None:
+        if not self._lwa_computed:
             raise ValueError('u_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1428,7 +1435,7 @@ class QGFieldBase(ABC):
         """
         Three-dimensional array of local wave activity
         """
-        if self._layerwise_flux_terms_storage.lwa is None:
+        if not (self._lwa_computed or self._layerwise_fluxes_computed):
             raise ValueError('lwa is not computed yet.')
         return self._return_interp_variables(
             variable=self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa),
-- 
2.43.0


From 173cbc3fa5fd43387128ed1c5fef65f6318d8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 24/45] fix: refuse to compute LWA and layerwise fluxes without
 usable reference states

compute_layerwise_lwa_fluxes and compute_lwa_only used the zero-initialised
storage when the reference states had not been computed, and the former also
used a Uref that had not converged, which compute_lwa_and_barotropic_fluxes
refuses.
---
 src/falwa/oopinterface.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 5bc637e..5d2dab6 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -648,6 +648,9 @@ class QGFieldBase(ABC):
         >>> lwa = QGField.lwa       # 3-D LWA
         """
 
+        if not self._qref_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
         ylat_input = self._ylat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._ylat
         qref_correct_unit = self._reference_states_storage.qref_correct_unit(
             ylat=ylat_input, omega=self.omega, python_indexing=False)
@@ -1079,6 +1082,11 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        if self._nonconvergent_uref:
+            raise ValueError("Uref was not properly solved. Layerwise fluxes cannot be computed.")
+        if not self._reference_states_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
-- 
2.43.0


From 81f0859493b2a563087ead81c5109f86132610b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 25/45] fix: check the dimensions of t_field before they are
 broadcast away

A t_field of shape (1, nlat, nlon) or (nlat, nlon) was silently accepted, and
one with a wrong number of levels raised a broadcasting ValueError instead of
the documented TypeError.
---
 src/falwa/oopinterface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 5d2dab6..e43244f 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -124,8 +124,7 @@ class QGFieldBase(ABC):
         # === Check whether the input field is masked array. If so, turn them to normal array ===
         u_field = self._convert_masked_data(u_field, "u_field")
         v_field = self._convert_masked_data(v_field, "v_field")
-        theta_field = self._convert_masked_data(t_field, "t_field") * np.exp(
-            dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
+        t_field = self._convert_masked_data(t_field, "t_field")
 
         # === Check if ylat is in ascending order and include the equator ===
         ylat = self._convert_masked_data(ylat, "ylat")
@@ -142,7 +141,10 @@ class QGFieldBase(ABC):
         expected_dimension = (self.nlev, self.nlat, self.nlon)
         self._check_dimension_of_fields(field=u_field, field_name='u_field', expected_dim=expected_dimension)
         self._check_dimension_of_fields(field=v_field, field_name='v_field', expected_dim=expected_dimension)
-        self._check_dimension_of_fields(field=theta_field, field_name='theta_field', expected_dim=expected_dimension)
+        self._check_dimension_of_fields(field=t_field, field_name='t_field', expected_dim=expected_dimension)
+
+        theta_field = t_field * np.exp(
+            dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
 
         # === Do Interpolation on latitude grid if needed ===
         if self.need_latitude_interpolation:
-- 
2.43.0


From cbeda043aee3a19b3aea6dee1d9d8890a5efd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 26/45] fix: areas covering the sphere to rounding error gave
 NaN at the North Pole

---
 src/falwa/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index 36f1b53..683f627 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -48,7 +48,8 @@ def eqvlat_fawa(
     aq = np.cumsum([0] + [area_flat[np.where(inds == i)].sum() for i in range(1, vort_bins.size)])  # cumulative area
     cq = np.cumsum([0] + [np.multiply(area_flat, vort_flat)[np.where(inds == i)].sum()  # cumulative vort * area
                           for i in range(1, vort_bins.size)])
-    eqv_gaussian_grid = aq / (2 * pi * planet_radius ** 2) - 1.0  # ascending from -1
+    # ascending from -1; areas that cover the whole sphere may add up to a rounding error more than 1
+    eqv_gaussian_grid = np.minimum(aq / (2 * pi * planet_radius ** 2) - 1.0, 1.0)
     eqv_latitude = np.rad2deg(np.arcsin(eqv_gaussian_grid))
     qref = np.interp(ylat, eqv_latitude, vort_bins)  # ascending. qref = np.interp(alat[::-1], aq, q_part_u) also works
 
@@ -122,7 +123,8 @@ def eqvlat_vgrad(ylat, vort, area, n_points, planet_radius=6.378e+6, vgrad=None)
         brac = np.zeros_like(aa)
         brac[1:-1] = 0.5 * (dp[:-2] + dp[2:])
 
-    y_part = aq / (2 * pi * planet_radius**2) - 1.0
+    # areas that cover the whole sphere may add up to a rounding error more than 1
+    y_part = np.minimum(aq / (2 * pi * planet_radius**2) - 1.0, 1.0)
     lat_part = np.rad2deg(np.arcsin(y_part))
     q_part = np.interp(ylat, lat_part, q_part_u)
 
-- 
2.43.0


From e1af10d6a81378757838560b1fd90d32da093ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 27/45] fix: theta_lwa integrated the Northern Hemisphere
 against the gradient of theta, so zonal states had wave activity

---
 src/falwa/wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index fb4b27f..42e8e7b 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -567,9 +567,8 @@ def theta_lwa(ylat, theta, area, dmu, nlat_s=None, n_points=None, planet_radius=
                                area[:nlat_s, :],
                                n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = qref2[::-1]
-    lwa_result[-nlat_s:, :], dummy = basis.lwa(nlon, nlat_s,
-                                               theta[-nlat_s:, :],
-                                               qref[-nlat_s:],
-                                               dmu[-nlat_s:])
+    # theta decreases towards either pole, so the wave activity is computed from the pole to the equator as well
+    lwa2, dummy = basis.lwa(nlon, nlat_s, theta2[:nlat_s, :], qref2, dmu[-nlat_s:][::-1])
+    lwa_result[-nlat_s:, :] = lwa2[::-1, :]
 
     return qref, lwa_result
-- 
2.43.0


From 426b2d1d8e5296bd61ca1bc1881a99e8dc01fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 28/45] fix: compute_qgpv_givenvort read uninitialised memory
 between the hemispheric domains

With the default nlat_s the equatorial row of an odd-sized grid belongs to
neither domain, and the stretching term there was computed from np.empty.
---
 src/falwa/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 4c23d9c..80bfe78 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,7 +158,7 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp)  # rows outside both hemispheric domains are not assigned below
     dzdiv = np.empty_like(potential_temp)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
-- 
2.43.0


From fde61ec6d562cedf8d88ea4de210bdfada57cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 29/45] fix: meridional_divergence was half its value at the
 first and last latitude

The one-sided differences at the boundaries span dphi but were divided by
2*dphi, e.g. at the equator of a hemispheric field.
---
 src/falwa/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 80bfe78..eefc86b 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -269,8 +269,9 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff = np.zeros_like(field)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
-    meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
-    meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
+    # One-sided differences over dphi at the boundaries (all rows are divided by 2*dphi below)
+    meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
+    meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
 
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
-- 
2.43.0


From 1f6d631532c4d6c5048517a8e6f7aa3bd2e66900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 30/45] fix: compute_lwa_and_barotropic_fluxes returned the
 analysis grid's values for latitudes without an equator

---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index e43244f..2aa0522 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -966,15 +966,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From af83db41fa9f80aaae0bf7b916c2035e3c6dce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 31/45] fix: compare_two_fields_on_map failed without a
 diff_factor and ignored cmap

---
 src/falwa/plot_utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 4925810..1fd0d4e 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -62,15 +62,16 @@ def compare_two_fields_on_map(
     fig = plt.figure(figsize=figsize)
     ax1 = fig.add_subplot(1, 3, 1, projection=ccrs.PlateCarree(180))
     cs1 = map_on_axis(ax1, x_coord, y_coord, field_a, levels=np.linspace(cmin, cmax, 31), title=a_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax2 = fig.add_subplot(1, 3, 2, projection=ccrs.PlateCarree(180))
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
+    diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31) if diff_factor else None
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
-                      levels=np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31),
+                      levels=diff_levels,
                       title=f'Abs difference',
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     plt.suptitle(title)
     plt.tight_layout()
     if savefig_fname:
@@ -78,7 +79,7 @@ def compare_two_fields_on_map(
     plt.show()
 
 
-def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)'):
+def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)', cmap='rainbow'):
     # ax_obj.set_extent([0, 360, ylat.min(), ylat.max()], ccrs.PlateCarree())
     ax_obj.coastlines(color='black', alpha=1)
     ax_obj.set_aspect('auto')
@@ -88,7 +89,7 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     lat_formatter = LatitudeFormatter()
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
-    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap=cmap)
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0


From 30175078c78f8c33fa8e216aa6e04372fb4fcaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 32/45] fix: _compute_lwa_flux_dirinv did not pass the forcing
 and returned other terms than documented

---
 src/falwa/oopinterface.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 2aa0522..0eb346c 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1930,19 +1930,16 @@ class QGFieldNHN22(QGFieldBase):
 
         .. versionadded:: 0.6.0
         """
-        ans = compute_flux_dirinv_nshem(
+        ans = self._compute_lwa_and_barotropic_fluxes_wrapper(
             pv=self._interpolated_field_storage.qgpv,
             uu=self._interpolated_field_storage.interpolated_u,
             vv=self._interpolated_field_storage.interpolated_v,
             pt=self._interpolated_field_storage.interpolated_theta,
+            ncforce=np.zeros_like(self._interpolated_field_storage.interpolated_theta),
             tn0=self._domain_average_storage.tn0,
             qref=qref,
             uref=uref,
             tref=tref,
-            jb=self.eq_boundary_index,
-            is_nhem=True,
-            a=self.planet_radius,
-            om=self.omega,
-            dz=self.dz, h=self.scale_height, rr=self.dry_gas_constant, cp=self.cp, prefac=self.prefactor)
+            jb=self.eq_boundary_index)
         # astarbaro, u_baro, urefbaro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4baro, astar1, astar2 = ans
-        return ans
+        return ans[:11]
-- 
2.43.0


From 2e4b36340e440cc470f113037b5fd0dc45dbf46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 33/45] fix: extrap1d relied on scipy.array and on map
 returning a list

---
 src/falwa/legacy/beta_version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/legacy/beta_version.py b/src/falwa/legacy/beta_version.py
index 84fbced..5b61ab6 100644
--- a/src/falwa/legacy/beta_version.py
+++ b/src/falwa/legacy/beta_version.py
@@ -19,8 +19,8 @@ def extrap1d(interpolator):
             return interpolator(x)
 
     def ufunclike(xs):
-        from scipy import array
-        return array(map(pointwise, array(xs)))
+        from numpy import array
+        return array(list(map(pointwise, array(xs))))
 
     return ufunclike
 
-- 
2.43.0


From 1398dd9e5841a222ed209b22f6659181f4b949b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 34/45] fix: pressure-level output lost the variable's
 attributes and the log named another variable

---
 ...polation_hybrid_to_pressure_poisson_filled_below_topo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 848dcea..6b98994 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -96,8 +96,6 @@ def vertical_interpolation_to_pressure(ds, variable, save_topography=False, logg
         ### Its 1 above topography and nan below topography.
         ### To-do : Use this variable later for doing topography correction during computation of vertically avergaed LWA budget later.
 
-    for var in [v for v in list(locals()) if v not in ['new_variable', 'topography', 'new_lev']]:
-        del locals()[var]
     gc.collect()
 
     end_interp = ti.time()
@@ -141,8 +139,8 @@ def update_new_variable_to_pressure(var, new_data, ds, ds_copy, default_attrs=No
         
     ds_copy[var]   = xr.DataArray(new_data, \
             dims   = tuple(new_coordinate_system), \
-            coords = {key:ds_copy.coords[key].values for key in new_coordinate_system}, \
-            attrs  = default_attrs.update({'description': '%s interpolated from model levels to pressure coords in hPa'%(var)}))   
+            coords = {key:ds_copy.coords[key] for key in new_coordinate_system}, \
+            attrs  = {**default_attrs, 'description': '%s interpolated from model levels to pressure coords in hPa'%(var)})   
     
     del new_data
     gc.collect()
-- 
2.43.0


From a9c11377f798efc2b1337a59b99d2297de3a60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 35/45] fix: scripts flipped the coordinates of a file without
 its data, or its data without the coordinates

---
 scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py | 10 +++++++---
 scripts/lubis_et_al_2025/cal_ncforce_loop.py     | 12 ++++++++----
 scripts/nhn_grl2022/sample_run_script.py         | 10 +++++++---
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
index 3f0a54e..fb30848 100755
--- a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
+++ b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
@@ -38,14 +38,18 @@ for i in year:
     
     # latitude has to be in ascending order
     ylat = u_file.variables['lat'][:]
+    ylat_order = slice(None)
     if np.diff(ylat)[0]<0:
         print('Flip ylat.')
+        ylat_order = slice(None, None, -1)
         ylat = ylat[::-1]
     
     # pressure level has to be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/100.
+    plev_order = slice(None)
     if np.diff(plev)[0]>0:
         print('Flip plev.')    
+        plev_order = slice(None, None, -1)
         plev = plev[::-1]
     
     nlon = xlon.size
@@ -133,9 +137,9 @@ for i in year:
     
     for tstep in range(ntimes):  # or ntimes
         
-        uu = u_file.variables['U'][tstep, :, :, :].data
-        vv = v_file.variables['V'][tstep, :, :, :].data
-        tt = t_file.variables['T'][tstep, :, :, :].data
+        uu = u_file.variables['U'][tstep, plev_order, ylat_order, :].data
+        vv = v_file.variables['V'][tstep, plev_order, ylat_order, :].data
+        tt = t_file.variables['T'][tstep, plev_order, ylat_order, :].data
     
         qgfield_object = QGFieldNHN22(xlon, ylat, plev, uu, vv, tt, eq_boundary_index=eq_boundary_index, northern_hemisphere_results_only=False)
         equator_idx = qgfield_object.equator_idx
diff --git a/scripts/lubis_et_al_2025/cal_ncforce_loop.py b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
index 28852e8..8c6caf6 100755
--- a/scripts/lubis_et_al_2025/cal_ncforce_loop.py
+++ b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
@@ -41,14 +41,18 @@ for i in years:
 
     # Latitude must be in ascending order
     ylat = u_file.variables['lat'][:]
+    ylat_order = slice(None)
     if np.diff(ylat)[0] < 0:
         print('Flip ylat.')
+        ylat_order = slice(None, None, -1)
         ylat = ylat[::-1]
 
     # Pressure levels must be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/ 100.0  # Convert to hPa
+    plev_order = slice(None)
     if np.diff(plev)[0] > 0:
         print('Flip plev.')
+        plev_order = slice(None, None, -1)
         plev = plev[::-1]
 
     nlon = xlon.size
@@ -91,10 +95,10 @@ for i in years:
 
     # Process and compute ncforce_3D for each timestep
     for tstep in range(ntimes):
-        uu = u_file.variables['U'][tstep, :, :, :]
-        vv = v_file.variables['V'][tstep, :, :, :]
-        tt = t_file.variables['T'][tstep, :, :, :]
-        dtdt = dtdt_file.variables['DTDTMST'][tstep, :, :, :]
+        uu = u_file.variables['U'][tstep, plev_order, ylat_order, :]
+        vv = v_file.variables['V'][tstep, plev_order, ylat_order, :]
+        tt = t_file.variables['T'][tstep, plev_order, ylat_order, :]
+        dtdt = dtdt_file.variables['DTDTMST'][tstep, plev_order, ylat_order, :]
 
         # Initialize QGFieldNHN22 object
         qgfield = QGFieldNHN22(
diff --git a/scripts/nhn_grl2022/sample_run_script.py b/scripts/nhn_grl2022/sample_run_script.py
index 5a69a70..f96ef71 100644
--- a/scripts/nhn_grl2022/sample_run_script.py
+++ b/scripts/nhn_grl2022/sample_run_script.py
@@ -37,14 +37,18 @@ xlon = u_file.variables['longitude'][:]
 
 # latitude has to be in ascending order
 ylat = u_file.variables['latitude'][:]
+ylat_order = slice(None)
 if np.diff(ylat)[0]<0:
     print('Flip ylat.')
+    ylat_order = slice(None, None, -1)
     ylat = ylat[::-1]
 
 # pressure level has to be in descending order (ascending height)
 plev = u_file.variables['level'][:]
+plev_order = slice(None)
 if np.diff(plev)[0]>0:
     print('Flip plev.')
+    plev_order = slice(None, None, -1)
     plev = plev[::-1]
 
 nlon = xlon.size
@@ -112,9 +116,9 @@ if to_generate_data:
     # --- Compute LWA + fluxes and save the data into netCDF file ---
     for tstep in range(ntimes):
 
-        uu = u_file.variables['u'][tstep, ::-1, ::-1, :].data
-        vv = v_file.variables['v'][tstep, ::-1, ::-1, :].data
-        tt = t_file.variables['t'][tstep, ::-1, ::-1, :].data
+        uu = u_file.variables['u'][tstep, plev_order, ylat_order, :].data
+        vv = v_file.variables['v'][tstep, plev_order, ylat_order, :].data
+        tt = t_file.variables['t'][tstep, plev_order, ylat_order, :].data
 
         qgfield = QGFieldNHN22(xlon, ylat, plev, uu, vv, tt, kmax=kmax, dz=dz, eq_boundary_index=eq_boundary_index)
 
-- 
2.43.0


From ae380cbc871947138828dcc74dda34a95a65512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 36/45] fix: GRL2022 figure 5 stepped one longitude of the
 second experiment from the first one's past

---
 scripts/nhn_grl2022/graph_plot_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/nhn_grl2022/graph_plot_module.py b/scripts/nhn_grl2022/graph_plot_module.py
index 876dac6..ac15196 100644
--- a/scripts/nhn_grl2022/graph_plot_module.py
+++ b/scripts/nhn_grl2022/graph_plot_module.py
@@ -1068,7 +1068,7 @@ def plot_figure5(lwa_flux_filename):
         d42 = gama2p[m, 359] * lwap[m, 359]
         d52 = diff * (dlwap2[m - 1, 0] + dlwap2[m - 1, 358] - 2. * dlwap2[m - 1, 359]) / (
                     a * a * dl * dl * np.cos(phi) * np.cos(phi))
-        dlwap2[m + 1, 359] = dlwap[m - 1, 359] + 2. * dt * (d12 + d22 + d32 + d42 + d52)
+        dlwap2[m + 1, 359] = dlwap2[m - 1, 359] + 2. * dt * (d12 + d22 + d32 + d42 + d52)
 
         d1 = -const * (dlwap[m, 1] * (cgxp[m, 1] - al * (dlwap[m, 1] + lwap[m, 1])) - dlwap[m, 359] * (
                     cgxp[m, 359] - al * (dlwap[m, 359] + lwap[m, 359])))
-- 
2.43.0


From 4462d5a769b469773619ae2a847cf37d564b8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 37/45] fix: Lubis et al. scripts cut fractional time stamps to
 whole numbers

---
 scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py | 2 +-
 scripts/lubis_et_al_2025/cal_ncforce_loop.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
index fb30848..7ec66bd 100755
--- a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
+++ b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
@@ -88,7 +88,7 @@ for i in year:
     plevs = output_file.createVariable('levelist',dtype('float32').char,('levelist',)) # Define the coordinate variables
     lats = output_file.createVariable('latitude',dtype('float32').char,('latitude',)) # Define the coordinate variables
     lons = output_file.createVariable('longitude',dtype('float32').char,('longitude',))
-    times = output_file.createVariable('time',dtype('int').char,('time',))    
+    times = output_file.createVariable('time',time_array.dtype,('time',))    
     plevs.units = 'hPa' 
     lats.units = 'degrees_north'
     lons.units = 'degrees_east'
diff --git a/scripts/lubis_et_al_2025/cal_ncforce_loop.py b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
index 8c6caf6..97a6840 100755
--- a/scripts/lubis_et_al_2025/cal_ncforce_loop.py
+++ b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
@@ -73,7 +73,7 @@ for i in years:
     plevs = output_file.createVariable('levelist', 'f4', ('levelist',))
     lats = output_file.createVariable('latitude', 'f4', ('latitude',))
     lons = output_file.createVariable('longitude', 'f4', ('longitude',))
-    times = output_file.createVariable('time', 'i4', ('time',))
+    times = output_file.createVariable('time', time_array.dtype, ('time',))
 
     ncforce_3d = output_file.createVariable(
         'ncforce_3D', 'f4', ('time', 'levelist', 'latitude', 'longitude'), zlib=True
-- 
2.43.0


From ec6f965842a6246672fb8ebd4b24e1cd321a01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 38/45] fix: predigest and GRL2022 scripts left the time stamps
 and heights of their output unwritten

---
 scripts/mdtf_predigest_data/predigest_data.py | 6 ++++--
 scripts/nhn_grl2022/sample_run_script.py      | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/mdtf_predigest_data/predigest_data.py b/scripts/mdtf_predigest_data/predigest_data.py
index 89b10a8..5a3bc1c 100644
--- a/scripts/mdtf_predigest_data/predigest_data.py
+++ b/scripts/mdtf_predigest_data/predigest_data.py
@@ -61,14 +61,16 @@ if __name__ == "__main__":
         'latitude', np.dtype('float32').char,
         ('latitude',))  # Define the coordinate variables
     lons = output_file.createVariable('longitude', np.dtype('float32').char, ('longitude',))
-    times = output_file.createVariable('time', np.dtype('int').char, ('time',))
+    times = output_file.createVariable('time', time_array.dtype, ('time',))
     lats.units = 'degrees_north'
     lons.units = 'degrees_east'
     times.units = time_units
     times.calendar = time_calendar
     lats[:] = ylat
     lons[:] = xlon
-    # times[:] = time_array
+    times[:] = time_array[:total_tsteps]
+    height.units = 'm'
+    height[:] = np.arange(kmax) * 1000.
     lwa_baro = output_file.createVariable('lwa_baro', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
     lwa_baro.units = 'm/s'
     u_baro = output_file.createVariable('u_baro', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
diff --git a/scripts/nhn_grl2022/sample_run_script.py b/scripts/nhn_grl2022/sample_run_script.py
index f96ef71..528e848 100644
--- a/scripts/nhn_grl2022/sample_run_script.py
+++ b/scripts/nhn_grl2022/sample_run_script.py
@@ -90,14 +90,14 @@ if to_generate_data:
     output_file.createDimension('time',ntimes+4)
     lats = output_file.createVariable('latitude',np.dtype('float32').char,('latitude',)) # Define the coordinate variables
     lons = output_file.createVariable('longitude',np.dtype('float32').char,('longitude',))
-    times = output_file.createVariable('time',np.dtype('int').char,('time',))
+    times = output_file.createVariable('time',time_array.dtype,('time',))
     lats.units = 'degrees_north'
     lons.units = 'degrees_east'
     times.units = time_units
     times.calendar = time_calendar
     lats[:] = ylat[90:]
     lons[:] = xlon
-    # times[:] = time_array
+    times[:ntimes] = time_array  # the last four steps are left empty
     lwa_baro = output_file.createVariable('lwa', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
     lwa_baro.units = 'm/s'
     ua1 = output_file.createVariable('ua1', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-- 
2.43.0


From 9238121af7cd3c0fcb698a58ef7a138ba4ba1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 39/45] fix: heating rate stored in another order of levels or
 latitudes than the winds was taken upside down

---
 src/falwa/xarrayinterface.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 33db3ef..fcfd957 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -319,6 +319,8 @@ class QGDataset:
         if var_names is None:
             var_names = dict()
 
+        self._var_names = var_names
+
         # Check input data type first
         assert isinstance(da_u, xr.Dataset) or isinstance(da_u, xr.DataArray)
         assert da_v is None or isinstance(da_v, xr.DataArray) or isinstance(da_v, xr.Dataset)
@@ -416,6 +418,22 @@ class QGDataset:
             dim: self._ds.coords[dim] for dim in other_dims
         })
 
+    def _get_flip(self, da):
+        """Axes to flip so that the given field is ordered as QGField requires
+
+        Assumes the ordering of the wind fields for coordinates not found.
+        """
+        flip = []
+        for axis, names, is_ordered in [(-2, _NAMES_YLAT, _is_ascending), (-3, _NAMES_PLEV, _is_descending)]:
+            try:
+                coord = _get_dataarray(da.coords, names, self._var_names)
+                if not is_ordered(coord.values):
+                    flip.append(axis)
+            except KeyError:
+                if axis in self._flip:
+                    flip.append(axis)
+        return flip
+
     @property
     def fields(self):
         """Access to the QGField objects created by the QGDataset.
@@ -656,10 +674,13 @@ class QGDataset:
         """
         ncforce_input_list = []
 
+        # Levels and latitudes of the heating rate may be stored in another
+        # order than those of the wind fields
+        flip = self._get_flip(heating_rate)
         for field, coord in zip(self._fields, self.metadata.iter_other()):
             heating_rate_sliced = heating_rate.sel(coord).values
-            if self._flip:
-                heating_rate_sliced = np.flip(heating_rate_sliced, axis=self._flip)
+            if flip:
+                heating_rate_sliced = np.flip(heating_rate_sliced, axis=flip)
             output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_sliced)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
-- 
2.43.0


From a6823a11dd3f747ac79336d9cfc758d0d725e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 40/45] fix: netcdf_utils, preprocessing and stat_utils were
 left out of the installed package

---
 src/meson.build | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meson.build b/src/meson.build
index 5eb12c8..99e0f6c 100644
--- a/src/meson.build
+++ b/src/meson.build
@@ -4,8 +4,11 @@ py.install_sources(
     'falwa/basis.py',
     'falwa/constant.py',
     'falwa/data_storage.py',
+    'falwa/netcdf_utils.py',
     'falwa/oopinterface.py',
     'falwa/plot_utils.py',
+    'falwa/preprocessing.py',
+    'falwa/stat_utils.py',
     'falwa/utilities.py',
     'falwa/wrapper.py',
     'falwa/xarrayinterface.py',
-- 
2.43.0


From 53a0bdfa9777c842e463297997e6b4a37e611ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 41/45] fix: GRL2022 script labelled fluxes and the heat flux
 term of its output as velocities

---
 scripts/nhn_grl2022/sample_run_script.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/nhn_grl2022/sample_run_script.py b/scripts/nhn_grl2022/sample_run_script.py
index 528e848..96a0381 100644
--- a/scripts/nhn_grl2022/sample_run_script.py
+++ b/scripts/nhn_grl2022/sample_run_script.py
@@ -101,17 +101,17 @@ if to_generate_data:
     lwa_baro = output_file.createVariable('lwa', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
     lwa_baro.units = 'm/s'
     ua1 = output_file.createVariable('ua1', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-    ua1.units = 'm/s'
+    ua1.units = 'm**2/s**2'
     ua2 = output_file.createVariable('ua2', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-    ua2.units = 'm/s'
+    ua2.units = 'm**2/s**2'
     ep1 = output_file.createVariable('ep1', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-    ep1.units = 'm/s'
+    ep1.units = 'm**2/s**2'
     ep2 = output_file.createVariable('ep2', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-    ep2.units = 'm/s'
+    ep2.units = 'm**2/s**2'
     ep3 = output_file.createVariable('ep3', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-    ep3.units = 'm/s'
+    ep3.units = 'm**2/s**2'
     ep4 = output_file.createVariable('ep4', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-    ep4.units = 'm/s'
+    ep4.units = 'm/s**2'
 
     # --- Compute LWA + fluxes and save the data into netCDF file ---
     for tstep in range(ntimes):
-- 
2.43.0


From 3519a4556067cfefd6a246b0d03b99a5f5284860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:34 +0000
Subject: [PATCH 42/45] fix: hemisphere_to_globe gave variables without
 latitude a latitude dimension

---
 src/falwa/xarrayinterface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index fcfd957..04730c9 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -812,5 +812,6 @@ def hemisphere_to_globe(ds, var_names=None):
         sd[v_name] = -sd[v_name]
     except KeyError:
         pass
-    # Assemble global dataset
-    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name)
+    # Assemble global dataset (variables without latitude dimension are kept as
+    # they are)
+    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name, data_vars="minimal")
-- 
2.43.0


From af71fda4f43759a829f48f2cde533a1cf40d3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:23 +0000
Subject: [PATCH 43/45] fix: equivalent latitudes beyond the last contour read
 an unset circulation

When every counted contour encloses less area than the polar cap of a latitude
(a coarse contour partition, or a field with an outlier), no interval matched,
so the reference PV stayed zero and the circulation, which enters the boundary
condition at the equator, was read without having been set. The outermost
contour is used there now.
---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 4 ++++
 src/falwa/f90_modules/compute_reference_states.f90    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 78cf0a1..5c4e328 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -85,6 +85,9 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       ccn(nn) = ccn(nn-1)+cn(nn)
     enddo
     do j = 1,nd-1
+      ! All contours enclose less than alat(j): keep the outermost one
+      qref(j,k) = qn(nnd)
+      cref(j,k) = ccn(nnd)
       do nn = 1,nnd-1
         if(aan(nn).le.alat(j).and.aan(nn+1).gt.alat(j)) then
           dd = (alat(j)-aan(nn))/(aan(nn+1)-aan(nn))
@@ -137,6 +140,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       ccn(nn) = ccn(nn-1)+cn(nn)
     enddo
     do j = 1,nd-1
+      ckref(j,k) = ccn(nnd)
       do nn = 1,nnd-1
         if(aan(nn).le.alat(j).and.aan(nn+1).gt.alat(j)) then
           dd = (alat(j)-aan(nn))/(aan(nn+1)-aan(nn))
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index 17a3993..01bf286 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -97,6 +97,9 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
             ccn(nn) = ccn(nn-1)+cn(nn) 
         enddo
         do j = 1,(jd-1)
+            ! All contours enclose less than alat(j): keep the outermost one
+            qref(j,k) = qn(npart)
+            cref(j,k) = ccn(npart)
             do nn = 1,npart-1
                 if(aan(nn).le.alat(j).and.aan(nn+1).gt.alat(j)) then
                     dd = (alat(j)-aan(nn))/(aan(nn+1)-aan(nn))
-- 
2.43.0


From 82dbb9c8f0827718381dd1e869e99c9e6733fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:56 +0000
Subject: [PATCH 44/45] fix: derivatives of integer fields were truncated to
 integers

zonal_convergence, meridional_divergence, curl_2d and compute_qgpv_givenvort
allocated their results in the type of the field they were given.
---
 src/falwa/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index eefc86b..167bbf3 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,8 +158,8 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.zeros_like(potential_temp)  # rows outside both hemispheric domains are not assigned below
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp, dtype=np.result_type(potential_temp, np.float32))  # rows outside both hemispheric domains are not assigned below
+    dzdiv = np.empty_like(zdiv)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
@@ -219,7 +219,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field)
+    zonal_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -267,7 +267,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    meridional_diff = np.zeros_like(field)
+    meridional_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
     # One-sided differences over dphi at the boundaries (all rows are divided by 2*dphi below)
     meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
@@ -289,7 +289,7 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield)
+    ans = np.zeros_like(ufield, dtype=np.result_type(ufield, vfield, np.float32))
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From 358881c2aca73d08c6f79b292e12586f145b8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:56 +0000
Subject: [PATCH 45/45] fix: solve_uref_both_bc truncated its results for
 integer winds

---
 src/falwa/legacy/beta_version.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/falwa/legacy/beta_version.py b/src/falwa/legacy/beta_version.py
index 5b61ab6..b80ee8b 100644
--- a/src/falwa/legacy/beta_version.py
+++ b/src/falwa/legacy/beta_version.py
@@ -346,14 +346,14 @@ def solve_uref_both_bc(tstamp, zmum, FAWA_cos, ylat, ephalf2, Delta_PT,
     u_MassCorr_noslip[1:-1,:] = u[1:-1,:] * cor1 / cosl[:,np.newaxis]
 
     # --- Initialize T_MassCorr to be output ---
-    u_Ref_regular_adiab = np.zeros_like(zmum)
-    u_Ref_regular_noslip = np.zeros_like(zmum)
-    u_MassCorr_regular_adiab = np.zeros_like(zmum)
-    u_MassCorr_regular_noslip = np.zeros_like(zmum)
-    T_Ref_regular_adiab = np.zeros_like(zmum)
-    T_Ref_regular_noslip = np.zeros_like(zmum)
-    T_MassCorr_regular_adiab = np.zeros_like(zmum)
-    T_MassCorr_regular_noslip = np.zeros_like(zmum)
+    u_Ref_regular_adiab = np.zeros_like(zmum, dtype=np.result_type(zmum, np.float32))
+    u_Ref_regular_noslip = np.zeros_like(u_Ref_regular_adiab)
+    u_MassCorr_regular_adiab = np.zeros_like(u_Ref_regular_adiab)
+    u_MassCorr_regular_noslip = np.zeros_like(u_Ref_regular_adiab)
+    T_Ref_regular_adiab = np.zeros_like(u_Ref_regular_adiab)
+    T_Ref_regular_noslip = np.zeros_like(u_Ref_regular_adiab)
+    T_MassCorr_regular_adiab = np.zeros_like(u_Ref_regular_adiab)
+    T_MassCorr_regular_noslip = np.zeros_like(u_Ref_regular_adiab)
 
     for u_MassCorr,u_MassCorr_regular,u_Ref_regular,T_MassCorr_regular,T_Ref_regular,BCstring in \
     zip([u_MassCorr_adiab,u_MassCorr_noslip],\
-- 
2.43.0

